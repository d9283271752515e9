"""Writes properties.jsonl and MANIFEST.json from the table below (one place, kept in step)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/ajdmom/'
INP, HIST, SCH, CFG, PRG, FLT = 'inputs', 'histories', 'schedules', 'configurations', 'programs', 'fault_sequences'

EXACT = ('runtime oracle monitor: every returned formula evaluated at random parameter points in 70-digit arithmetic and '
         'compared with moments computed independently from the generator of the SDE')
TRUST = ('Exploration: sampled orders and parameter points, all judged by an independent oracle (own ODE/generator based '
         'moments, exact rationals and 70-digit floats; polynomial identity testing makes a wrong formula at an explored order '
         'visible at almost every point). Orders beyond the explored bound are not covered. ')
TESTS = ('The tests compare a few low orders with literals or with the same recursions at one parameter set; ')


def P(id, title, st, over, qt, why, files, mech, tech, note, observe=None):
    return dict(id=id, title=title, st=st, over=over, qt=qt, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe or [])


def M(*a):
    return [dict(name=n, where=S + w) for n, w in a]


PROPS = [
 P('C01', '1-factor SV: unconditional moments and central moments are exact',
   'For the one-factor stochastic volatility (Heston) model, the formula returned for the l-th moment and the l-th central moment of the return over an interval equals the true moment implied by the model\'s SDE with a stationary variance, at every admissible parameter value. The float functions return the value of that formula at the given parameters.',
   [INP], 'every order l >= 0, every parameter set (k, theta, sigma_v > 0, rho in [-1,1], any mu, h >= 0)',
   TESTS + 'orders above 4, and interactions such as rho at its bounds, mu = 0 or large kh, are not reached.',
   ['mdl_1fsv/mom.py', 'mdl_1fsv/cmom.py', 'ito_mom.py', 'poly.py'],
   M(('expansion of y into V0-terms and Ito blocks', 'mdl_1fsv/mom.py'), ('recursive moment of state integrals', 'ito_mom.py')), EXACT,
   TRUST + 'Quick: orders 0-8, thorough higher.'),
 P('C02', '1-factor SV with price jumps: moments and central moments are exact',
   'For the one-factor SV model with compound-Poisson normal jumps in the price, the returned formula for each moment and central moment of the return equals the true moment of the model. The float functions return the value of that formula.',
   [INP], 'every order and parameter set, including zero jump intensity, zero jump mean and zero jump spread',
   TESTS + 'combinations of the diffusion part with higher jump moments are sampled at single points.',
   ['mdl_1fsvj/mom.py', 'mdl_1fsvj/cmom.py', 'cpp_mom.py'],
   M(('binomial convolution of 1fsv moments with compound Poisson moments', 'mdl_1fsvj/mom.py'), ('compound Poisson moments', 'cpp_mom.py')), EXACT, TRUST),
 P('C03', '2-factor SV: unconditional moments and central moments are exact',
   'For the two-factor SV model (variance is the sum of two independent square-root diffusions), the returned formula for each moment and central moment of the return equals the true moment of the model. The float functions return the value of that formula, including every inverse-decay-rate combination the formula carries.',
   [INP], 'every order and every parameter set of the two factors',
   TESTS + 'the two-factor tests reach order 3 at most with one set, while recursion branches specific to both factors start at order 3.',
   ['mdl_2fsv/mom.py', 'mdl_2fsv/cmom.py', 'itos_mom.py'],
   M(('two-factor state-integral recursion', 'itos_mom.py'), ('quadratic-rate denominators (tuple keys)', 'mdl_2fsv/mom.py')), EXACT, TRUST),
 P('C04', '2-factor SV with price jumps: moments and central moments are exact',
   'For the two-factor SV model with compound-Poisson normal price jumps, the returned formula for each moment and central moment of the return equals the true moment of the model, and the float functions return its value.',
   [INP], 'every order and parameter set', TESTS + 'only low orders are sampled.',
   ['mdl_2fsvj/mom.py', 'mdl_2fsvj/cmom.py'], M(('convolution of 2fsv and compound Poisson moments', 'mdl_2fsvj/mom.py')), EXACT, TRUST),
 P('C05', '1-factor models: cross moments and covariances of consecutive returns',
   'For the one-factor models with and without price jumps, the returned formula for the cross moment E[y_n^l1 y_{n+1}^l2] and for the covariance of powers of two consecutive returns equals the true value under a stationary variance. The float function returns its value.',
   [INP], 'every pair of orders (both argument orders, zeros included) and every parameter set',
   TESTS + 'asymmetric pairs of orders are barely covered.',
   ['mdl_1fsv/cov.py', 'mdl_1fsvj/cov.py'], M(('inner/outer expansion over two intervals', 'mdl_1fsv/cov.py'), ('jump convolution', 'mdl_1fsvj/cov.py')), EXACT, TRUST),
 P('C06', '2-factor models: cross moments and covariances of consecutive returns',
   'For the two-factor models with and without price jumps, the returned formula for the cross moment of powers of two consecutive returns and for their covariance equals the true value under stationary variances. The float function returns its value.',
   [INP], 'every pair of orders and every parameter set', TESTS + 'only (1,1)-(2,1) style orders are sampled.',
   ['mdl_2fsv/cov.py', 'mdl_2fsvj/cov.py'], M(('two-interval expansion', 'mdl_2fsv/cov.py')), EXACT, TRUST),
 P('C07', '1-factor SV: conditional central moments given initial variance, every form',
   'For the one-factor SV model the returned central moments of the return given the initial variance equal the true conditional central moments, and every documented simplified form (each presentation in other symbols) has the same value as the unsimplified one. The float function agrees with them.',
   [INP, CFG], 'every order l >= 1, every initial variance, every presentation form, every parameter set',
   TESTS + 'the simplified forms re-express the formula in other symbols, and no test compares them in value.',
   ['mdl_1fsv/cond_cmom.py'], M(('incremental recursion of centered integrals', 'mdl_1fsv/cond_cmom.py'), ('simplification forms', 'mdl_1fsv/cond_cmom.py')), EXACT, TRUST),
 P('C08', 'Square-root jump diffusion: conditional moments given the initial value',
   'For the square-root diffusion with exponential jumps, the returned conditional moments and central moments of the state (and of its deviation form) given the initial value equal the true ones, and the float functions return their values.',
   [INP], 'every order, initial value and parameter set', TESTS + 'few orders at one point.',
   ['mdl_srjd/cond_mom.py', 'mdl_srjd/cond_cmom.py', 'mdl_srjd/cond_ie_iez_mom.py'], M(('joint IE/IEZ recursion', 'mdl_srjd/cond_ie_iez_mom.py')), EXACT, TRUST),
 P('C09', 'Square-root jump diffusion: stationary moments and central moments',
   'The returned stationary moments and central moments of the square-root jump diffusion equal the true moments of its stationary law, in the simplified as in the unsimplified form.',
   [INP, CFG], 'every order and parameter set', TESTS + 'few orders at one point.',
   ['mdl_srjd/mom.py', 'mdl_srjd/cmom.py'], M(('limit of the conditional moments / linear solve', 'mdl_srjd/cmom.py')), EXACT, TRUST),
 P('C10', 'Square-root jump diffusion: conditional moments given the jump path',
   'Given the initial value and the full list of jump times and sizes, the returned moments and central moments of the square-root jump diffusion (and of its Ito integral) equal the true conditional moments, for any number of jumps. The float functions return their values.',
   [INP], 'every order and every jump list (none, one, several, equal times, jumps at the ends of the interval)',
   TESTS + 'only one fixed jump list is used.',
   ['mdl_srjd/cond2_mom.py', 'mdl_srjd/cond2_cmom.py'], M(('jump-path expansion', 'mdl_srjd/cond2_mom.py')), EXACT, TRUST),
 P('C11', 'Square-root jump diffusion: moments of its state integrals',
   'The returned moments and central moments of the exponentially weighted jump integral and of the diffusion integral of the square-root jump diffusion, single and joint, equal the true ones, and the float functions return their values.',
   [INP], 'every (pair of) order(s) and parameter set', TESTS + 'few orders at one point.',
   ['mdl_srjd/iez_mom.py', 'mdl_srjd/iez_cmom.py', 'mdl_srjd/cond_ie_iez_mom.py', 'mdl_srjd/cond_ie_iez_cmom.py'],
   M(('Bell-type expansion of the jump integral', 'mdl_srjd/iez_mom.py'), ('joint recursion', 'mdl_srjd/cond_ie_iez_mom.py')), EXACT, TRUST),
 P('C12', 'Contemporaneous-jump SV: conditional moments given the initial variance',
   'For the SV model with contemporaneous (correlated) jumps in price and variance, the returned moments and central moments of the return given the initial variance equal the true conditional moments, and the float functions return their values.',
   [INP], 'every order, initial variance and parameter set', TESTS + 'low orders at one point.',
   ['mdl_svcj/cond_mom.py', 'mdl_svcj/cond_cmom.py', 'mdl_svcj/cond_ieii_ieziziz_mom.py', 'mdl_svcj/ieziziz_mom.py'],
   M(('joint recursion of diffusion and jump integrals', 'mdl_svcj/cond_ieii_ieziziz_mom.py')), EXACT, TRUST),
 P('C13', 'Contemporaneous-jump SV: unconditional moments',
   'For the SV model with contemporaneous jumps the returned unconditional moments and central moments of the return, and the stationary moments of the variance deviation they rest on, equal the true values; the drift-free form equals the full one. The float functions return their values.',
   [INP, CFG], 'every order and parameter set', TESTS + 'low orders at one point.',
   ['mdl_svcj/mom.py', 'mdl_svcj/cmom.py'], M(('averaging over the stationary variance', 'mdl_svcj/mom.py')), EXACT, TRUST),
 P('C14', 'Contemporaneous-jump SV: moments given initial variance and jumps',
   'For the SV model with contemporaneous jumps, the returned moments and central moments of the return given the initial variance and the list of jump times and variance-jump sizes equal the true conditional moments for any number of jumps, and the float functions return their values.',
   [INP], 'every order and jump list (including none, ties, jumps at the ends)', TESTS + 'one fixed jump list.',
   ['mdl_svcj/cond2_mom.py', 'mdl_svcj/cond2_cmom.py', 'ito_cond_mom.py', 'utils.py'], M(('state integrals given the jump path', 'ito_cond_mom.py'), ('nested jump sums', 'utils.py')), EXACT, TRUST),
 P('C15', 'Independent-jump SV: moments given initial variance and variance jumps',
   'For the SV model with independent jumps in price and variance, the returned moments and central moments of the return given the initial variance and the variance jumps equal the true conditional moments for any number of jumps, and the float functions return their values.',
   [INP], 'every order and jump list', TESTS + 'one fixed jump list.',
   ['mdl_svij/cond2_mom.py', 'mdl_svij/cond2_cmom.py'], M(('convolution of the variance-jump model with the price jumps', 'mdl_svij/cond2_mom.py')), EXACT, TRUST),
 P('C16', 'Variance-jump SV: moments given variance jumps; simplified and classified forms',
   'For the SV model with variance jumps, the returned moments and central moments given the initial variance and the jumps equal the true conditional moments; every simplified form has the same value, and the classified sub-formulas partition the terms of the formula and sum back to it, in memory as in the files written from them.',
   [INP, CFG], 'every order, jump list, presentation form and classification', TESTS + 'the simplified, classified and written forms are not compared with the moment.',
   ['mdl_svvj/cond2_mom.py', 'mdl_svvj/cond2_cmom.py', 'ito_cond_mom.py'], M(('simplify / classify / write_to_subpolys', 'mdl_svvj/cond2_cmom.py')),
   EXACT + '; partition and round-trip monitors on classified formulas and their files', TRUST),
 P('C17', 'Partial derivatives with respect to every parameter are exact',
   'For the one- and two-factor models with and without price jumps, the derivative formulas and float derivatives of moments, central moments and covariances with respect to each documented parameter equal the true partial derivative of the corresponding moment.',
   [INP], 'every function, order, parameter and parameter value', TESTS + 'derivatives are checked for a couple of parameters at one point.',
   ['mdl_1fsv/mom.py', 'mdl_1fsv/cmom.py', 'mdl_1fsvj/mom.py', 'mdl_1fsvj/cmom.py', 'mdl_1fsvj/cov.py', 'mdl_2fsv/mom.py', 'mdl_2fsv/cmom.py', 'mdl_2fsvj/mom.py', 'mdl_2fsvj/cmom.py', 'mdl_2fsvj/cov.py', 'mdl_1fsv/cov.py', 'mdl_2fsv/cov.py'],
   M(('term-wise derivative of the formula', 'mdl_1fsv/mom.py'), ('derivative of tuple-valued denominators', 'mdl_2fsv/cmom.py')),
   'runtime oracle monitor: derivative formulas and float derivatives against 70-digit central differences of the undifferentiated formula, on real moments and on random polynomials',
   TRUST),
 P('C18', 'Polynomials obey exact ring laws and never share or alter their operands',
   'Addition, subtraction, multiplication, scalar multiplication, powers and the documented in-place operations on polynomials give the mathematically exact result, raise on incompatible operands, and leave operands unaltered except where documented as in-place. The same holds for every operation carried out inside a real derivation.',
   [INP, HIST], 'every pair of polynomials over any set of symbols, including empty, cancelling, negative-power and identical operands, and every sequence of operations',
   'Tests use a few two-term polynomials; cancellation, aliasing and empty operands are not covered.',
   ['poly.py'], M(('dictionary-based polynomial class', 'poly.py')),
   'runtime monitor with a reference implementation on random operation sequences, plus an in-situ homomorphism monitor hooked on every polynomial operation of real derivations',
   'Exploration: random operands against an independent dictionary implementation; in-situ operations judged modulo a 61-bit prime.'),
 P('C19', 'Exported files reproduce the formula exactly',
   'The text and CSV files written for a formula contain every term with its exact coefficient and exponents under one unambiguous column title per symbol, so that reading the file back yields the same formula; writing does not alter the formula, and a file name without extension gets the documented one.',
   [INP, CFG], 'every polynomial the library can produce (all key layouts), empty ones included, and every file name form',
   'Tests only check that a file appears.',
   ['poly.py'], M(('write_to_txt / write_to_csv', 'poly.py')), 'round-trip monitor: files parsed back by an independent reader and compared term by term',
   'Exploration: real moments of every model and random polynomials of the three layouts.'),
 P('C20', 'Moments of diffusion integrals of the square-root process',
   'The returned joint conditional moments of the exponentially weighted and plain Ito integrals of the square-root diffusion, and the stationary moments of its state, equal the true values for every combination of orders.',
   [INP], 'every triple of orders, every parameter set, every initial state', TESTS + 'a few triples.',
   ['ito_mom.py'], M(('recursion over orders', 'ito_mom.py'), ('term integration', 'ito_mom.py')), EXACT, TRUST),
 P('C21', 'Diffusion integrals given a jump path, and the jump sums they are written in',
   'The returned joint moments of the diffusion integrals of a square-root process whose variance jumps are given equal the true conditional moments for any jump list, and the nested jump-sum function equals its defining sum for every exponent list and every jump list. Integrating a nested jump sum over time yields the true integral.',
   [INP], 'every order triple, exponent list and jump list (none, single, tied, unsorted)', TESTS + 'the jump-sum function is tested on a single list.',
   ['ito_cond_mom.py', 'utils.py'], M(('integration of jump sums', 'ito_cond_mom.py'), ('fZ', 'utils.py')), EXACT, TRUST),
 P('C22', 'Diffusion integrals of two superposed square-root processes',
   'The returned joint moments of the five integrals (two exponentially weighted pairs and their common price integral) of two independent square-root diffusions equal the true conditional moments for every combination of orders, symmetric in the two factors.',
   [INP], 'every 5-tuple of orders, every parameter set', TESTS + 'a few tuples of total order 2.',
   ['itos_mom.py'], M(('two-factor recursion', 'itos_mom.py'), ('integral of exponential-polynomial terms', 'itos_mom.py')), EXACT, TRUST),
 P('C23', 'Moments of normal variables and of compound Poisson sums',
   'The returned moments and central moments of a compound Poisson sum with normal jumps, and the moments of a normal variable, equal the true ones coefficient by coefficient; invalid orders are rejected.',
   [INP], 'every order and parameter set', TESTS + 'orders to 4.',
   ['cpp_mom.py'], M(('derivatives of the moment generating function', 'cpp_mom.py')),
   EXACT + '; coefficient-wise comparison with the Bell-polynomial expansion', TRUST),
 P('C24', 'Combinatorial, normal-moment and integration helpers are exact',
   'Multinomial coefficients, enumerations of compositions and of multi-level index sets, double factorials, central normal moments, rewriting of correlation powers, and closed-form integrals of powers times exponentials return the exact value or the complete duplicate-free enumeration for every argument.',
   [INP], 'every argument up to moderate size, exhaustively for small ones', 'Tests sample one or two arguments each.',
   ['utils.py', 'ito_mom.py', 'itos_mom.py', 'mdl_1fsv/cond_cmom.py'], M(('helpers', 'utils.py'), ('integral coefficients', 'ito_mom.py')),
   'exhaustive small-argument comparison with brute force and exact integrals', TRUST),
 P('C25', 'Results depend on the arguments only: no hidden state between calls',
   'A call returns the same formula or value whatever calls were made before, in whatever order, by whatever threads, even if the caller modified earlier results or earlier calls failed; arguments passed in are never modified.',
   [HIST, SCH, FLT], 'every history and interleaving of calls of all models, with mutation of returned objects, failing calls in between, and concurrent threads',
   'Every test calls a function once in a fresh state.',
   ['poly.py', 'ito_mom.py', 'itos_mom.py', 'mdl_1fsv/cmom.py', 'mdl_svcj/cond_ieii_ieziziz_mom.py'], M(('tables of lower-order moments passed between recursions', 'ito_mom.py'), ('in-place polynomial operations', 'poly.py')),
   'history monitor: random call histories with hostile mutations and threads, each result compared with a first call in a fresh process',
   'Exploration: sampled histories; six threads with a tiny switch interval.'),
 P('C26', 'Sample generators draw from the law of the model',
   'The arrays returned by the sample generators have the moments, serial dependence and conditional law the model implies, up to the documented discretisation of the paths, for every model and every jump list.',
   [INP, SCH], 'every generator, parameter set, interval and jump list; random draws', 'Tests only check that the generators run or the length of the result.',
   ['mdl_1fsv/euler.py', 'mdl_1fsvj/euler.py', 'mdl_2fsv/euler.py', 'mdl_2fsvj/euler.py', 'mdl_svvj/euler.py', 'mdl_svij/euler.py', 'mdl_svcj/euler.py', 'mdl_srjd/euler.py'],
   M(('Euler paths with exact jumps', 'mdl_1fsv/euler.py'), ('exact transitions between jumps', 'mdl_svvj/euler.py')),
   'statistical monitor: sample statistics against a band between the exact moments of the Euler chain and of the SDE',
   'Exploration: seeded sampling, decision at >= 6.5 standard errors.'),
 P('C27', 'Sample generators: size, finiteness, reproducibility, exact degenerate paths',
   'Each generator returns exactly the requested number of finite real values of the documented support, the same path for the same seed, leaves its arguments untouched, and follows the exact path when the model is deterministic or has a closed form, at the edges of the parameter domain as inside it.',
   [INP, CFG], 'every generator and configuration, including a variance reaching zero, extreme correlation, a single segment, no observation, jumps at the ends, tied jumps',
   'Tests run each generator once at a tame point.',
   ['mdl_1fsv/euler.py', 'mdl_1fsvj/euler.py', 'mdl_2fsv/euler.py', 'mdl_2fsvj/euler.py', 'mdl_svvj/euler.py', 'mdl_svij/euler.py', 'mdl_svcj/euler.py', 'mdl_srjd/euler.py'],
   M(('path loops', 'mdl_1fsv/euler.py'), ('jump bookkeeping', 'mdl_svcj/euler.py')), 'invariant monitor over hostile configurations, with exact expected paths in degenerate ones', 'Exploration: random configurations from hostile grids.'),
 P('C28', 'Joint moments of diffusion and jump integrals under contemporaneous jumps',
   'The returned joint moments of the jump integrals, and of diffusion and jump integrals together, under contemporaneous jumps equal the true conditional moments for every combination of orders; the float functions return their values.',
   [INP], 'every tuple of orders and parameter set', TESTS + 'a few tuples.',
   ['mdl_svcj/ieziziz_mom.py', 'mdl_svcj/cond_ieii_ieziziz_mom.py'], M(('moment generating function derivatives', 'mdl_svcj/ieziziz_mom.py'), ('joint recursion', 'mdl_svcj/cond_ieii_ieziziz_mom.py')), EXACT, TRUST),
 P('C29', 'Time consistency: moments over an interval agree with those over its parts',
   'Formulas for one interval length and another agree as the Markov property, stationarity and aggregation of consecutive returns require: averaging conditional moments over the start gives the unconditional ones, chaining two intervals gives the joint interval, and moments of aggregated returns follow from cross moments of consecutive ones.',
   [INP], 'every order, interval split and parameter set', 'No test relates two intervals.',
   ['mdl_1fsv/mom.py', 'mdl_1fsv/cov.py', 'mdl_2fsv/cov.py', 'mdl_srjd/cond_mom.py', 'mdl_srjd/mom.py', 'mdl_svcj/cond_mom.py'], M(('conditional, unconditional and cross moments derived by separate routines', 'mdl_1fsv/mom.py')),
   'metamorphic monitor: identities between values of different formulas of the real code, 70 digits', 'Exploration: identities hold exactly for the models, so any disagreement above rounding is a violation.'),
 P('C30', 'Nested models and units: special cases of one model are the other model',
   'Switching off jumps, a factor or a correlation turns the moments of a larger model into those of the smaller one; rescaling time, shifting the drift, exchanging the two factors, splitting a jump into two simultaneous ones or adding a jump of size zero changes the moments exactly as the model says.',
   [INP, CFG], 'every pair of nested models, order and parameter set', 'No test relates two models.',
   ['mdl_1fsvj/mom.py', 'mdl_2fsv/mom.py', 'mdl_svvj/cond2_mom.py', 'mdl_svij/cond2_mom.py', 'mdl_svcj/mom.py'], M(('separate derivations per model', 'mdl_2fsv/mom.py')),
   'metamorphic monitor: identities between values of formulas of different models', 'Exploration over orders and random points.'),
 P('C31', 'Returned moments are the moments of some real distribution',
   'Every family of moments returned at admissible parameters is a possible moment sequence: moment matrices are positive semi-definite, variances non-negative, kurtosis at least one plus squared skewness, cross moments within Cauchy-Schwarz, and the variance given more information is on average no larger.',
   [INP], 'every moment family and admissible parameter set', 'No test checks feasibility of a family.',
   ['mdl_1fsv/mom.py', 'mdl_2fsv/mom.py', 'mdl_svcj/mom.py', 'mdl_svvj/cond2_cmom.py', 'mdl_srjd/mom.py'], M(('independent derivation of each order', 'mdl_1fsv/mom.py')),
   'invariant monitor on values of formulas and float functions', 'Exploration over random points.'),
 P('C32', 'Lists of moments, trivial orders, and rejection of invalid arguments',
   'Functions returning all moments up to an order give, entry by entry, the moment of that order whatever the highest order asked; order zero gives one and order one of a central moment zero; invalid orders, unknown parameter names in derivatives and missing parameters raise the documented error instead of giving a value; parameters a formula does not use, parameters in any order, and numbers given as int, float or NumPy float, do not matter.',
   [INP], 'every list function, order and argument outside the domain', 'Tests call a list function once and compare one entry.',
   ['mdl_1fsv/cond_cmom.py', 'mdl_svvj/cond2_mom.py', 'mdl_svvj/cond2_cmom.py', 'mdl_svij/cond2_mom.py', 'mdl_svcj/cond2_mom.py', 'mdl_svcj/cond2_cmom.py', 'ito_mom.py'], M(('incremental list construction', 'mdl_svvj/cond2_mom.py')),
   'monitor: list entries against one-order results by value; required exceptions observed', 'Exploration: exhaustive over list functions and small orders.'),
 P('C33', 'Published encoding: documented symbols, exact terms, same in every process',
   'Every returned formula names its symbols as documented and in the documented order, gives every key one exponent per symbol and one exact rational coefficient, has no negative power of a quantity that may be zero, and is the same in every process; the documented examples give the documented output, package-level names are the documented functions, and every module runs as a program.',
   [INP, CFG, PRG], 'every function and order, processes with different hash seeds and interpreter options, and orders of calls', 'Tests run in one process and look at a handful of formulas.',
   ['poly.py', '__init__.py', 'mdl_1fsv/__init__.py', 'mdl_1fsv/mom.py', 'mdl_svcj/cond_mom.py'], M(('key layout per model', 'poly.py')),
   'invariant monitor on returned formulas; digests compared between processes; documented examples replayed', 'Exploration over all functions at explored orders.'),
]

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['st'], quantifier=dict(over=p['over'], text=p['qt']), why_tests_cant=p['why'],
                                    anchors=dict(files=[S + x for x in p['files']], mechanism=p['mech'],
                                                 observe_at=p['observe'] or ['return values of the public functions in the anchored files'], hook_needed=None))) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh', checks=[dict(property=p['id'], quick_cmd=f"./run.sh {p['id']}", thorough_cmd=f"./run.sh {p['id']} --tier thorough",
                                                               technique=p['tech'], level='exploration', level_note=p['note'].strip()) for p in PROPS],
               not_applicable=[], notes='Pure Python library: no compiled code, so no compiler sanitizer applies; the monitors run the real code in /repo/src.')
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
