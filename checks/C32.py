"""Lists of moments, zero orders, trivial orders, and rejection of arguments outside the domain"""
import itertools
from fractions import Fraction as F

import exact
import mpmath as mp
import real as rl
from core import RealFailure
from evalpoly import UnknownKeyfor, evaluate
from subjects import I, SUBJECTS as SB, par_of, point

RULE = ('a case is (list function, highest order, entry) judged by value (70 digits) against the one-order function and against '
        'shorter lists; (function, trivial order); or (function, argument outside the documented domain) which must raise the '
        'documented error; distinct = function x arguments x value')
MIN_EVALS, MIN_KEYS = 500, 200

LISTS = {  # module: (list function, one-order function, subject giving the meaning of the keys, takes jumps)
    'mdl_1fsv.cond_cmom': ('cmoments_y_to', None, '1fsv.cond_cmom', 0, 7),
    'mdl_svvj.cond2_mom': ('moments_y_to', 'moment_y', 'svvj.cond2_mom', 0, 6),
    'mdl_svvj.cond2_cmom': ('cmoments_y_to', 'cmoment_y', 'svvj.cond2_cmom', 0, 6),
    'mdl_svij.cond2_mom': ('moments_y_to', 'moment_y', 'svij.cond2_mom', 0, 5),
    'mdl_svij.cond2_cmom': ('cmoments_y_to', 'cmoment_y', 'svij.cond2_cmom', 0, 5),
    'mdl_svcj.cond2_mom': ('moments_y_to', 'moment_y', 'svcj.cond2_mom', 1, 4),
    'mdl_svcj.cond2_cmom': ('cmoments_y_to', 'cmoment_y', 'svcj.cond2_cmom', 1, 4),
}
NEG = [('cpp_mom', 'mcpp', 1), ('cpp_mom', 'cmcpp', 1), ('ito_mom', 'moment_IEII', 3), ('ito_cond_mom', 'moment_IEII', 3),
       ('itos_mom', 'moment_IEI_IEII', 5), ('mdl_svcj.cond_mom', 'moment_y', 1), ('mdl_svcj.cmom', 'cmoment_y', 1),
       ('mdl_svcj.cond_cmom', 'cmoment_y', 1), ('mdl_svcj.ieziziz_mom', 'moment_ieziziz', 3),
       ('mdl_svcj.cond_ieii_ieziziz_mom', 'moment_ieii_ieziziz', 6), ('mdl_srjd.cond_ie_iez_mom', 'moment_ie', 1),
       ('mdl_srjd.cond_ie_iez_mom', 'moment_ie_iez', 2), ('mdl_srjd.cond_ie_iez_cmom', 'moment_ie', 1),
       ('mdl_srjd.cond_ie_iez_cmom', 'cmoment_ie_iez', 2), ('mdl_srjd.iez_mom', 'moment_IEZ', 1), ('mdl_srjd.iez_cmom', 'cmoment_IEZ', 1),
       ('mdl_srjd.cmom', 'cmoment_v', 1), ('mdl_srjd.mom', 'moment_v', 1)]
WRT = {'1fsv': ['k', 'mu', 'theta', 'sigma_v', 'rho'], '2fsv': ['k1', 'k2', 'mu', 'theta1', 'theta2', 'sigma_v1', 'sigma_v2']}


def tasks(tier, rng):
    q = tier == 'quick'
    out = [dict(name=f'list:{m}', kind='lists', m=m, extra=0 if q else 1, w=9) for m in LISTS]
    out += [dict(name=f'trivial:{s}', kind='trivial', m=s, w=1) for s in SB]
    out += [dict(name='negative', kind='negative', m='', w=1), dict(name='itos.all', kind='itosall', m='', n=5 if q else 6, w=4)]
    out += [dict(name=f'wrt:{m}', kind='wrt', m=m, w=3) for m in ('1fsv', '1fsvj', '2fsv', '2fsvj')]
    out += [dict(name=f'orders:{m}', kind='ordertypes', m=m, w=2) for m in ('1fsv', '1fsvj', '2fsv', '2fsvj')]
    sc = [s for s in SB if SB[s].scalar]
    out += [dict(name=f'numtypes:{s}', kind='numtypes', m=s, n=2 if q else 5, w=1) for s in sc]
    return out


def run(ctx, task):
    try:
        globals()[task['kind']](ctx, task['m'], task)
    except RealFailure:
        pass


def ev(ctx, key, P, s, p):
    try:
        return evaluate(P, SB[s].env(p))[0]
    except (UnknownKeyfor, ValueError, TypeError, IndexError, AttributeError) as e:
        ctx.judge(False, key + '/malformed', f'{type(e).__name__}: {e}')
        raise RealFailure from e


def lists(ctx, m, task):
    fn, one, s, jumps, L = LISTS[m]
    L += task['extra']
    mod = I(m)
    f = getattr(mod, fn)
    pts = [point(ctx.rng, nj) for nj in (2, 1, 0)] if not jumps else [point(ctx.rng, 2), point(ctx.rng, 3), point(ctx.rng, 0)]
    singles = {}
    full = {}
    for l in [L] + list(range(1, L)):
        for pi, p in enumerate(pts):
            a = (l, par_of(p)['jumpsize']) if jumps else (l,)
            if jumps or (l, 0) not in full:
                A = ctx.real(f'{m}.{fn}({l})', f, *a)
                ctx.judge(isinstance(A, list) and len(A) == l + 1, f'{m}.{fn}/length', lambda: f'{fn}({l}) returned {len(A)} entries, expected {l + 1}')
                full[(l, pi if jumps else 0)] = A
            A = full[(l, pi if jumps else 0)]
            for i in range(min(l + 1, len(A))):
                key = f'{m}.{fn}/{l}[{i}]'
                exact.shape(ctx, key, (), A[i])
                if i == 0 and 'cmom' in m:
                    continue                              # documented for orders >= 1
                x = ev(ctx, key, A[i], s, p)
                ctx.count('entries')
                if (i, pi) not in singles:
                    if one:
                        b = (i,) + a[1:]
                        P = ctx.real(f'{m}.{one}({i})', getattr(mod, one), *b)
                        singles[(i, pi)] = ev(ctx, f'{m}.{one}({i})', P, s, p)
                    else:
                        singles[(i, pi)] = x
                rl.same(ctx, key, x, singles[(i, pi)], f'{key}:{mp.nstr(x, 8)}', f'entry {i} of {fn}({l}) vs the moment of order {i}', point=rl.pt(p))
                if i == 0:
                    rl.same(ctx, key + '/one', x, mp.mpf(1), key, 'moment of order 0 is not 1')
                if i == 1 and 'cmom' in m:
                    rl.same(ctx, key + '/zero', x, mp.mpf(0), key + f'@{pi}', 'central moment of order 1 is not 0', point=rl.pt(p))


def trivial(ctx, s, task):
    d = len(SB[s].args[0])
    for i in range(4):
        p = point(ctx.rng, [2, 0, 1, 3][i], ['generic', 'corner'][i % 2])
        if 'cov' in s or 'moment_yy' in s:
            continue
        z = (0,) * d
        if z in SB[s].args:
            rl.same(ctx, f'{s}/order0', rl.value(ctx, s, z, p), mp.mpf(1), f'{s}0@{i}', f'{s}: moment of order 0 is not 1', point=rl.pt(p))
            if SB[s].scalar and 'cond2_cmom' not in s:
                ctx.judge(abs(rl.scal(ctx, s, z, p) - 1) < 1e-12, f'{s}/order0/float', f'{s}: float moment of order 0 is not 1', nontrivial=f'{s}0f@{i}')
        if 'cmom' in s and d == 1 and s != 'srjd.ie_cmom':
            rl.same(ctx, f'{s}/order1', rl.value(ctx, s, (1,), p), mp.mpf(0), f'{s}1@{i}', f'{s}: central moment of order 1 is not 0', point=rl.pt(p))
            if SB[s].scalar:
                ctx.judge(abs(rl.scal(ctx, s, (1,), p)) < 1e-11, f'{s}/order1/float', f'{s}: float central moment of order 1 is not 0', nontrivial=f'{s}1f@{i}')


def negative(ctx, _, task):
    for m, fn, d in NEG:
        f = getattr(I(m), fn)
        for a in {tuple([-1] + [0] * (d - 1)), tuple([0] * (d - 1) + [-1]), (-1,) * d, tuple([-3] + [1] * (d - 1))[:d] if d <= 3 else (-7,) + (1,) * (d - 1)}:
            ctx.must_raise(f'{m}.{fn}{a}', ValueError, f, *a)
            ctx.keys.add(f'{m}.{fn}{a}')
            ctx.count('rejected_orders')
    m = I('mdl_1fsv.cond_cmom')
    A = ctx.real('cmoments_y_to', m.cmoments_y_to, 3)
    for tp in (0, 4, -1, '1', None):
        ctx.must_raise(f'simplify tp={tp}', Exception, m.simplify, A[3], tp)
        ctx.keys.add(f'simplify{tp}')


def itosall(ctx, _, task):
    m = I('itos_mom')
    for a in [x for x in itertools.product(range(4), repeat=5) if sum(x) in (0, 1, 2, 3) or (sum(x) == task['n'] and ctx.rng.random() < .06)]:
        D = ctx.real(f'moment_IEI_IEII{a}', m.moment_IEI_IEII, *a, return_all=True)
        ctx.judge(a in D, f'itos/all{a}', 'the requested order is missing')
        p = point(ctx.rng, 0)
        for b in ctx.rng.sample(sorted(D), min(3, len(D))) + [a]:
            if b not in D:
                continue
            x = ev(ctx, f'itos/all{a}[{b}]', D[b], 'itos.moment_IEI_IEII', p)
            y = rl.value(ctx, 'itos.moment_IEI_IEII', b, p)
            rl.same(ctx, f'itos/all{a}[{b}]', x, y, f'{a}[{b}]:{mp.nstr(x, 7)}' if x else None, f'entry {b} of the full table for {a}', point=rl.pt(p))


def wrt(ctx, m, task):
    ok = WRT[m.rstrip('j')] + (['lambda', 'mu_j', 'sigma_j'] if m.endswith('j') else [])
    par = par_of(point(ctx.rng, 0))
    bad = ['h', 'v0', 'K', '', 'sigma', 'lmbd', 'theta_1', None, 0, 'nu'] + [x for x in ['k', 'k1', 'rho', 'lambda', 'mu_j', 'theta', 'theta1', 'sigma_v', 'sigma_v1'] if x not in ok]
    M, C, V = I(f'mdl_{m}.mom'), I(f'mdl_{m}.cmom'), I(f'mdl_{m}.cov')
    P, Q, R = ctx.real('moment_y', M.moment_y, 2), ctx.real('cmoment_y', C.cmoment_y, 2), ctx.real('cov_yy', V.cov_yy, 1, 1)
    for w in bad:
        ctx.keys.add(f'{m}{w}')
        for nm, f, a in (('mom.dpoly', M.dpoly, (P, w)), ('cmom.dpoly', C.dpoly, (Q, w)), ('dm', M.dm, (2, par, w)), ('dcm', C.dcm, (2, par, w)), ('dcov', V.dcov, (1, 1, par, w))):
            ctx.must_raise(f'{m}.{nm}/{w}', ValueError, f, *a)
            ctx.count('rejected_parameters')
    for w in ok:
        for nm, f, a in (('mom.dpoly', M.dpoly, (P, w)), ('cmom.dpoly', C.dpoly, (Q, w)), ('cov.dpoly', M.dpoly, (R, w))):
            if nm == 'cmom.dpoly' and w == 'mu':
                continue                                  # central moments do not involve the drift
            D = ctx.real(f'{m}.{nm}/{w}', f, *a)
            ctx.judge(tuple(D.keyfor) == tuple(a[0].keyfor), f'{m}.{nm}/{w}/keyfor', 'a derivative is written in other symbols', nontrivial=f'{m}{nm}{w}')


def ordertypes(ctx, m, task):
    """a missing parameter is an error and never a silent number; extra ones are ignored"""
    p = point(ctx.rng, 0)
    par = par_of(p)
    used = {'1fsv': ['mu', 'k', 'theta', 'sigma_v', 'rho', 'h'], '2fsv': ['mu', 'k1', 'k2', 'theta1', 'theta2', 'sigma_v1', 'sigma_v2', 'h']}[m.rstrip('j')]
    used = used + (['lambda', 'mu_j', 'sigma_j'] if m.endswith('j') else [])
    only = {k: par[k] for k in used}
    M, C, V = I(f'mdl_{m}.mom'), I(f'mdl_{m}.cmom'), I(f'mdl_{m}.cov')
    w = used[1]
    for nm, f, a, b in (('m', M.m, (3,), ()), ('dm', M.dm, (3,), (w,)), ('cm', C.cm, (3,), ()), ('dcm', C.dcm, (3,), (w,)), ('cov', V.cov, (2, 1), ()), ('dcov', V.dcov, (2, 1), (w,))):
        x = ctx.real(f'{m}.{nm}', f, *a, only, *b)
        y = ctx.real(f'{m}.{nm}', f, *a, par, *b)
        z = ctx.real(f'{m}.{nm}', f, *a, dict(reversed(list(only.items()))), *b)
        ctx.judge(x == y == z, f'{m}.{nm}/extra', lambda: f'extra or re-ordered parameters change the value: {x} {y} {z}', nontrivial=f'{m}{nm}')
        for k in used:
            if k == 'mu' and 'cm' in nm:
                continue                                  # central moments do not involve the drift
            ctx.must_raise(f'{m}.{nm}/without {k}', KeyError, f, *a, {i: v for i, v in only.items() if i != k}, *b)
            ctx.count('missing_parameters')


def numtypes(ctx, s, task):
    """the value does not depend on how a number is written: int, float, NumPy scalar, tuple or list of jumps"""
    import numpy as np
    r = ctx.rng
    args = [a for a in SB[s].args if exact.weight(s, a) < 60 and not (sum(a) == 0 and 'cond2_cmom' in s)]
    conv = {'int': lambda x: int(x) if x == int(x) else x, 'float': float, 'numpy': np.float64}
    for _ in range(task['n']):
        p = point(r, r.choice([0, 1, 2, 3]))
        if r.random() < .5:
            for k, v in list(p.items()):                      # whole numbers where possible
                if not isinstance(v, (tuple, str)):
                    p[k] = F(r.choice([1, 2]))
            p.update(k1=F(5), k2=F(3), rho=F(r.choice([-1, 0, 1])), mu=F(r.choice([-2, -1, 0, 1])), mu_j=F(r.choice([-1, 0, 2])), mu_s=F(r.choice([-2, 0, 1])),
                     rho_J=F(r.choice([-1, 0, 1])), h=F(2), s=F(r.choice([0, 1])))
            n = len(p['jumpsize'])
            p['jumptime'] = tuple(sorted(F(r.choice([0, 1, 2])) for _ in range(n)))
            p['jumpsize'] = tuple(F(r.randint(1, 2)) for _ in range(n))
        else:                                             # some whole numbers among others
            h = F(r.choice([1, 2, 3, 4]))
            p['jumptime'] = tuple(x / p['h'] * h for x in p['jumptime'])
            p.update(h=h, s=p['s'] / p['h'] * h)
            for k, v in list(p.items()):
                if not isinstance(v, (tuple, str)) and k not in ('h', 's', 'rho', 'rho_J', 'k1', 'k2') and r.random() < .3:
                    p[k] = F(r.choice([1, 2, 3]))
        base = par_of(p)
        for a in r.sample(args, min(4, len(args))):
            x = ctx.real(f'{s}{a}/float', SB[s].scal, a, base)
            for nm, c in conv.items():
                q = {k: (tuple(c(y) for y in v) if isinstance(v, tuple) else v if isinstance(v, str) else c(v)) for k, v in base.items()}
                y = ctx.real(f'{s}{a}/{nm}', SB[s].scal, a, q)
                tol = 1e-8
                ctx.judge(abs(float(y) - x) <= tol * (1 + abs(x)), f'{s}{a}/{nm}', lambda: f'{s}{a} is {x} for float parameters and {y} for the same numbers as {nm}', nontrivial=f'{s}{a}{nm}', point=rl.pt(p))
                ctx.count('number_types')
