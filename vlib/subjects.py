"""Table of the public moment functions of ajdmom and the oracle value each one must equal.

A Subject couples: how to call the real function (returns a Poly), how the reference model
(engine.py/models.py, generator of the SDE) computes the same quantity for one parameter
point, and - when the library offers one - the documented scalar function."""
import importlib
from fractions import Fraction as F
from math import comb

import mpmath as mp
import engine as en
import models as md
from evalpoly import F2m, env_one, evaluate

ONE = en.ONE


def I(name):
    return importlib.import_module('ajdmom.' + name)


# ------------------------------------------------------------------ parameter points
def dy(rng, lo, hi, den=16):
    """random dyadic rational in [lo,hi] with denominator den"""
    return F(rng.randint(int(lo * den), int(hi * den)), den)


RHOS = [F(-7, 8), F(-5, 8), F(-3, 8), F(3, 8), F(5, 8), F(7, 16), F(-1, 4), F(3, 5), F(-4, 5), F(5, 13)]


def point(rng, njumps=2, profile='generic'):
    p = dict(
        k=dy(rng, .25, 2.5), theta=dy(rng, .125, 1, 32), sigma=dy(rng, .125, 1, 32),
        rho=rng.choice(RHOS), mu=rng.choice([1, -1]) * dy(rng, .0625, .5, 32),
        h=dy(rng, .25, 1.5), v0=dy(rng, .0625, 1.25, 32),
        mu_j=rng.choice([1, -1]) * dy(rng, .0625, .5, 32), sigma_j=dy(rng, .0625, .5, 32),
        lmbd=dy(rng, .125, 1.5), mu_v=dy(rng, .0625, .5, 32),
        mu_s=rng.choice([1, -1]) * dy(rng, .0625, .5, 32), sigma_s=dy(rng, .0625, .5, 32),
        rho_J=rng.choice([1, -1]) * dy(rng, .0625, 1, 32), lmbd_s=dy(rng, .125, 1.5),
        theta1=dy(rng, .125, 1, 32), theta2=dy(rng, .125, 1, 32),
        sigma1=dy(rng, .125, 1, 32), sigma2=dy(rng, .125, 1, 32),
        v10=dy(rng, .0625, 1, 32), v20=dy(rng, .0625, 1, 32), t0=dy(rng, 0, 1))
    p['lambda'] = dy(rng, .125, 1.5)
    # k1, k2 without small-integer resonances (a*k1 = b*k2, a,b <= 12)
    while True:
        p['k1'], p['k2'] = dy(rng, .25, 2.5, 32), dy(rng, .25, 2.5, 32)
        if all(a * p['k1'] != b * p['k2'] for a in range(1, 17) for b in range(1, 17)):
            break
    p['s'] = p['h'] * F(rng.randint(0, 12), 16)
    ts = sorted(rng.sample(range(1, 64), njumps))
    p['jumptime'] = tuple(p['h'] * F(t, 64) for t in ts)
    p['jumpsize'] = tuple(dy(rng, .0625, 1, 32) for _ in range(njumps))
    if profile.startswith('resonant'):
        a, b = profile.split()[1].split(':')
        p['k1'], p['k2'] = F(int(a), 2) * p['k'] / max(int(a), int(b)) * 2, F(int(b), 2) * p['k'] / max(int(a), int(b)) * 2
    if profile.startswith('corner'):
        tw = [c for c in CORNERS if c.__name__ == profile[7:]] or rng.sample(CORNERS, rng.randint(1, 3))
        for t in tw:
            t(p, rng)
        p['corner'] = '+'.join(t.__name__ for t in tw)
        p['s'] = min(p['s'], p['h'])
    return p


def c_rho0(p, r): p['rho'] = F(0)
def c_rhom1(p, r): p['rho'] = F(-1)
def c_rho1(p, r): p['rho'] = F(1)
def c_mu0(p, r): p['mu'] = F(0)
def c_nojump(p, r): p['lambda'] = F(0); p['lmbd'] = F(0); p['lmbd_s'] = F(0)
def c_muj0(p, r): p['mu_j'] = F(0); p['mu_s'] = F(0)
def c_sigj0(p, r): p['sigma_j'] = F(0); p['sigma_s'] = F(0)
def c_v0eq(p, r): p['v0'] = p['theta']
def c_v00(p, r): p['v0'] = F(0)
def c_feller(p, r): p['sigma'] = F(5, 2); p['sigma1'] = F(9, 4)
def c_rhoJ0(p, r): p['rho_J'] = F(0)
def c_fast(p, r): p['k'] = F(6); p['k1'] = F(25, 4)
def c_slow(p, r): p['k'] = F(3, 32); p['k2'] = F(3, 32) + F(1, 1024)
def c_sig(p, r): p['k'] = F(2); p['rho'] = p['sigma'] / 4


def c_tie(p, r):
    t = list(p['jumptime'])
    if len(t) > 1:
        t[1] = t[0]
    p['jumptime'] = tuple(t)


def c_jedge(p, r):
    t = list(p['jumptime'])
    if t:
        t[-1] = p['h']
        if len(t) > 1:
            t[0] = F(0)
    p['jumptime'] = tuple(t)


def c_short(p, r):
    f = F(1, 16)
    p['h'] *= f
    p['s'] *= f
    p['jumptime'] = tuple(t * f for t in p['jumptime'])


def c_long(p, r):
    f = F(r.choice([4, 6]))
    p['h'] *= f
    p['s'] *= f
    p['jumptime'] = tuple(t * f for t in p['jumptime'])


def c_big(p, r):
    for a in r.sample(['theta', 'v0', 'mu_v', 'mu_j', 'sigma_j', 'mu_s', 'sigma_s', 'lambda', 'lmbd', 'lmbd_s', 'mu',
                       'theta1', 'theta2', 'v10', 'v20', 'sigma1', 'sigma2'], 5):
        p[a] *= 4
    p['jumpsize'] = tuple(3 * x for x in p['jumpsize'])


def c_unsort(p, r):
    """the list of jumps in another order: the formulas sum over all of it"""
    ix = list(range(len(p['jumptime'])))
    r.shuffle(ix)
    if ix == sorted(ix):
        ix.reverse()
    p['jumptime'] = tuple(p['jumptime'][i] for i in ix)
    p['jumpsize'] = tuple(p['jumpsize'][i] for i in ix)


def c_low(p, r): p['v0'] = p['theta'] * F(r.randint(1, 6), 8)
def c_high(p, r): p['v0'] = p['theta'] * F(r.randint(10, 20), 8)
def c_unit(p, r): p['k'] = F(1); c_scale_h(p, 1 / p['h'])
def c_twin(p, r): p['theta2'], p['sigma2'], p['v20'] = p['theta1'], p['sigma1'], p['v10']
def c_muv0(p, r): p['mu_v'] = F(0)
def c_v1zero(p, r): p['v10'] = F(0)
def c_v2zero(p, r): p['v20'] = F(0)
def c_smalljump(p, r): p['jumpsize'] = tuple(F(0) if i % 2 else x for i, x in enumerate(p['jumpsize']))


def c_scale_h(p, f):
    p['h'] *= f
    p['s'] *= f
    p['jumptime'] = tuple(t * f for t in p['jumptime'])


def c_sigma0(p, r): p['sigma'] = p['sigma1'] = F(0)
def c_theta0(p, r): p['theta'] = p['theta2'] = F(0)
def c_day(p, r): c_scale_h(p, 1 / p['h'] / 250)


def c_alltie(p, r):
    if p['jumptime']:
        p['jumptime'] = (p['jumptime'][0],) * len(p['jumptime'])


def c_small(p, r):
    """the size of daily financial data"""
    for a, f in (('theta', 64), ('v0', 64), ('sigma', 8), ('mu', 16), ('mu_j', 16), ('sigma_j', 16), ('mu_v', 32), ('mu_s', 16), ('sigma_s', 16),
                 ('theta1', 64), ('theta2', 128), ('v10', 64), ('v20', 128), ('sigma1', 8), ('sigma2', 16)):
        p[a] /= f
    p['jumpsize'] = tuple(x / 32 for x in p['jumpsize'])


def c_rate(p, r):
    p['lambda'] += 7
    p['lmbd'] += 5
    p['lmbd_s'] += 6


CORNERS = [c_rho0, c_rhom1, c_rho1, c_mu0, c_nojump, c_muj0, c_sigj0, c_v0eq, c_v00, c_feller,
           c_rhoJ0, c_fast, c_slow, c_sig, c_tie, c_jedge, c_short, c_long, c_big, c_unsort,
           c_low, c_high, c_unit, c_twin, c_muv0, c_v1zero, c_v2zero, c_smalljump,
           c_sigma0, c_theta0, c_day, c_alltie, c_small, c_rate]


RATIOS = ('1:1', '2:1', '1:2', '3:1', '1:3', '3:2', '2:3')


def par_of(p):
    """float parameter dictionary understood by every documented scalar function"""
    f = {a: (float(b) if not isinstance(b, (tuple, str)) else b) for a, b in p.items()}
    f['sigma_v'] = f['sigma']
    f['sigma_v1'], f['sigma_v2'] = f['sigma1'], f['sigma2']
    f['rhoJ'] = f['rho_J']
    f['jumptime'] = tuple(float(x) for x in p['jumptime'])
    f['jumpsize'] = tuple(float(x) for x in p['jumpsize'])
    f['lb'], f['ub'] = f['s'], f['h']
    return f


# ------------------------------------------------------------------ oracles
def central(rawf, n):
    return md.raw_to_central([rawf(i) for i in range(n + 1)])


def o_1f(p, jumps=False):
    return md.heston(p, [(p['lambda'], md.price_jump(p['mu_j'], p['sigma_j'] ** 2))] if jumps else ())


def o_2f(p, jumps=False):
    return md.twofactor(p, [(p['lambda'], md.price_jump3(p['mu_j'], p['sigma_j'] ** 2))] if jumps else ())


def o_svcj(p):
    return md.heston(p, [(p['lmbd'], md.var_price_jump(p['mu_v'], p['mu_s'], p['rho_J'], p['sigma_s'] ** 2))])


def unc(procf, yi):
    """unconditional raw moment of y over [0,h], stationary start"""
    def raw(p, n):
        pr = procf(p)
        return md.avg(pr, md.y_cond(pr, n, p['h'], yi), {})
    return raw


def y_at(f, yi, st):
    """E given starting variance: evaluate polynomial (y=0) at state"""
    return en.peval(f, st)


def cross(procf, yi):
    def raw(p, l1, l2):
        pr = procf(p)
        f = md.y_cond(pr, l2, p['h'], yi)
        g = {}
        for a, c in f.items():
            e = list(a)
            e[yi] = l1
            g[tuple(e)] = c
        g = pr.flow(g, p['h'])
        g = {a: c for a, c in g.items() if a[yi] == 0}
        return md.avg(pr, g, {})
    return raw


def events(p, kind):
    if kind == 'v':
        return [(t, md.known_jump(J)) for t, J in zip(p['jumptime'], p['jumpsize'])]
    return [(t, md.known_jump(J, p['mu_s'], p['rho_J'], p['sigma_s'] ** 2))
            for t, J in zip(p['jumptime'], p['jumpsize'])]


def cond_y(procf, kind=None):
    def raw(p, n):
        pr = procf(p)
        f = md.y_cond(pr, n, p['h'], 1, events(p, kind) if kind else ())
        return en.peval(f, (p['v0'], F(0)))
    return raw


def svij_proc(p):
    return md.heston(p, [(p['lmbd_s'], md.price_jump(p['mu_s'], p['sigma_s'] ** 2))])


def srjd_cond(p, n):
    pr = md.srjd(p, p['lmbd'], p['mu_v'])
    return en.peval(pr.flow({(n,): ONE}, p['h']), (p['v0'],))


def srjd_path(p, n):
    pr = md.srjd(p)
    ev = [(t, (lambda J: lambda e: F(J) ** e[0])(J)) for t, J in zip(p['jumptime'], p['jumpsize'])]
    return en.peval(pr.path({(n,): ONE}, p['h'], ev), (p['v0'],))


def srjd_unc(p, n):
    return md.srjd(p, p['lmbd'], p['mu_v']).stationary((n,), {})


def srjd_x(p, n):
    """x_t = e^{kt}(v_t-theta) - (v0-theta)"""
    E = [F2m(srjd_cond(p, j)) for j in range(n + 1)]
    ek = mp.exp(F2m(p['k'] * p['h']))
    a = ek
    b = -ek * F2m(p['theta']) - F2m(p['v0'] - p['theta'])
    return sum((comb(n, j) * a ** j * b ** (n - j) * E[j] for j in range(n + 1)), mp.mpf(0))


def m_central(rawf, n):
    raw = [F2m(rawf(i)) for i in range(n + 1)]
    if n == 0:
        return mp.mpf(1)
    mu = raw[1]
    return sum((comb(n, i) * (-mu) ** (n - i) * raw[i] for i in range(n + 1)), mp.mpf(0))


def ito_flow(pr, e, tau, v):
    f = pr.flow({tuple(e): ONE}, tau)
    st = [F(0)] * pr.n
    for i, x in v.items():
        st[i] = x
    return en.peval(f, st)


def ito_mom_or(p, n3, n4, n5):
    x = F2m(ito_flow(md.ito_block(p), (0, n3, n4, n5), p['h'], {0: p['v0']}))
    return x * mp.exp(n3 * F2m(p['k'] * (p['t0'] + p['h'])))


def ito_cond_or(p, n1, n2, n3):
    pr = md.ito_block(p)
    ev = [(t, (lambda J: lambda e: (F(J) ** e[0] if not any(e[1:]) else F(0)))(J))
          for t, J in zip(p['jumptime'], p['jumpsize'])]
    f = pr.path({(0, n1, n2, n3): ONE}, p['h'], ev)
    return F2m(en.peval(f, (p['v0'], F(0), F(0), F(0)))) * mp.exp(n1 * F2m(p['k'] * p['h']))


def itos_or(p, n4, n5, n6, n7, n8):
    pr = md.itos_block(p)
    x = F2m(ito_flow(pr, (0, 0, n4, n5, n6, n7, n8), p['h'], {0: p['v10'], 1: p['v20']}))
    return x * mp.exp(F2m((n4 * p['k1'] + n6 * p['k2']) * (p['t0'] + p['h'])))


def jint_or(p, n1, n2, n3, n4, n5, n6):
    """E[IE^n1 I^n2 I*^n3 IEZ^n4 IZ^n5 IZ*^n6 | v0] on (0,h]"""
    pr = md.jumpint_block(p, p['lmbd'], p['mu_v'], p['mu_s'], p['sigma_s'] ** 2)
    x = F2m(ito_flow(pr, (0, n1, n2, n3, n4, n5, n6), p['h'], {0: p['v0']}))
    return x * mp.exp((n1 + n4) * F2m(p['k'] * p['h']))


def ieziziz_or(p, n1, n2, n3):
    """E[IEZ^n1 IZ^n2 IZ*^n3] over (s,h]"""
    pr = md.jumpint_block(p, p['lmbd'], p['mu_v'], p['mu_s'], p['sigma_s'] ** 2)
    x = F2m(ito_flow(pr, (0, 0, 0, 0, n1, n2, n3), p['h'] - p['s'], {0: p['v0']}))
    return x * mp.exp(n1 * F2m(p['k'] * p['h']))


def iez_c(p, n):
    return m_central(lambda i: ieziziz_or(p, i, 0, 0), n)


def ie_iez_c(p, n1, n2):
    """E[IE^n1 (IEZ-E IEZ)^n2 | v0]"""
    mu = jint_or(p, 0, 0, 0, 1, 0, 0)
    return sum((comb(n2, j) * (-mu) ** (n2 - j) * jint_or(p, n1, 0, 0, j, 0, 0) for j in range(n2 + 1)),
               mp.mpf(0))


class Subject:
    def __init__(self, name, mod, fn, oracle, args, deep=None, scalar=None, jumps=(2,), call=None,
                 env=None, scall=None, tags=(), spoint=None):
        self.name, self.mod, self.fn, self.oracle = name, mod, fn, oracle
        self.args = list(args)                       # quick argument tuples
        self.deep = list(deep) if deep is not None else []
        self.scalar = scalar                         # name of the scalar function
        self.jumps = jumps                           # jump counts to use
        self._call, self._env, self._scall = call, env, scall
        self.tags = tags
        self.spoint = spoint                         # point the float function refers to, if restricted

    def poly(self, a, p):
        """call the real code"""
        f = getattr(I(self.mod), self.fn)
        if self._call:
            return self._call(I(self.mod), f, a, p)
        return f(*a)

    def env(self, p):
        e = env_one(p)
        if self._env:
            e.update(self._env(p))
        return e

    def expected(self, a, p):
        return F2m(self.oracle(p, *a))

    def scal(self, a, par):
        f = getattr(I(self.mod), self.scalar)
        if self._scall:
            return self._scall(f, a, par)
        return f(*a, par)


def R(n, lo=0):
    return [(i,) for i in range(lo, n + 1)]


def pairs(total, lo=1):
    return [(i, j) for i in range(lo, total) for j in range(lo, total) if i + j <= total]


def simplex(d, n, lo=0):
    if d == 1:
        return [(i,) for i in range(lo, n + 1)] if lo == 0 else [(n,)]
    out = []
    def rec(pre, left, dd):
        if dd == 0:
            out.append(tuple(pre))
            return
        for i in range(left + 1):
            rec(pre + [i], left - i, dd - 1)
    rec([], n, d)
    return out


U1, U1J = unc(o_1f, 1), unc(lambda p: o_1f(p, True), 1)
U2, U2J = unc(o_2f, 2), unc(lambda p: o_2f(p, True), 2)
X1, X1J = cross(o_1f, 1), cross(lambda p: o_1f(p, True), 1)
X2, X2J = cross(o_2f, 2), cross(lambda p: o_2f(p, True), 2)
USV = unc(o_svcj, 1)
CSV = cond_y(o_svcj)
C1 = cond_y(o_1f)
KVV, KIJ, KCJ = cond_y(o_1f, 'v'), cond_y(svij_proc, 'v'), cond_y(o_1f, 'vy')


def cen(raw):
    return lambda p, n: central(lambda i: raw(p, i), n)


def covf(x, u):
    return lambda p, a, b: x(p, a, b) - u(p, a) * u(p, b)


def simp(tp):
    def call(mod, f, a, p):
        return mod.simplify(f(*a)[-1], tp)
    return call


def last(mod, f, a, p):
    return f(*a)[-1]


def withJ(mod, f, a, p):
    return f(*a, par_of(p)['jumpsize'])


def lastJ(mod, f, a, p):
    return f(*a, par_of(p)['jumpsize'])[-1]


SUBJECTS = {}


def add(*a, **k):
    s = Subject(*a, **k)
    SUBJECTS[s.name] = s


for mdl, U, X in (('1fsv', U1, X1), ('1fsvj', U1J, X1J), ('2fsv', U2, X2), ('2fsvj', U2J, X2J)):
    one = mdl.startswith('1')
    q = 8 if one else 5
    dq = [(9,)] if one else [(6,)]
    tg = () if one else ('k1',)
    add(f'{mdl}.mom', f'mdl_{mdl}.mom', 'moment_y', U, R(q), dq, 'm', tags=tg)
    add(f'{mdl}.cmom', f'mdl_{mdl}.cmom', 'cmoment_y', cen(U), R(q), dq, 'cm', tags=tg)
    cq = pairs(6) + [(3, 4), (5, 2)] if one else pairs(4)
    cd = [(2, 5), (4, 3), (6, 1), (1, 6)] if one else [(1, 4), (2, 3), (3, 2), (4, 1)]
    add(f'{mdl}.moment_yy', f'mdl_{mdl}.cov', 'moment_yy', X, pairs(6) if one else cq, cd, tags=tg)
    add(f'{mdl}.cov', f'mdl_{mdl}.cov', 'cov_yy', covf(X, U), cq if one else cq + [(2, 3), (3, 2), (1, 4), (4, 1)], cd if one else [], 'cov', tags=tg)

add('1fsv.cond_cmom', 'mdl_1fsv.cond_cmom', 'cmoments_y_to', cen(C1), R(10, 1), R(12, 11), 'cond_cm', call=last)
for tp in (1, 2, 3):
    add(f'1fsv.cond_cmom.simplify{tp}', 'mdl_1fsv.cond_cmom', 'cmoments_y_to', cen(C1), R(10, 1), [(11,)],
        call=simp(tp))

# ---- square-root jump diffusion
add('srjd.cond_mom', 'mdl_srjd.cond_mom', 'moment_v', srjd_cond, R(9), R(11, 10), 'm')
add('srjd.cond_mom.x', 'mdl_srjd.cond_mom', 'moment_x', srjd_x, R(9), R(11, 10), 'm_x')
add('srjd.cond_cmom', 'mdl_srjd.cond_cmom', 'cmoment_v', cen(srjd_cond), R(9), R(11, 10), 'cm')
add('srjd.cond_cmom.x', 'mdl_srjd.cond_cmom', 'cmoment_x', lambda p, n: m_central(lambda i: srjd_x(p, i), n),
    R(9), R(11, 10), 'cm_x')
add('srjd.mom', 'mdl_srjd.mom', 'moment_v', srjd_unc, R(8), R(10, 9))
add('srjd.mom.unsimplified', 'mdl_srjd.mom', 'moment_v', srjd_unc, R(8), R(10, 9), call=lambda mod, f, a, p: f(*a, simplify=False))
add('srjd.cmom', 'mdl_srjd.cmom', 'cmoment_v', cen(srjd_unc), R(8), R(10, 9))
add('srjd.cond2_mom', 'mdl_srjd.cond2_mom', 'moment_v', srjd_path, R(10), R(12, 11), 'm', jumps=(2, 0, 1, 3, 5))
add('srjd.cond2_mom.IE', 'mdl_srjd.cond2_mom', 'moment_IE', lambda p, n: ito_cond_or(p, n, 0, 0),
    R(10), R(12, 11), jumps=(2, 0, 1, 3, 5))
add('srjd.cond2_cmom', 'mdl_srjd.cond2_cmom', 'cmoment_v', cen(srjd_path), R(10), R(12, 11), 'cm', jumps=(2, 0, 1, 3, 5))
add('srjd.iez_mom', 'mdl_srjd.iez_mom', 'moment_IEZ', lambda p, n: ieziziz_or(p, n, 0, 0), R(12), R(14, 13), 'm')
add('srjd.iez_cmom', 'mdl_srjd.iez_cmom', 'cmoment_IEZ', iez_c, R(11), R(14, 12), 'cm')
add('srjd.ie_mom', 'mdl_srjd.cond_ie_iez_mom', 'moment_ie', lambda p, n: jint_or(p, n, 0, 0, 0, 0, 0),
    R(8), R(10, 9), 'm_ie')
add('srjd.ie_iez_mom', 'mdl_srjd.cond_ie_iez_mom', 'moment_ie_iez',
    lambda p, a, b: jint_or(p, a, 0, 0, b, 0, 0), simplex(2, 8), [x for x in simplex(2, 10) if sum(x) > 8], 'm_ie_iez')
add('srjd.ie_cmom', 'mdl_srjd.cond_ie_iez_cmom', 'moment_ie', lambda p, n: jint_or(p, n, 0, 0, 0, 0, 0),
    R(8), R(10, 9), 'm_ie')
add('srjd.ie_iez_cmom', 'mdl_srjd.cond_ie_iez_cmom', 'cmoment_ie_iez', ie_iez_c, simplex(2, 8), [x for x in simplex(2, 10) if sum(x) > 8], 'cm_ie_iez')

# ---- SVCJ
add('svcj.cond_mom', 'mdl_svcj.cond_mom', 'moment_y', CSV, R(5), [(6,)], 'm_y')
add('svcj.cond_cmom', 'mdl_svcj.cond_cmom', 'cmoment_y', cen(CSV), R(5), [(6,)], 'cm_y')
add('svcj.mom', 'mdl_svcj.mom', 'moment_y', USV, R(5), [(6,)], 'unm_y')
add('svcj.mom.v_theta', 'mdl_svcj.mom', 'moment_v_theta',
    lambda p, n: sum((comb(n, i) * (-p['theta']) ** (n - i) * srjd_unc(p, i) for i in range(n + 1)), F(0)),
    R(8), R(10, 9))
add('svcj.cmom', 'mdl_svcj.cmom', 'cmoment_y', cen(USV), R(4), [(5,)], 'cm_y')
add('svcj.cmom.nomu', 'mdl_svcj.cmom', 'cmoment_y', cen(USV), R(4, 1), [],
    call=lambda mod, f, a, p: mod.remove_mu_column(f(*a)))
add('svcj.ieziziz', 'mdl_svcj.ieziziz_mom', 'moment_ieziziz', ieziziz_or, simplex(3, 7),
    [x for x in simplex(3, 9) if sum(x) > 7], 'm_ieziziz', scall=lambda f, a, par: f(a, par), spoint=lambda p: dict(p, s=F(0)))
add('svcj.ieii_ieziziz', 'mdl_svcj.cond_ieii_ieziziz_mom', 'moment_ieii_ieziziz', jint_or, simplex(6, 5),
    [x for x in simplex(6, 6) if sum(x) > 5], 'm_ieii_ieziziz', scall=lambda f, a, par: f(a, par))
add('svcj.cond2_mom', 'mdl_svcj.cond2_mom', 'moment_y', KCJ, R(6), [(7,)], 'm', jumps=(2, 0, 1, 3, 4, 6), call=withJ,
    scall=lambda f, a, par: f(*a, par))
add('svcj.cond2_cmom', 'mdl_svcj.cond2_cmom', 'cmoment_y', cen(KCJ), R(6, 1), [(7,)], 'cm', jumps=(2, 0, 1, 3, 4, 6), call=withJ,
    scall=lambda f, a, par: f(*a, par))
add('svij.cond2_mom', 'mdl_svij.cond2_mom', 'moment_y', KIJ, R(6), [(7,)], 'm', jumps=(2, 0, 1, 3, 5))
add('svij.cond2_cmom', 'mdl_svij.cond2_cmom', 'cmoment_y', cen(KIJ), R(7, 1), [(8,)], 'cm', jumps=(2, 0, 1, 3, 5))
add('svvj.cond2_mom', 'mdl_svvj.cond2_mom', 'moment_y', KVV, R(6), [(7,)], 'm', jumps=(2, 0, 1, 3, 5))
add('svvj.cond2_cmom', 'mdl_svvj.cond2_cmom', 'cmoment_y', cen(KVV), R(7, 1), [(8,)], 'cm', jumps=(2, 0, 1, 3, 5))
for tp in (0, 1):
    add(f'svvj.cond2_cmom.simplify{tp}', 'mdl_svvj.cond2_cmom', 'cmoment_y', cen(KVV), R(6, 1), [(7,)],
        jumps=(2, 0, 1, 3), call=(lambda tp: lambda mod, f, a, p: mod.simplify(f(*a), tp))(tp))

# ---- building blocks
add('ito.moment_IEII', 'ito_mom', 'moment_IEII', ito_mom_or, simplex(3, 8), [x for x in simplex(3, 10) if sum(x) > 8])
add('ito.moment_v', 'ito_mom', 'moment_v', lambda p, n: md.srjd(p).stationary((n,), {}), R(12), R(16, 13))
add('itocond.moment_IEII', 'ito_cond_mom', 'moment_IEII', ito_cond_or, simplex(3, 7),
    [x for x in simplex(3, 8) if sum(x) > 7], jumps=(2, 0, 1, 3, 5))
add('itos.moment_IEI_IEII', 'itos_mom', 'moment_IEI_IEII', itos_or, simplex(5, 5),
    [x for x in simplex(5, 6) if sum(x) > 5], tags=('k1', 'formula'))

# ---- compound Poisson / normal
def cpp_or(p, n):
    pr = en.Process(['z'], {}, {}, [(p['lambda'], lambda e: en.normal_mom(e[0], p['mu_j'], p['sigma_j'] ** 2))])
    return en.peval(pr.flow({(n,): ONE}, p['h']), (F(0),))


cpp_env = lambda p: {'mu': F2m(p['mu_j']), 'sigma': F2m(p['sigma_j']), 'sigma^2': F2m(p['sigma_j'] ** 2)}
add('cpp.mcpp', 'cpp_mom', 'mcpp', cpp_or, R(13), R(16, 14), env=cpp_env)
add('cpp.cmcpp', 'cpp_mom', 'cmcpp', cen(cpp_or), R(13), R(16, 14), env=cpp_env)
add('cpp.mnorm', 'cpp_mom', 'mnorm', lambda p, n: en.normal_mom(n, p['mu_j'], p['sigma_j'] ** 2), R(16), R(24, 17),
    env=cpp_env)
