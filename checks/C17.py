"""Partial derivatives of moments, central moments and covariances w.r.t. every parameter"""
import copy
from fractions import Fraction as F

import exact
import mpmath as mp
from core import RealFailure
from evalpoly import DEN, F2m, UnknownKeyfor, evaluate
from subjects import I, SUBJECTS as SB, par_of, point

RULE = ('a case is (function, order, parameter, point): the derivative formula the code returns and its float '
        'function are compared with a 70-digit central difference (step 1e-22) of the undifferentiated '
        'formula; polynomials are the real moments plus random ones with every key component populated; '
        'non-trivial = the derivative is non-zero')
MIN_EVALS, MIN_KEYS = 800, 300
EPS = F(1, 10 ** 22)
ONE = ['k', 'mu', 'theta', 'sigma_v', 'rho']
TWO = ['k1', 'k2', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2']
J = ['lambda', 'mu_j', 'sigma_j']
WRT = {'1fsv': ONE, '1fsvj': ONE + J, '2fsv': TWO, '2fsvj': TWO + J}
PAR = {'sigma_v': 'sigma', 'sigma_v1': 'sigma1', 'sigma_v2': 'sigma2'}


def tasks(tier, rng):
    out = []
    q = tier == 'quick'
    for m in WRT:
        one = m.startswith('1')
        hi = (5 if one else 4) if q else (6 if one else 5)
        for n in range(hi + 1):
            for f in ('mom', 'cmom'):
                out.append(dict(name=f'{m}.{f}{n}', m=m, f=f, a=[n], npts=3 if q else 6, w=3 ** n * (1 if one else 3)))
        for a in [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 1), (1, 3), (3, 2), (2, 3)] if one or not q else []):
            out.append(dict(name=f'{m}.cov{a}', m=m, f='cov', a=list(a), npts=3 if q else 6, w=3 ** sum(a)))
        for i in range(4 if q else 12):
            out.append(dict(name=f'{m}.random{i}', m=m, f='random', a=[i], npts=1, w=5))
    return out


def diff(P, p, s, wrt):
    nm = PAR.get(wrt, wrt)
    lo, hi = dict(p), dict(p)
    lo[nm], hi[nm] = p[nm] - EPS, p[nm] + EPS
    a, s1 = evaluate(P, s.env(lo))
    b, s2 = evaluate(P, s.env(hi))
    return (b - a) / (2 * F2m(EPS)), s1 + s2


def interior(p):
    return abs(p['rho']) < 1 and all(p[x] > 0 for x in ('k', 'sigma', 'theta'))


def randpoly(rng, kf, Poly):
    P = Poly()
    P.set_keyfor(kf)
    for _ in range(rng.randint(1, 12)):
        key = []
        for s in kf:
            if s == DEN:
                r = rng.random()
                if r < .2:
                    key.append(((0, 0, 0),))
                else:
                    ds, seen = [], set()
                    for _ in range(rng.randint(1, 3)):
                        ab = (rng.randint(0, 4), rng.randint(0, 4))
                        if ab != (0, 0) and ab not in seen:
                            seen.add(ab)
                            ds.append(ab + (rng.randint(1, 4),))
                    key.append(tuple(ds) or ((0, 0, 0),))
            elif s.startswith('e^{-(n1'):
                key.append((rng.randint(0, 4), rng.randint(0, 4)))
            elif s == 'sqrt(1-rho^2)':
                key.append(2 * rng.randint(0, 3))
            else:
                key.append(rng.randint(0, 5) if rng.random() < .8 else 0)
        P.add_keyval(tuple(key), F(rng.randint(-50, 50) or 7, rng.randint(1, 20)))
    return P


def one(ctx, mod, P, p, s, wrt, key, sc=None):
    before = (dict(P.items()), tuple(P.keyfor))
    D = ctx.real(key, mod.dpoly, P, wrt)
    ctx.count('dpoly_calls')
    ctx.judge((dict(P.items()), tuple(P.keyfor)) == before, key + '/mutates', 'the input polynomial was modified')
    if not exact.shape(ctx, key, '', D):
        return
    try:
        v, ab = evaluate(D, s.env(p))
    except (UnknownKeyfor, ValueError, TypeError, IndexError) as e:
        ctx.judge(False, key + '/malformed', f'{type(e).__name__}: {e}')
        return
    ref, big = diff(P, p, s, wrt)
    if abs(ref) < mp.mpf(10) ** -35 * (1 + big):
        ref = mp.mpf(0)
    nt = f'{key}:{mp.nstr(ref, 10)}' if ref else None
    pt = {k: str(x) for k, x in p.items()}
    scale = abs(ref) + ab + big
    ctx.judge(abs(v - ref) <= mp.mpf(10) ** -26 * scale + mp.mpf(10) ** -40, key,
              lambda: f'formula {mp.nstr(v, 15)}, difference quotient {mp.nstr(ref, 15)}', nontrivial=nt, point=pt)
    par = exact.fpar(p, ctx.rng)
    x = ctx.real(key + '/poly2num', mod.poly2num, D, par)
    tol = exact.FREL * (abs(ref) + ab) + mp.mpf(10) ** -30
    ctx.judge(exact.num(x) and abs(mp.mpf(float(x)) - ref) <= tol, key + '/poly2num', lambda: f'{x!r} vs {mp.nstr(ref, 15)}', point=pt)
    if sc:
        x = ctx.real(key + '/scalar', sc, par, wrt)
        ctx.count('scalar_calls')
        ctx.judge(exact.num(x) and abs(mp.mpf(float(x)) - ref) <= tol, key + '/scalar', lambda: f'{x!r} vs {mp.nstr(ref, 15)}', point=pt)


def run(ctx, task):
    m, f, a = task['m'], task['f'], tuple(task['a'])
    rng = ctx.rng
    try:
        if f == 'random':
            from ajdmom.poly import Poly
            for ff in ('mom', 'cmom'):
                s = SB[f'{m}.{ff}']
                mod = I(f'mdl_{m}.{ff}')
                kf = s.poly((2,), {}).keyfor
                for i in range(4):
                    P = randpoly(rng, kf, Poly)
                    p = point(rng, 0, 'generic')
                    for wrt in WRT[m]:
                        one(ctx, mod, P, p, s, wrt, f'{m}.{ff}.random/d{wrt}')
            return
        s = SB[f'{m}.{f}']
        mod = I(f'mdl_{m}.{f}')
        P = ctx.real(f'{m}.{f}{a}', s.poly, a, {})
        sc = getattr(mod, {'mom': 'dm', 'cmom': 'dcm', 'cov': 'dcov'}[f])
        big = sum(a) >= (5 if m.startswith('1') else 4)
        for i in range(task['npts']):
            p = point(rng, 0, 'generic' if i != 1 else 'corner')
            if not interior(p):
                p = point(rng, 0, 'generic')
            if p['rho'] == 1 or p['rho'] == -1:
                continue
            for wrt in WRT[m]:
                one(ctx, mod, P, p, s, wrt, f'{m}.{f}{a}/d{wrt}',
                    (lambda par, w: sc(*a, par, w)) if i == 0 and not big else
                    (lambda par, w: sc(*a, par, w)) if i == 0 and wrt == rng.choice(WRT[m]) else None)
        for bad in ('kappa', 'xyz', ''):
            ctx.must_raise(f'{m}.{f}/wrt-unknown', ValueError, mod.dpoly, P, bad)
    except RealFailure:
        pass
    if m == '1fsv' and f == 'mom' and a == (3,):
        par = {'mu': 0.125, 'k': 0.1, 'theta': 0.25, 'sigma_v': 0.1, 'rho': -0.7, 'h': 1}
        for fn, arg, val in ((I('mdl_1fsv.mom').m, dict(l=3, par=par), -0.04489260315929133),
                             (I('mdl_1fsv.mom').dm, dict(l=3, par=par, wrt='k'), 0.20556366585696395),
                             (I('mdl_1fsv.cov').cov, dict(l1=2, l2=2, par=par), 0.0149529894520537),
                             (I('mdl_1fsv.cov').dcov, dict(l1=2, l2=2, par=par, wrt='k'), -0.15904979864793667)):
            x = ctx.real('documented', fn, **arg)
            ctx.judge(exact.num(x) and abs(x - val) < 1e-9, 'documented', f'documented value {val}, got {x!r}', nontrivial=f'doc{val}')
