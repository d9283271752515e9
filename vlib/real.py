"""70-digit values of the formulas the real code derives, cached per process"""
from math import comb

import exact
import mpmath as mp
from evalpoly import F2m, evaluate
from subjects import SUBJECTS as SB, I, par_of

_C = {}
TOL = mp.mpf(10) ** -38


def poly(ctx, name, a, p):
    s = SB[name]
    a = tuple(a)
    k = (name, a, p['jumpsize'] if name.startswith('svcj.cond2') else None)
    if k not in _C:
        _C[k] = ctx.real(f'{name}{a}', s.poly, a, p)
        ctx.count('polys_derived')
    return _C[k]


def value(ctx, name, a, p):
    v, ab = evaluate(poly(ctx, name, a, p), SB[name].env(p))
    ctx.count('formula_values')
    s = SB[name]
    if s.scalar and not s.spoint and name not in exact.P2N_OTHER and not exact.broken(p):
        m = I(s.mod)
        par = par_of(p)
        tol = exact.FREL * (ab + abs(v)) + mp.mpf(10) ** -30
        if hasattr(m, 'poly2num'):
            x = ctx.real(f'{name}{tuple(a)}/poly2num', m.poly2num, poly(ctx, name, a, p), par)
            ctx.count('float_values')
            ctx.judge(exact.num(x) and abs(mp.mpf(float(x)) - v) <= tol, f'{name}{tuple(a)}/poly2num',
                      lambda: f'{name}{tuple(a)} poly2num gives {x!r}, the formula {mp.nstr(v, 15)}', point=pt(p))
        if sum(a) <= (1 if name[:4] in ('2fsv', 'svcj') else 2):
            y = scal(ctx, name, a, p)
            ctx.judge(exact.num(y) and abs(mp.mpf(float(y)) - v) <= tol, f'{name}{tuple(a)}/{s.scalar}',
                      lambda: f'{s.scalar}{tuple(a)} gives {y!r}, the formula {mp.nstr(v, 15)}', point=pt(p))
    return v


def scal(ctx, name, a, p):
    """the documented float function"""
    x = ctx.real(f'{name}{tuple(a)}/{SB[name].scalar}', SB[name].scal, tuple(a), par_of(p))
    ctx.count('float_values')
    return x


def raw(ctx, name, n, p):
    return [value(ctx, name, (i,), p) for i in range(n + 1)]


def to_raw(c, mu):
    """central list (c[0]=1, c[1]=0) and mean -> raw list"""
    return [sum((comb(n, i) * mu ** (n - i) * c[i] for i in range(n + 1)), mp.mpf(0)) for n in range(len(c))]


def to_central(r):
    mu = r[1]
    return [sum((comb(n, i) * (-mu) ** (n - i) * r[i] for i in range(n + 1)), mp.mpf(0)) for n in range(len(r))]


def cumulants(m):
    k = [mp.mpf(0)] * len(m)
    for n in range(1, len(m)):
        k[n] = m[n] - sum((comb(n - 1, j - 1) * k[j] * m[n - j] for j in range(1, n)), mp.mpf(0))
    return k


def vpoly(f, n):
    """coefficients of the degree <= n polynomial f in the starting variance"""
    from fractions import Fraction as F
    xs = [F(j + 1, 4) for j in range(n + 1)]
    A = mp.matrix(n + 1, n + 1)
    b = mp.matrix(n + 1, 1)
    for i, x in enumerate(xs):
        for j in range(n + 1):
            A[i, j] = F2m(x) ** j
        b[i] = f(x)
    c = mp.lu_solve(A, b)
    return [c[i] for i in range(n + 1)]


def same(ctx, key, x, y, nt, msg, tol=TOL, **d):
    ok = abs(x - y) <= tol * (1 + abs(x) + abs(y))
    ctx.count('identities')
    return ctx.judge(ok, key, lambda: f'{msg}: {mp.nstr(x, 18)} vs {mp.nstr(y, 18)}', nontrivial=nt, **d)


def pt(p):
    return {k: str(x) for k, x in p.items()}
