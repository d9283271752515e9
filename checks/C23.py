"""Moments of normal variables and of compound Poisson sums with normal jumps"""
from fractions import Fraction as F
from math import comb

import engine as en
import exact
from core import RealFailure
from subjects import I, dy

RULE = exact.RULE + ('; coefficient cases compare every coefficient of the returned polynomial with the Bell-polynomial '
                     'expansion of the compound Poisson moment and the Gaussian moment formula')
MIN_EVALS, MIN_KEYS = 100, 60


def tasks(tier, rng):
    out = exact.build_tasks(['cpp.mcpp', 'cpp.cmcpp', 'cpp.mnorm'], tier, npts=(8, 16))
    hi = 10 if tier == 'quick' else 14
    out += [dict(name=f'coef{n}', n=n, w=1.6 ** n) for n in range(hi + 1)]
    out.append(dict(name='neg', neg=1, w=1))
    return out


def gauss(n):
    """coefficients of E[N(mu,s^2)^n]: {(mu power, sigma^2 power): c}"""
    d = {}
    for j in range(n // 2 + 1):
        c = 1
        for i in range(1, 2 * j, 2):
            c *= i
        d[(n - 2 * j, j)] = comb(n, 2 * j) * c
    return d


def cpp_coef(n):
    """E[Z^n] by the moment recursion M_n = L * sum C(n-1,i) g_{n-i} M_i, coefficient-wise in (L, mu, sigma^2)"""
    M = [{(0, 0, 0): 1}]
    for m in range(1, n + 1):
        d = {}
        for i in range(m):
            for (a, b, c), x in M[i].items():
                for (e, f), y in gauss(m - i).items():
                    k = (a + 1, b + e, c + f)
                    d[k] = d.get(k, 0) + comb(m - 1, i) * x * y
        M.append(d)
    return M


def ccpp_coef(n):
    M = cpp_coef(n)
    d = {}
    for i in range(n + 1):
        for (a, b, c), x in M[i].items():
            k = (a + n - i, b + n - i, c)
            d[k] = d.get(k, 0) + comb(n, i) * (-1) ** (n - i) * x
    return {k: v for k, v in d.items() if v}


def eq(ctx, P, ref, key, again=None):
    got = {tuple(k): v for k, v in P.items() if v != 0}
    if again is not None:       # the caller may do what it likes with a result
        for k in list(P):
            P[k] = 10 ** 6
        P[(50, 50, 50)[:len(next(iter(got), (0, 0)))]] = 1
        Q = ctx.real(key, again)
        G = {tuple(k): v for k, v in Q.items() if v != 0}
        ctx.judge(G == ref, key + '/again', lambda: f'a second call gives {G}, expected {ref}')
    ctx.judge(got == ref, key, lambda: f'got {got}, expected {ref}', nontrivial=key)


def run(ctx, task):
    if 'subject' in task:
        return exact.run(ctx, task)
    m = I('cpp_mom')
    try:
        if 'neg' in task:
            for n in (-1, -2, -7):
                for f in ('mnorm', 'mcpp', 'mcpp_original', 'cmcpp'):
                    ctx.must_raise(f'{f}/negative', ValueError, getattr(m, f), n)
            # derivative of the normal moment generating function: E[N^n] -> E[N^{n+1}]
            for n in range(12):
                P = m.mnorm(n)
                before = dict(P.items())
                D = ctx.real('dmgf', m.dmgf, P)
                eq(ctx, D, gauss(n + 1), f'dmgf({n})')
                ctx.judge(dict(P.items()) == before, 'dmgf/mutates', 'argument changed')
            return
        n = task['n']
        eq(ctx, ctx.real(f'mnorm({n})', m.mnorm, n), gauss(n), f'mnorm({n})/coef', lambda: m.mnorm(n))
        M = cpp_coef(n)[n]
        eq(ctx, ctx.real(f'mcpp_original({n})', m.mcpp_original, n), M, f'mcpp_original({n})/coef', lambda: m.mcpp_original(n))
        eq(ctx, ctx.real(f'mcpp({n})', m.mcpp, n), {(a, b, 2 * c): v for (a, b, c), v in M.items()}, f'mcpp({n})/coef', lambda: m.mcpp(n))
        eq(ctx, ctx.real(f'cmcpp({n})', m.cmcpp, n), {(a, b, 2 * c): v for (a, b, c), v in ccpp_coef(n).items()}, f'cmcpp({n})/coef', lambda: m.cmcpp(n))
    except RealFailure:
        pass
