"""Combinatorial, normal-moment and integral helpers the derivations rest on"""
import itertools
import math
from fractions import Fraction as F

import exact
import mpmath as mp
from core import RealFailure
from evalpoly import F2m
from subjects import I, dy

RULE = ('a case is (helper, argument): exhaustive over small arguments against brute-force enumeration, exact '
        'integrals at random points for the integration helpers; non-trivial = arguments with at least two '
        'parts / a non-constant integrand')
MIN_EVALS, MIN_KEYS = 400, 200


def tasks(tier, rng):
    q = tier == 'quick'
    n = 6 if q else 8
    out = [dict(name=x, f=x, n=n, w=2) for x in ('comb', 'mlindex', 'mlcomb', 'normal', 'srho', 'int_et', 'int_et2', 'kv')]
    return out


def intexp(c, m, t):
    """int_0^t e^{cs} s^m ds"""
    if c == 0:
        return t ** (m + 1) / (m + 1)
    r = mp.mpf(0)
    # by parts, exact in 70 digits; series where cancellation would hurt
    if abs(c * t) < 1:
        s, term, j = mp.mpf(0), mp.mpf(1), 0
        while abs(term) > mp.mpf(10) ** -80 or j < 5:
            s += term * t ** (m + 1) / (m + 1 + j)
            j += 1
            term *= c * t / j
        return s
    r = (mp.exp(c * t) - 1) / c
    for i in range(1, m + 1):
        r = mp.exp(c * t) * t ** i / c - i / c * r
    return r


def run(ctx, task):
    f, N, rng = task['f'], task['n'], ctx.rng
    U = I('utils')
    try:
        if f == 'comb':
            for parts in range(1, 6):
                for n in range(0, N + 4):
                    for ns in itertools.islice(comps(n, parts), 400):
                        ref = math.factorial(n)
                        for x in ns:
                            ref //= math.factorial(x)
                        arg = list(ns)
                        v = ctx.real('comb', U.comb, n, arg)
                        ctx.judge(v == ref and arg == list(ns), 'comb', lambda: f'comb({n},{ns}) = {v}, multinomial is {ref}',
                                  nontrivial=f'comb{ns}' if parts > 1 and n > 1 else None)
            for _ in range(200):                # large arguments, exactly
                ns = [rng.randint(0, rng.choice([3, 30, 120])) for _ in range(rng.randint(1, 7))]
                n = sum(ns)
                ref = math.factorial(n)
                for x in ns:
                    ref //= math.factorial(x)
                v = ctx.real('comb', U.comb, n, list(ns))
                ctx.judge(v == ref, 'comb', lambda: f'comb({n},{ns}) = {v}, multinomial is {ref}', nontrivial=f'comb{ns}' if len(ns) > 1 else None)
        elif f == 'mlindex':
            for lv in range(1, 5):
                for m in range(1, 6 if lv < 4 else 4):
                    v = ctx.real('multilevel_index', U.multilevel_index, lv, m)
                    ref = [list(x) for x in itertools.product(range(m), repeat=lv)]
                    ctx.judge(sorted(map(list, v)) == ref, 'multilevel_index', lambda: f'({lv},{m}) gives {len(v)} of {len(ref)} indexes',
                              nontrivial=f'mli{lv},{m}')
        elif f == 'mlcomb':
            for n in range(2, 6):
                for m in range(0, N + 1):
                    v = ctx.real('multilevel_comb', U.multilevel_comb, n, m)
                    ref = sorted(list(c) for c in comps(m, n))
                    ctx.judge(sorted(map(list, v)) == ref, 'multilevel_comb', lambda: f'({n},{m}) gives {len(v)} of {len(ref)} splits: {v[:6]}',
                              nontrivial=f'mlc{n},{m}')
        elif f == 'normal':
            for n in list(range(0, 30)) + sorted(rng.sample(range(30, 200), 12)):
                ref = 1
                x = n
                while x > 1:
                    ref *= x
                    x -= 2
                v = ctx.real('dbfactorial', U.dbfactorial, n)
                ctx.judge(v == ref, 'dbfactorial', f'{n}!! = {v}, expected {ref}', nontrivial=f'dbf{n}')
                P = ctx.real('cmnorm', U.cmnorm, n)
                s = F(rng.randint(1, 9), rng.randint(1, 9))
                val = sum(c * s ** k[0] for k, c in P.items())
                ref = 0 if n % 2 else math.factorial(n) // (2 ** (n // 2) * math.factorial(n // 2)) * s ** n
                ctx.judge(val == ref and tuple(P.keyfor) == ('sigma',), 'cmnorm', f'cmnorm({n}) at {s}: {val}, expected {ref}', nontrivial=f'cmn{n}')
        elif f == 'srho':
            from ajdmom.poly import Poly
            for it in range(300):
                w = rng.randint(2, 6)
                n = rng.randint(1, w - 1)
                P = Poly()
                P.set_keyfor([f'x{i}' for i in range(w)])
                for _ in range(rng.randint(1, 6)):
                    k = [rng.randint(0, 3) for _ in range(w)]
                    k[n] = 2 * rng.randint(0, 4)
                    P.add_keyval(tuple(k), F(rng.randint(-9, 9) or 2, rng.randint(1, 5)))
                before = dict(P.items())
                Q = ctx.real('simplify_rho', U.simplify_rho, P, n)
                xs = [F(rng.randint(1, 7), rng.randint(8, 12)) for _ in range(w)]
                r2 = 1 - xs[n - 1] ** 2

                def ev(S, drop):
                    t = F(0)
                    for k, c in S.items():
                        v = F(c)
                        for i, e in enumerate(k):
                            j = i if not drop or i < n else i + 1
                            v *= (r2 ** (e // 2)) if (not drop and i == n) else xs[j] ** e
                        t += v
                    return t
                ctx.judge(ev(P, False) == ev(Q, True) and tuple(Q.keyfor) == tuple(P.keyfor[:n] + P.keyfor[n + 1:])
                          and dict(P.items()) == before and all(v != 0 for v in Q.values()), 'simplify_rho',
                          lambda: f'{before} -> {dict(Q)}', nontrivial=f'sr{it}' if len(P) > 1 else None)
            P = Poly({(1, 3): F(1)})
            P.set_keyfor(['rho', 'sqrt(1-rho^2)'])
            ctx.must_raise('simplify_rho/odd', Exception, U.simplify_rho, P, 1)
        elif f == 'int_et':
            M = I('ito_mom')
            big = [(rng.randint(-40, 40), rng.randint(0, 8)) for _ in range(8)] + [(rng.randint(-9, 9), rng.randint(9, 30)) for _ in range(8)] + [(0, 19)]
            for n, m in [(n, m) for n in range(-N, N + 1) for m in range(0, N + 1)] + big:
                P = ctx.real('int_et', M.int_et, n, m)
                if not exact.shape(ctx, 'int_et', (n, m), P):
                    continue
                for _ in range(2):
                    k, t = F2m(dy(rng, .25, 2)), F2m(dy(rng, .5, 2))
                    v = ab = mp.mpf(0)
                    for K, c in P.items():
                        x = F2m(c) * mp.exp(K[0] * k * t) * t ** K[1] / k ** K[2]
                        v, ab = v + x, ab + abs(x)
                    ref = intexp(n * k, m, t)
                    ctx.judge(abs(v - ref) <= exact.REL * (ab + abs(ref)), f'int_et({n},{m})', lambda: f'{mp.nstr(v, 15)} vs integral {mp.nstr(ref, 15)}',
                              nontrivial=f'iet{n},{m},{mp.nstr(ref, 6)}')
                for i in range(0, m + 1):
                    if n:
                        c = ctx.real('c_nmi', M.c_nmi, n, m, i)
                        ref = F((-1) ** i * math.factorial(m) // math.factorial(m - i), n ** (i + 1))
                        ctx.judge(c == ref, 'c_nmi', f'c({n},{m},{i}) = {c}, expected {ref}', nontrivial=f'c{n},{m},{i}')
            for m in (-1, -4):
                ctx.must_raise('int_et/neg', ValueError, M.int_et, 1, m)
                ctx.must_raise('int_et/neg', ValueError, I('itos_mom').int_et, 1, 1, m)
        elif f == 'int_et2':
            M = I('itos_mom')
            for n1 in range(-3, N):
                for n2 in range(-3, N):
                    for m in range(0, 5):
                        P = ctx.real('itos.int_et', M.int_et, n1, n2, m)
                        k1, k2, t = F2m(dy(rng, .25, 2, 64)), F2m(dy(rng, .25, 2, 64) + F(1, 997)), F2m(dy(rng, .5, 2))
                        if (n1 or n2) and abs(n1 * k1 + n2 * k2) < 1e-6:
                            continue
                        v = ab = mp.mpf(0)
                        for K, c in P.items():
                            x = F2m(c) * mp.exp((K[1][0] * k1 + K[1][1] * k2) * t) * t ** K[2]
                            if K[0][2]:
                                x /= (K[0][0] * k1 + K[0][1] * k2) ** K[0][2]
                            v, ab = v + x, ab + abs(x)
                        ref = intexp(n1 * k1 + n2 * k2, m, t)
                        ctx.judge(abs(v - ref) <= exact.REL * (ab + abs(ref)), f'itos.int_et({n1},{n2},{m})',
                                  lambda: f'{mp.nstr(v, 15)} vs integral {mp.nstr(ref, 15)}', nontrivial=f'iet2{n1},{n2},{m}')
            # product of a reciprocal power with a list of reciprocal powers keeps its value
            for it in range(400):
                t0, seen = [], set()
                for _ in range(rng.randint(1, 3)):
                    ab = (rng.randint(0, 3), rng.randint(0, 3))
                    if ab != (0, 0) and ab not in seen:
                        seen.add(ab)
                        t0.append(ab + (rng.randint(1, 3),))
                t0 = tuple(t0) or ((0, 0, 0),)
                t = rng.choice([(rng.randint(0, 3), rng.randint(1, 3), rng.randint(0, 4)), (0, 0, 0)])
                R = ctx.real('t_mul_t0', M.t_mul_t0, t, t0)
                k1, k2 = F(rng.randint(1, 50), 7), F(rng.randint(1, 50), 11)
                val = lambda T: math.prod((F(a * k1 + b * k2) ** -i if i else F(1)) for a, b, i in T)
                ctx.judge(isinstance(R, tuple) and val(R) == val(t0) * val((t,)), 't_mul_t0', f'{t} * {t0} -> {R}', nontrivial=f'tm{t}{t0}')
        elif f == 'kv':
            kv = I('poly').kv
            for L in range(0, 6):
                key = tuple(range(10, 10 + L))
                for i in range(-1, 8):
                    ref = key[i] if 0 <= i < L else 0
                    v = ctx.real('kv', kv, i, key)
                    ctx.judge(v == ref, 'kv', f'kv({i},{key}) = {v}', nontrivial=f'kv{L},{i}')
    except RealFailure:
        pass


def comps(n, parts):
    if parts == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in comps(n - i, parts - 1):
            yield (i,) + r
