"""State-integral blocks given a jump path, and the jump-sum function they are written in"""
import itertools

import exact
import mpmath as mp
from core import RealFailure
from evalpoly import F2m
from subjects import I, dy

RULE = exact.RULE + '; jump-sum cases are (exponent vectors, jump list) with 0-12 jumps, ties and unsorted lists'
MIN_EVALS, MIN_KEYS = 200, 80


def tasks(tier, rng):
    out = exact.build_tasks(['itocond.moment_IEII'], tier, npts=(8, 12))
    for lv in (0, 1, 2, 3, 4):
        out.append(dict(name=f'fz{lv}', lv=lv, n=40 if tier == 'quick' else 300, w=5))
    for ns in (0, 1, 2):
        out.append(dict(name=f'int_et_fZ{ns}', ns=ns, hi=5 if tier == 'quick' else 9, w=3))
    return out


def brute(l, o, p, q, k, s, J):
    """definition: sum over all index tuples, with the running maximum of the jump times"""
    tot, ab = mp.mpf(0), mp.mpf(0)
    for ix in itertools.product(range(len(J)), repeat=len(l)):
        t = mp.mpf(1)
        for d, i in enumerate(ix):
            t *= mp.exp(l[d] * k * s[i]) * s[i] ** o[d] * J[i]
            if d:
                m = max(s[j] for j in ix[:d + 1])
                t *= mp.exp(p[d - 1] * k * m) * m ** q[d - 1]
        tot += t
        ab += abs(t)
    return tot, ab


def int_exp(n, m, k, a, b):
    """int_a^b e^{nks} s^m ds by parts (closed recursion)"""
    if n == 0:
        return (b ** (m + 1) - a ** (m + 1)) / (m + 1)
    c = n * k
    F = lambda x: mp.exp(c * x) * x ** m / c
    r = F(b) - F(a)
    return r - m / c * int_exp(n, m - 1, k, a, b) if m else r


def run(ctx, task):
    if 'subject' in task:
        return exact.run(ctx, task)
    rng = ctx.rng
    try:
        if 'lv' in task:
            lv = task['lv']
            U, S = I('utils'), I('mdl_srjd.cond2_mom')
            for i in range(task['n']):
                nj = rng.randint(0, 5) if lv < 4 else rng.randint(0, 3)
                if i % 8 == 3:                  # a busy interval
                    nj = (0, 12, 11, 8, 5)[lv] - rng.randint(0, 2)
                if i % 10 == 0:
                    nj = 0
                k = dy(rng, .25, 2.5)
                s = [dy(rng, .0625, 1.5, 32) for _ in range(nj)]
                if nj > 1 and rng.random() < .3:
                    s[rng.randrange(nj)] = s[0]
                if rng.random() < .6:
                    s.sort()
                J = [dy(rng, .0625, 1, 32) for _ in range(nj)]
                l = tuple(rng.randint(-2, 3) for _ in range(lv))
                o = tuple(rng.randint(0, 3) for _ in range(lv))
                p = tuple(rng.randint(-3, 2) for _ in range(max(lv - 1, 0)))
                q = tuple(rng.randint(0, 2) for _ in range(max(lv - 1, 0)))
                sf, Jf, km = tuple(map(float, s)), tuple(map(float, J)), F2m(k)
                sm, Jm = [F2m(x) for x in s], [F2m(x) for x in J]
                for nm, fn, a, ref in (
                        ('fZ', U.fZ, (l, o, p, q, float(k), sf, Jf), brute(l, o, p, q, km, sm, Jm)),
                        ('srjd.fZ', S.fZ, (l, p, float(k), sf, Jf),
                         brute(l, (0,) * lv, p, (0,) * max(lv - 1, 0), km, sm, Jm))):
                    v = ctx.real(f'{nm}/{lv}', fn, *a)
                    ref, ab = ref
                    ctx.count('jump_sums')
                    ctx.judge(exact.num(v) and abs(mp.mpf(float(v)) - ref) <= 1e-11 * ab, f'{nm}/level{lv}',
                              lambda: f'{nm}{a} = {v!r}, definition gives {mp.nstr(ref, 15)}',
                              nontrivial=f'{nm}{lv}:{mp.nstr(ref, 10)}' if ref else None)
                if lv and nj:
                    ix = [rng.randrange(nj) for _ in range(lv)]
                    v = ctx.real('fZ_each', U.fZ_each_index, l, o, p, q, float(k), sf, Jf, ix)
                    t = mp.mpf(1)
                    for d, i in enumerate(ix):
                        t *= mp.exp(l[d] * km * sm[i]) * sm[i] ** o[d] * Jm[i]
                        if d:
                            mx = max(sm[j] for j in ix[:d + 1])
                            t *= mp.exp(p[d - 1] * km * mx) * mx ** q[d - 1]
                    ctx.judge(exact.num(v) and abs(mp.mpf(float(v)) - t) <= 1e-11 * abs(t), f'fZ_each/level{lv}',
                              lambda: f'{v!r} vs {mp.nstr(t, 15)}', nontrivial=f'each{lv}:{mp.nstr(t, 10)}')
        else:
            ns, mod = task['ns'], I('ito_cond_mom')
            for n in range(-task['hi'], task['hi'] + 1):
                for m in range(task['hi'] + 1):
                    P = ctx.real(f'int_et_fZ({n},{m},{ns})', mod.int_et_fZ, n, m, ns)
                    if not exact.shape(ctx, 'int_et_fZ', (n, m, ns), P):
                        continue
                    for _ in range(2):
                        k, t = F2m(dy(rng, .25, 2)), F2m(dy(rng, .5, 2))
                        low = F2m(dy(rng, .0625, .4, 32)) if ns else mp.mpf(0)
                        v = mp.mpf(0)
                        ab = mp.mpf(0)
                        for K, c in P.items():
                            x = F2m(c) * mp.exp(K[0] * k * t) * t ** K[1] / k ** K[2] * mp.exp(K[3] * k * low) * low ** K[4]
                            v, ab = v + x, ab + abs(x)
                        ref = int_exp(n, m, k, low, t)
                        ctx.judge(abs(v - ref) <= exact.REL * (ab + abs(ref)), f'int_et_fZ({n},{m},{ns})',
                                  lambda: f'{mp.nstr(v, 15)} vs integral {mp.nstr(ref, 15)}',
                                  nontrivial=f'iet{n},{m},{ns},{mp.nstr(ref, 8)}')
                        ctx.count('integrals')
            for m in (-1, -2, -5):
                ctx.must_raise(f'int_et_fZ/neg{ns}', ValueError, mod.int_et_fZ, 1, m, ns)
    except RealFailure:
        pass
