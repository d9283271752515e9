"""Time consistency: what the formulas say about one interval agrees with what they say about its parts"""
from fractions import Fraction as F
from math import comb

import mpmath as mp
import real as rl
from core import RealFailure
from subjects import point, simplex

RULE = ('a case is (identity, order, parameter point); both sides are values of formulas derived by the code itself '
        '(70 digits), related by the Markov property, stationarity, independence of increments or aggregation of '
        'consecutive returns; distinct = identity x order x value')
MIN_EVALS, MIN_KEYS = 400, 200


def tasks(tier, rng):
    q = tier == 'quick'
    out = []
    n = 4 if q else 10

    def t(kind, m, order, w=1, pts=n):
        out.append(dict(name=f'{kind}:{m}{order}', kind=kind, m=m, order=order, pts=pts, w=w))
    t('markov', 'srjd', 7 if q else 8)
    t('stationary', 'srjd', 8 if q else 9)
    t('split', 'srjd', 5 if q else 7, 3)
    t('tower', '1fsv', 7 if q else 8, 5)
    t('tower', 'svcj', 4, 8)
    t('towerc', 'svcj', 4, 8)
    for m in ('1fsv', '1fsvj', '2fsv', '2fsvj'):
        for o in range(2, (7 if m == '1fsv' else 6 if m[0] == '1' else 5) + (0 if q or m == '1fsv' else 1)):
            t('aggregate', m, o, 3 ** o * (2 if m[0] == '2' else 1) / 30, 2 if o == 6 else n)
    t('increments', 'iez', 8 if q else 9)
    t('increments', 'ieziziz', 4 if q else 6, 5)
    t('increments', 'cpp', 8 if q else 11)
    return out


def run(ctx, task):
    for _ in range(task['pts']):
        p = point(ctx.rng, 3, 'generic' if ctx.rng.random() < .7 else 'corner')
        try:
            globals()[task['kind']](ctx, task['m'], task['order'], p)
        except RealFailure:
            return


def cond(ctx, name, n, p):
    """raw moment n as polynomial in the starting variance"""
    return rl.vpoly(lambda v: rl.value(ctx, name, (n,), dict(p, v0=v)), n)


def markov(ctx, m, N, p):
    h1 = p['h'] * F(ctx.rng.randint(1, 15), 16)
    for n in range(N + 1):
        c = cond(ctx, 'srjd.cond_mom', n, dict(p, h=p['h'] - h1))
        lhs = rl.value(ctx, 'srjd.cond_mom', (n,), p)
        rhs = sum(c[j] * rl.value(ctx, 'srjd.cond_mom', (j,), dict(p, h=h1)) for j in range(n + 1))
        rl.same(ctx, f'markov/{n}', lhs, rhs, f'markov{n}:{mp.nstr(lhs, 8)}', f'E[v_h^{n}|v_0] over h and over h1 then h-h1', point=rl.pt(p))


def stationary(ctx, m, N, p):
    S = [rl.value(ctx, 'srjd.mom', (j,), p) for j in range(N + 1)]
    for n in range(N + 1):
        if n <= 7:
            c = cond(ctx, 'srjd.cond_mom', n, p)
            rl.same(ctx, f'stationary/{n}', S[n], sum(a * b for a, b in zip(c, S)), f'stat{n}:{mp.nstr(S[n], 8)}', f'stationary moment {n} is not preserved by the conditional law', point=rl.pt(p))
        sc = rl.to_central(S[:n + 1])[n] if n else mp.mpf(1)
        rl.same(ctx, f'stationary/c{n}', rl.value(ctx, 'srjd.cmom', (n,), p), sc, f'statc{n}:{mp.nstr(sc, 8)}', f'stationary central moment {n} vs raw moments', point=rl.pt(p))


def split(ctx, m, N, p):
    """jumps before t, jumps after t"""
    ts, J = p['jumptime'], p['jumpsize']
    t = p['h'] * F(ctx.rng.randint(1, 63), 64)
    a = [i for i in range(len(ts)) if ts[i] <= t]
    b = [i for i in range(len(ts)) if ts[i] > t]
    p1 = dict(p, h=t, jumptime=tuple(ts[i] for i in a), jumpsize=tuple(J[i] for i in a))
    p2 = dict(p, h=p['h'] - t, jumptime=tuple(ts[i] - t for i in b), jumpsize=tuple(J[i] for i in b))
    for n in range(N + 1):
        c = cond(ctx, 'srjd.cond2_mom', n, p2)
        lhs = rl.value(ctx, 'srjd.cond2_mom', (n,), p)
        rhs = sum(c[j] * rl.value(ctx, 'srjd.cond2_mom', (j,), p1) for j in range(n + 1))
        rl.same(ctx, f'split/{n}', lhs, rhs, f'split{n},{len(a)}+{len(b)}:{mp.nstr(lhs, 8)}', f'E[v_h^{n}|v_0, jumps] with {len(a)}+{len(b)} jumps', point=rl.pt(p))


def tower(ctx, m, N, p):
    vm, raw = ('ito.moment_v', '1fsv.mom') if m == '1fsv' else ('srjd.mom', 'svcj.mom')

    def craw(n, q):
        if m == 'svcj':
            return rl.value(ctx, 'svcj.cond_mom', (n,), q)
        mu = mean1(q)
        c = [mp.mpf(1), mp.mpf(0)] + [rl.value(ctx, '1fsv.cond_cmom', (i,), q) for i in range(2, n + 1)]
        return rl.to_raw(c[:n + 1], mu)[n]
    S = [rl.value(ctx, vm, (j,), p) for j in range(N + 1)]
    for n in range(1, N + 1):
        c = rl.vpoly(lambda v: craw(n, dict(p, v0=v)), n)
        lhs = rl.value(ctx, raw, (n,), p)
        rl.same(ctx, f'tower/{m}/{n}', lhs, sum(a * b for a, b in zip(c, S)), f'{m}{n}:{mp.nstr(lhs, 8)}', f'{m}: unconditional moment {n} vs averaged conditional moment', point=rl.pt(p))


def mean1(q):
    g = {k: rl.F2m(q[k]) for k in ('k', 'h', 'theta', 'mu', 'v0')}
    return (g['mu'] - g['theta'] / 2) * g['h'] - (g['v0'] - g['theta']) * (1 - mp.exp(-g['k'] * g['h'])) / (2 * g['k'])


def towerc(ctx, m, N, p):
    S = [rl.value(ctx, 'srjd.mom', (j,), p) for j in range(N + 1)]

    def craw(n, q):
        c = [mp.mpf(1), mp.mpf(0)] + [rl.value(ctx, 'svcj.cond_cmom', (i,), q) for i in range(2, n + 1)]
        return rl.to_raw(c[:n + 1], rl.value(ctx, 'svcj.cond_mom', (1,), q))[n]
    R = [mp.mpf(1)]
    for n in range(1, N + 1):
        c = rl.vpoly(lambda v: craw(n, dict(p, v0=v)), n)
        R.append(sum(a * b for a, b in zip(c, S)))
        lhs = rl.value(ctx, 'svcj.cmom', (n,), p)
        rl.same(ctx, f'towerc/svcj/{n}', lhs, rl.to_central(R)[n], f'svcjc{n}:{mp.nstr(lhs, 8)}', f'svcj: unconditional central moment {n} vs conditional central moments', point=rl.pt(p))


def aggregate(ctx, m, n, p):
    """return over 2h = two consecutive returns over h"""
    lhs = rl.value(ctx, f'{m}.mom', (n,), dict(p, h=2 * p['h']))
    M = {i: rl.value(ctx, f'{m}.mom', (i,), p) for i in range(n + 1)}
    rhs = 2 * M[n] + sum(comb(n, i) * rl.value(ctx, f'{m}.moment_yy', (i, n - i), p) for i in range(1, n))
    rl.same(ctx, f'aggregate/{m}/{n}', lhs, rhs, f'{m}{n}:{mp.nstr(lhs, 8)}', f'{m}: E[y_2h^{n}] vs E[(y_n+y_n+1)^{n}]', point=rl.pt(p))
    rhs = 2 * M[n] + sum(comb(n, i) * (rl.value(ctx, f'{m}.cov', (i, n - i), p) + M[i] * M[n - i]) for i in range(1, n))
    rl.same(ctx, f'aggregate/{m}/cov{n}', lhs, rhs, f'{m}cov{n}:{mp.nstr(lhs, 8)}', f'{m}: E[y_2h^{n}] vs moments and covariances', point=rl.pt(p))


def increments(ctx, m, N, p):
    if m == 'cpp':
        k1 = rl.cumulants(rl.raw(ctx, 'cpp.mcpp', N, p))
        h2 = p['h'] * F(ctx.rng.randint(1, 40), 16)
        k2 = rl.cumulants(rl.raw(ctx, 'cpp.mcpp', N, dict(p, h=h2)))
        k3 = rl.cumulants(rl.raw(ctx, 'cpp.mcpp', N, dict(p, h=h2 + p['h'])))
        for n in range(1, N + 1):
            rl.same(ctx, f'increments/cpp/{n}', k3[n], k1[n] + k2[n], f'cpp{n}:{mp.nstr(k3[n], 8)}', f'cumulant {n} of the compound Poisson sum is not additive in time', point=rl.pt(p))
            z = rl.value(ctx, 'cpp.mnorm', (n,), p) * rl.F2m(p['lambda'] * p['h'])
            rl.same(ctx, f'increments/cppk/{n}', k1[n], z, f'cppk{n}:{mp.nstr(z, 8)}', f'cumulant {n} is not rate x h x jump moment', point=rl.pt(p))
            if n >= 2:
                c = rl.to_central(rl.raw(ctx, 'cpp.mcpp', n, p))[n]
                rl.same(ctx, f'increments/cppc/{n}', rl.value(ctx, 'cpp.cmcpp', (n,), p), c, f'cppc{n}:{mp.nstr(c, 8)}', f'central moment {n} vs raw', point=rl.pt(p))
        return
    s, t = p['s'], p['h']
    u = s + (t - s) * F(ctx.rng.randint(1, 15), 16)
    if m == 'iez':
        K = [rl.cumulants(rl.raw(ctx, 'srjd.iez_mom', N, dict(p, s=a, h=b))) for a, b in ((s, u), (u, t), (s, t))]
        for n in range(1, N + 1):
            rl.same(ctx, f'increments/iez/{n}', K[2][n], K[0][n] + K[1][n], f'iez{n}:{mp.nstr(K[2][n], 8)}', f'cumulant {n} of IEZ is not additive over (s,u],(u,t]', point=rl.pt(p))
        return
    name = 'svcj.ieziziz'
    for a in simplex(3, N):
        lhs = rl.value(ctx, name, a, p)
        rhs = mp.mpf(0)
        for i in range(a[0] + 1):
            for j in range(a[1] + 1):
                for k in range(a[2] + 1):
                    w = comb(a[0], i) * comb(a[1], j) * comb(a[2], k)
                    rhs += w * rl.value(ctx, name, (i, j, k), dict(p, h=u)) * rl.value(ctx, name, (a[0] - i, a[1] - j, a[2] - k), dict(p, s=u))
        rl.same(ctx, f'increments/ieziziz/{a}', lhs, rhs, f'ieziziz{a}:{mp.nstr(lhs, 8)}' if lhs else None, f'joint moment {a} is not that of independent increments', point=rl.pt(p))
