"""Every family of moments the library returns is the moment family of some real distribution"""
from fractions import Fraction as F
from math import comb

import mpmath as mp
import numpy as np
import real as rl
from core import RealFailure
from subjects import SUBJECTS as SB, point

RULE = ('a case is (moment family, parameter point): Hankel matrices of the values of the formulas (70 digits) and of the float '
        'functions must be positive semi-definite, variances non-negative, kurtosis >= 1 + skewness^2, supports respected '
        '(shifted Hankel matrices for variances and positive jump sums), joint moment matrices of consecutive returns positive '
        'semi-definite, |cov| within Cauchy-Schwarz, total variance >= averaged conditional variance; distinct = family x point')
MIN_EVALS, MIN_KEYS = 500, 200

# family -> (subject, highest order, central?, support >= 0?)
FAM = {
    '1fsv.mom': (6, 0, 0), '1fsvj.mom': (6, 0, 0), '2fsv.mom': (4, 0, 0), '2fsvj.mom': (4, 0, 0), 'svcj.mom': (4, 0, 0),
    '1fsv.cmom': (6, 1, 0), '1fsvj.cmom': (6, 1, 0), '2fsv.cmom': (4, 1, 0), '2fsvj.cmom': (4, 1, 0), 'svcj.cmom': (4, 1, 0),
    '1fsv.cond_cmom': (8, 1, 0), 'svcj.cond_mom': (4, 0, 0), 'svcj.cond_cmom': (4, 1, 0),
    'svvj.cond2_mom': (4, 0, 0), 'svij.cond2_mom': (4, 0, 0), 'svcj.cond2_mom': (4, 0, 0),
    'svvj.cond2_cmom': (6, 1, 0), 'svij.cond2_cmom': (6, 1, 0), 'svcj.cond2_cmom': (4, 1, 0),
    'srjd.cond_mom': (7, 0, 1), 'srjd.mom': (7, 0, 1), 'srjd.cond2_mom': (7, 0, 1), 'srjd.iez_mom': (7, 0, 1),
    'srjd.cond_cmom': (6, 1, 0), 'srjd.cmom': (6, 1, 0), 'srjd.cond2_cmom': (6, 1, 0), 'srjd.iez_cmom': (6, 1, 0),
    'srjd.ie_mom': (6, 0, 0), 'ito.moment_v': (8, 0, 1), 'cpp.mcpp': (8, 0, 0), 'cpp.cmcpp': (8, 1, 0), 'cpp.mnorm': (10, 0, 0),
    'srjd.cond_mom.x': (6, 0, 0),
}


def tasks(tier, rng):
    q = tier == 'quick'
    out = [dict(name=f'family:{s}', kind='family', s=s, pts=(4 if s.startswith('svcj') and 'cond2' not in s else 10) * (1 if q else 3), w=20 if s.startswith('svcj') else 9 if s[0] in '2s' else 4) for s in FAM]
    out += [dict(name=f'joint:{m}', kind='joint', s=m, pts=6 if q else 20, w=12) for m in ('1fsv', '1fsvj', '2fsv', '2fsvj')]
    out += [dict(name='jointblock:srjd', kind='jointblock', s='srjd.ie_iez_mom', pts=8 if q else 30, w=6),
            dict(name='jointblock:ito', kind='jointblock', s='ito.moment_IEII', pts=8 if q else 30, w=6),
            dict(name='jointblock:itocond', kind='jointblock', s='itocond.moment_IEII', pts=8 if q else 30, w=6),
            dict(name='jointblock:itos', kind='jointblock', s='itos.moment_IEI_IEII', pts=5 if q else 20, w=8),
            dict(name='jointblock:ieziziz', kind='jointblock', s='svcj.ieziziz', pts=8 if q else 30, w=6),
            dict(name='jointblock:ieii', kind='jointblock', s='svcj.ieii_ieziziz', pts=5 if q else 20, w=8)]
    out += [dict(name='total', kind='total', s='', pts=12 if q else 40, w=8)]
    return out


def run(ctx, task):
    for i in range(task['pts']):
        p = point(ctx.rng, [2, 1, 3, 0][i % 4], 'generic' if i % 2 == 0 else 'corner')
        try:
            globals()[task['kind']](ctx, task['s'], p)
        except RealFailure:
            return


def psd(A):
    """smallest eigenvalue after scaling to unit diagonal"""
    n = A.rows
    d = [A[i, i] for i in range(n)]
    if any(x < -mp.mpf(10) ** -40 for x in d):
        return min(d)
    keep = [i for i in range(n) if d[i] > mp.mpf(10) ** -60]
    for i in range(n):
        if i not in keep and any(abs(A[i, j]) > mp.mpf(10) ** -25 * (1 + mp.sqrt(abs(d[j]))) for j in range(n)):
            return mp.mpf(-1)
    B = mp.matrix(len(keep), len(keep))
    for a, i in enumerate(keep):
        for b, j in enumerate(keep):
            B[a, b] = A[i, j] / mp.sqrt(d[i] * d[j])
    return min(mp.eigsy(B, eigvals_only=True)) if keep else mp.mpf(0)


def hankel(m, shift=0):
    n = (len(m) - 1 - shift) // 2 + 1
    A = mp.matrix(n, n)
    for i in range(n):
        for j in range(n):
            A[i, j] = m[i + j + shift]
    return A


def family(ctx, s, p):
    N, central, pos = FAM[s]
    lo = 2 if central else 0
    v = [mp.mpf(1), mp.mpf(0)] if central else []
    v += [rl.value(ctx, s, (i,), p) for i in range(lo, N + 1)]
    tag = f'{s}@{mp.nstr(v[2], 10)}'
    e = psd(hankel(v))
    ctx.judge(e > -mp.mpf(10) ** -30, f'{s}/hankel', lambda: f'moments up to {N} belong to no distribution (scaled eigenvalue {mp.nstr(e, 5)})', nontrivial=tag, point=rl.pt(p))
    ctx.count('hankel_matrices')
    if not central:
        ctx.judge(v[0] == 1, f'{s}/mass', lambda: f'moment of order 0 is {mp.nstr(v[0], 10)}')
    if pos:
        e1 = psd(hankel(v, 1))
        ctx.judge(e1 > -mp.mpf(10) ** -30, f'{s}/support', lambda: f'moments up to {N} belong to no distribution on [0,oo) ({mp.nstr(e1, 5)})', nontrivial=tag + '+', point=rl.pt(p))
    c = v if central else rl.to_central(v)
    ctx.judge(c[2] >= -mp.mpf(10) ** -40, f'{s}/variance', lambda: f'variance {mp.nstr(c[2], 8)}', point=rl.pt(p))
    if c[2] > mp.mpf(10) ** -30 and N >= 4:
        k, sk = c[4] / c[2] ** 2, c[3] / c[2] ** mp.mpf(1.5)
        ctx.judge(k >= 1 + sk ** 2 - mp.mpf(10) ** -25, f'{s}/kurtosis', lambda: f'kurtosis {mp.nstr(k, 8)} below 1 + skewness^2 = {mp.nstr(1 + sk ** 2, 8)}', point=rl.pt(p))
    if SB[s].scalar and not SB[s].spoint and N >= 4:
        x = [rl.scal(ctx, s, (i,), p) for i in range(lo, 5)]
        ctx.judge(all(isinstance(float(y), float) and np.isfinite(float(y)) for y in x), f'{s}/finite', lambda: f'float values {x}', point=rl.pt(p))
        if c[2] > 1e-6:
            x = ([1.0, 0.0] if central else []) + [float(y) for y in x]
            var = x[2] - x[1] ** 2
            ctx.judge(var >= -1e-9 * (abs(x[2]) + x[1] ** 2), f'{s}/floatvar', lambda: f'float variance {var}', nontrivial=tag + 'f', point=rl.pt(p))
            ctx.judge(x[4] >= 0 and x[4] >= x[2] ** 2 - 1e-9 * (x[4] + x[2] ** 2), f'{s}/floatjensen', lambda: f'float 4th moment {x[4]} below squared 2nd {x[2] ** 2}', point=rl.pt(p))


def joint(ctx, m, p):
    """moment matrix of (1, y, y', y^2, y y', y'^2) for consecutive returns"""
    two = m[0] == '2'

    def E(a, b):
        if not a or not b:
            return rl.value(ctx, f'{m}.mom', (a + b,), p)
        return rl.value(ctx, f'{m}.moment_yy', (a, b), p)
    B = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)]
    A = mp.matrix(6, 6)
    for i, x in enumerate(B):
        for j, y in enumerate(B):
            A[i, j] = E(x[0] + y[0], x[1] + y[1])
    e = psd(A)
    ctx.judge(e > -mp.mpf(10) ** -30, f'{m}/joint', lambda: f'joint moments of consecutive returns belong to no distribution ({mp.nstr(e, 5)})', nontrivial=f'{m}{mp.nstr(A[1, 1], 9)}', point=rl.pt(p))
    ctx.count('joint_matrices')
    for a, b in ((1, 1), (2, 1), (1, 2), (2, 2)) + (((3, 1), (1, 3), (3, 2), (2, 3)) if not two else ((3, 1), (1, 3))):
        if 2 * max(a, b) > (7 if not two else 5):
            continue
        va = E(2 * a, 0) - E(a, 0) ** 2
        vb = E(2 * b, 0) - E(b, 0) ** 2
        c = rl.value(ctx, f'{m}.cov', (a, b), p)
        ctx.judge(c * c <= va * vb * (1 + mp.mpf(10) ** -25) + mp.mpf(10) ** -50, f'{m}/cauchy{a},{b}', lambda: f'cov({a},{b}) = {mp.nstr(c, 8)} exceeds {mp.nstr(mp.sqrt(va * vb), 8)}', nontrivial=f'{m}{a}{b}{mp.nstr(c, 9)}', point=rl.pt(p))
        d = E(a, b) - E(a, 0) * E(b, 0)
        rl.same(ctx, f'{m}/cov{a},{b}', c, d, f'{m}d{a}{b}{mp.nstr(c, 9)}', f'{m}: cov({a},{b}) vs E[yy] - E[y]E[y]', point=rl.pt(p))


def jointblock(ctx, s, p):
    d = len(SB[s].args[0])
    mx = 2 if d <= 3 else 1
    import itertools
    B = [a for a in itertools.product(range(mx + 1), repeat=d) if sum(a) <= mx]
    if d >= 5:
        B += [tuple(2 * (i == j) for i in range(d)) for j in range(d) if ctx.rng.random() < .4]
    A = mp.matrix(len(B), len(B))
    for i, x in enumerate(B):
        for j, y in enumerate(B):
            if j >= i:
                A[i, j] = A[j, i] = rl.value(ctx, s, tuple(a + b for a, b in zip(x, y)), p)
    e = psd(A)
    ctx.judge(e > -mp.mpf(10) ** -28, f'{s}/joint', lambda: f'joint moments belong to no distribution ({mp.nstr(e, 5)})', nontrivial=f'{s}{mp.nstr(A[1, 1], 9)}', point=rl.pt(p))
    ctx.count('joint_matrices')


def total(ctx, _, p):
    """conditioning reduces the average variance; mean over the starting variance"""
    for cond, vm, unc, means in (('1fsv.cond_cmom', 'ito.moment_v', '1fsv.cmom', None), ('svcj.cond_cmom', 'srjd.mom', 'svcj.cmom', 'svcj.cond_mom')):
        V = [rl.value(ctx, vm, (i,), p) for i in range(3)]
        c = rl.vpoly(lambda v: rl.value(ctx, cond, (2,), dict(p, v0=v)), 2)
        av = sum(a * b for a, b in zip(c, V))
        tot = rl.value(ctx, unc, (2,), p)
        ctx.judge(av >= -mp.mpf(10) ** -40 and tot >= av * (1 - mp.mpf(10) ** -30), f'total/{cond}', lambda: f'average conditional variance {mp.nstr(av, 9)}, total {mp.nstr(tot, 9)}', nontrivial=f'{cond}{mp.nstr(tot, 9)}', point=rl.pt(p))
        ctx.judge(abs(c[2]) < mp.mpf(10) ** -30 * (1 + abs(c[1])), f'total/{cond}/affine', lambda: f'conditional variance is not affine in the starting variance: {mp.nstr(c[2], 5)}')
        bet = (1 - mp.exp(-rl.F2m(p['k'] * p['h']))) / (2 * rl.F2m(p['k']))
        want = av + bet ** 2 * (V[2] - V[1] ** 2)
        rl.same(ctx, f'total/{cond}/law', tot, want, f'{cond}l{mp.nstr(tot, 9)}', 'variance = average conditional variance + variance of the conditional mean', point=rl.pt(p))
