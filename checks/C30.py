"""Nested models and change of units: special cases of one model are another model"""
from fractions import Fraction as F
from math import comb

import mpmath as mp
import real as rl
from core import RealFailure
from subjects import SUBJECTS as SB, point

RULE = ('a case is (relation, order, parameter point): both sides are values of formulas the code derives (70 digits) and, '
        'for low orders, of its float functions; relations switch off jumps / a factor / the price jumps, swap the factors, '
        'rescale the unit of time, shift the drift, split a variance jump or add a jump of size zero; '
        'distinct = relation x order x value')
MIN_EVALS, MIN_KEYS = 1000, 500
Z = F(0)


def rels(tier):
    """(name, left subject, right subject, orders, transform of left point, of right point)"""
    q = tier == 'quick'
    one, two = range(0, 7), range(0, 5 if q else 6)
    ident = lambda p: p
    R = []

    def r(name, a, b, orders, ta=ident, tb=ident, w=1):
        R.append((name, a, b, [o if isinstance(o, tuple) else (o,) for o in orders], ta, tb, w))
    pr1 = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)] + ([] if q else [(3, 2), (2, 3), (1, 4), (4, 1)])
    pr2 = pr1[:4] if q else pr1[:6]
    noj = lambda p: dict(p, **{'lambda': Z})
    nol = lambda p: dict(p, lmbd=Z)
    nosz = lambda p: dict(p, mu_j=Z, sigma_j=Z)
    for f in ('mom', 'cmom'):
        r(f'1fsvj.{f} rate 0', f'1fsvj.{f}', f'1fsv.{f}', one, noj, w=3)
        r(f'1fsvj.{f} size 0', f'1fsvj.{f}', f'1fsv.{f}', one, nosz, w=3)
        r(f'2fsvj.{f} rate 0', f'2fsvj.{f}', f'2fsv.{f}', two, noj, w=9)
        r(f'2fsvj.{f} size 0', f'2fsvj.{f}', f'2fsv.{f}', two, nosz, w=9)
    for f in ('cov', 'moment_yy'):
        r(f'1fsvj.{f} rate 0', f'1fsvj.{f}', f'1fsv.{f}', pr1, noj, w=3)
        r(f'2fsvj.{f} size 0', f'2fsvj.{f}', f'2fsv.{f}', pr2, nosz, w=9)
    for i, j in ('12', '21'):
        off = lambda p, i=i, j=j: dict(p, **{'theta' + j: Z, 'sigma' + j: F(1, 8) * (j == '2')})
        asone = lambda p, i=i: dict(p, k=p['k' + i], theta=p['theta' + i], sigma=p['sigma' + i], rho=Z)
        for f in ('mom', 'cmom'):
            r(f'2fsv.{f} factor {j} off', f'2fsv.{f}', f'1fsv.{f}', two, off, asone, w=8)
            r(f'2fsvj.{f} factor {j} off', f'2fsvj.{f}', f'1fsvj.{f}', two, off, asone, w=8)
        r(f'2fsv.cov factor {j} off', '2fsv.cov', '1fsv.cov', pr2, off, asone, w=8)
        r(f'2fsvj.cov factor {j} off', '2fsvj.cov', '1fsvj.cov', pr2, off, asone, w=8)
    swap = lambda p: dict(p, k1=p['k2'], k2=p['k1'], theta1=p['theta2'], theta2=p['theta1'], sigma1=p['sigma2'], sigma2=p['sigma1'], v10=p['v20'], v20=p['v10'])
    for m in ('2fsv', '2fsvj'):
        for f, o in (('mom', two), ('cmom', two), ('cov', pr2), ('moment_yy', pr2)):
            r(f'{m}.{f} factors swapped', f'{m}.{f}', f'{m}.{f}', o, swap, w=8)
    r('svcj.mom rate 0', 'svcj.mom', '1fsv.mom', range(5), nol, w=4)
    r('svcj.cmom rate 0', 'svcj.cmom', '1fsv.cmom', range(5), nol, w=4)
    r('svcj.cond_cmom rate 0', 'svcj.cond_cmom', '1fsv.cond_cmom', range(1, 5), nol, w=4)
    flat = lambda p: dict(p, mu_v=Z)
    asj = lambda p: dict(p, **{'lambda': p['lmbd'], 'mu_j': p['mu_s'], 'sigma_j': p['sigma_s']})
    r('svcj.mom price jumps only', 'svcj.mom', '1fsvj.mom', range(5), flat, asj, w=4)
    r('svcj.cmom price jumps only', 'svcj.cmom', '1fsvj.cmom', range(5), flat, asj, w=4)
    r('svij.mom rate 0', 'svij.cond2_mom', 'svvj.cond2_mom', range(6), lambda p: dict(p, lmbd_s=Z), w=3)
    r('svij.cmom rate 0', 'svij.cond2_cmom', 'svvj.cond2_cmom', range(1, 7), lambda p: dict(p, lmbd_s=Z), w=3)
    r('svij.mom size 0', 'svij.cond2_mom', 'svvj.cond2_mom', range(6), lambda p: dict(p, mu_s=Z, sigma_s=Z), w=3)
    r('svij.cmom size 0', 'svij.cond2_cmom', 'svvj.cond2_cmom', range(1, 7), lambda p: dict(p, mu_s=Z, sigma_s=Z), w=3)
    still = lambda p: dict(p, mu_s=Z, sigma_s=Z, rho_J=Z)
    r('svcj.mom no price jumps', 'svcj.cond2_mom', 'svvj.cond2_mom', range(6), still, w=4)
    r('svcj.cmom no price jumps', 'svcj.cond2_cmom', 'svvj.cond2_cmom', range(1, 6), still, w=4)
    none = lambda p: dict(p, jumptime=(), jumpsize=())
    r('svvj.cmom no jumps', 'svvj.cond2_cmom', '1fsv.cond_cmom', range(1, 7), none, w=3)
    r('svcj.cmom no jumps', 'svcj.cond2_cmom', '1fsv.cond_cmom', range(1, 6), none, w=3)
    r('svij.cmom no jumps, rate 0', 'svij.cond2_cmom', '1fsv.cond_cmom', range(1, 7), lambda p: dict(none(p), lmbd_s=Z), w=3)
    r('srjd given no jumps', 'srjd.cond2_mom', 'srjd.cond_mom', range(8), none, nol)
    r('srjd central given no jumps', 'srjd.cond2_cmom', 'srjd.cond_cmom', range(8), none, nol)
    r('srjd.mom rate 0', 'srjd.mom', 'ito.moment_v', range(8), nol)
    r('srjd.mom raw form', 'srjd.mom.unsimplified', 'srjd.mom', range(8))
    r('srjd.mom jumps of size 0', 'srjd.mom', 'ito.moment_v', range(8), flat)
    r('ieziziz first', 'svcj.ieziziz', 'srjd.iez_mom', [((i, 0, 0), (i,)) for i in range(7)])
    r('ieii', 'svcj.ieii_ieziziz', 'srjd.ie_iez_mom', [((a, 0, 0, b, 0, 0), (a, b)) for a in range(5) for b in range(5 - a)], w=3)
    r('ieii no jumps', 'svcj.ieii_ieziziz', 'ito.moment_IEII', [((a, b, c, 0, 0, 0), (a, b, c)) for a in range(5) for b in range(5 - a) for c in range(5 - a - b)],
      nol, lambda p: dict(p, t0=Z), w=3)
    r('ie', 'srjd.ie_mom', 'srjd.ie_cmom', range(8))
    r('ie/iez', 'srjd.ie_iez_mom', 'srjd.ie_mom', [((a, 0), (a,)) for a in range(8)])
    r('ito given no jumps', 'itocond.moment_IEII', 'ito.moment_IEII', [(a, b, c) for a in range(6) for b in range(6 - a) for c in range(6 - a - b)],
      none, lambda p: dict(p, t0=Z), w=3)
    r('two factors, one used', 'itos.moment_IEI_IEII', 'ito.moment_IEII', [((a, b, 0, 0, 0), (a, b, 0)) for a in range(5) for b in range(5 - a)],
      lambda p: p, lambda p: dict(p, k=p['k1'], theta=p['theta1'], sigma=p['sigma1'], v0=p['v10']), w=3)
    r('two factors, other used', 'itos.moment_IEI_IEII', 'ito.moment_IEII', [((0, 0, a, b, 0), (a, b, 0)) for a in range(5) for b in range(5 - a)],
      lambda p: p, lambda p: dict(p, k=p['k2'], theta=p['theta2'], sigma=p['sigma2'], v0=p['v20']), w=3)
    return R


SCALE = {'k': -1, 'theta': -1, 'sigma': -1, 'mu': -1, 'h': 1, 's': 1, 't0': 1, 'v0': -1, 'lmbd': -1, 'lambda': -1, 'lmbd_s': -1,
         'k1': -1, 'k2': -1, 'theta1': -1, 'theta2': -1, 'sigma1': -1, 'sigma2': -1, 'v10': -1, 'v20': -1, 'mu_v': -1, 'rho_J': 1}
# y is a pure number, v has unit 1/time
YS = ['1fsv.mom', '1fsv.cmom', '1fsv.cov', '1fsv.moment_yy', '1fsvj.mom', '1fsvj.cmom', '1fsvj.cov', '2fsv.mom', '2fsv.cmom', '2fsv.cov', '2fsvj.mom',
      '2fsvj.cmom', '2fsvj.cov', '1fsv.cond_cmom', 'svcj.cond_mom', 'svcj.cond_cmom', 'svcj.mom', 'svcj.cmom', 'svcj.cond2_mom', 'svcj.cond2_cmom',
      'svij.cond2_mom', 'svij.cond2_cmom', 'svvj.cond2_mom', 'svvj.cond2_cmom']
VS = ['srjd.cond_mom', 'srjd.cond_cmom', 'srjd.mom', 'srjd.cmom', 'srjd.cond2_mom', 'srjd.cond2_cmom', 'srjd.iez_mom', 'srjd.iez_cmom', 'ito.moment_v']
SPLIT = ['svvj.cond2_mom', 'svvj.cond2_cmom', 'svij.cond2_mom', 'svij.cond2_cmom', 'srjd.cond2_mom', 'srjd.cond2_cmom', 'itocond.moment_IEII']


def cap(name, tier):
    q = 0 if tier == 'quick' else 1
    if name in ('svvj.cond2_mom', 'svij.cond2_mom'):
        return 5 + q
    return {'2fsv': 4 + q, '1fsv': 6, 'svcj': 4, 'srjd': 7, 'svvj': 6, 'svij': 6}.get(name.split('.')[0].rstrip('j') if name[0] in '12' else name.split('.')[0], 5)


def tasks(tier, rng):
    q = tier == 'quick'
    n = 3 if q else 8
    out = [dict(name=f'nest:{r[0]}', kind='nest', i=i, pts=n, w=r[6]) for i, r in enumerate(rels(tier))]
    for s in YS + VS:
        out.append(dict(name=f'units:{s}', kind='units', s=s, pts=n, w=9 if s[0] == '2' else 3))
    for s in SPLIT:
        out.append(dict(name=f'split:{s}', kind='split', s=s, pts=2 * n, w=4))
    return out


def run(ctx, task):
    for i in range(task['pts']):
        p = point(ctx.rng, [2, 3, 1][i % 3], 'generic' if i % 3 < 2 else 'corner')
        try:
            if task['kind'] == 'nest':
                nest(ctx, rels(ctx.tier)[task['i']], p)
            elif task['kind'] == 'units':
                units(ctx, task['s'], p)
            else:
                split(ctx, task['s'], p)
        except RealFailure:
            return


def nest(ctx, r, p):
    name, a, b, orders, ta, tb, _ = r
    pa, pb = ta(p), tb(p)
    for o in orders:
        oa, ob = o if isinstance(o[0], tuple) else (o, o)
        if sum(oa) == 0 and 'cond2_cmom' in a + b:
            continue
        x, y = rl.value(ctx, a, oa, pa), rl.value(ctx, b, ob, pb)
        rl.same(ctx, f'nest/{name}/{oa}', x, y, f'{name}{oa}:{mp.nstr(x, 8)}' if x else None, f'{a}{oa} vs {b}{ob} ({name})', point=rl.pt(p))
        if SB[a].scalar and SB[b].scalar and not SB[a].spoint and not SB[b].spoint and sum(oa) <= 3 and ('cov' not in a):
            for s, po, oo, ref in ((a, pa, oa, x), (b, pb, ob, y)):
                v = mp.mpf(float(rl.scal(ctx, s, oo, po)))
                ab = _absum(ctx, s, oo, po)
                ctx.judge(abs(v - ref) <= 2e-11 * (ab + abs(ref)) + mp.mpf(10) ** -30, f'nest/{name}/{oo}/float',
                          lambda: f'{s}{oo} float {mp.nstr(v, 12)} vs {mp.nstr(ref, 12)}', point=rl.pt(p))


def _absum(ctx, s, o, p):
    from evalpoly import evaluate
    return evaluate(rl.poly(ctx, s, o, p), SB[s].env(p))[1]


def args(name, tier):
    c = cap(name, tier)
    if any(t in name for t in ('cov', 'moment_yy')):
        c = min(c, 5 if name[0] == '1' else 4)
    return [a for a in SB[name].args if sum(a) <= c and (sum(a) or 'cond2_cmom' not in name)]


def units(ctx, name, p):
    """time measured in another unit; and the drift shifted"""
    c = F(ctx.rng.choice([2, 3, 5, 7]), ctx.rng.choice([4, 9, 11]))
    q = {k: (v * c ** SCALE[k] if k in SCALE else v) for k, v in p.items()}
    q['jumptime'] = tuple(t * c for t in p['jumptime'])
    q['jumpsize'] = tuple(j / c for j in p['jumpsize'])
    for a in args(name, ctx.tier):
        x, y = rl.value(ctx, name, a, p), rl.value(ctx, name, a, q)
        if name in VS:
            y *= rl.F2m(c) ** sum(a)
        rl.same(ctx, f'units/{name}/{a}', x, y, f'{name}{a}:{mp.nstr(x, 8)}' if x else None, f'{name}{a} with time measured in units of {c}', point=rl.pt(p))
    if name in VS:
        return
    d = F(ctx.rng.randint(-9, 9), 8)
    q = dict(p, mu=p['mu'] + d)
    dh = rl.F2m(d * p['h'])
    if name.endswith('cmom'):
        for a in args(name, ctx.tier):
            x, y = rl.value(ctx, name, a, p), rl.value(ctx, name, a, q)
            rl.same(ctx, f'drift/{name}/{a}', x, y, f'd{name}{a}:{mp.nstr(x, 8)}' if x else None, f'{name}{a} depends on the drift', point=rl.pt(p))
    elif len(SB[name].args[0]) == 1:
        M = {a[0]: rl.value(ctx, name, a, p) for a in args(name, ctx.tier)}
        for n in M:
            y = sum(comb(n, i) * dh ** (n - i) * M[i] for i in range(n + 1))
            x = rl.value(ctx, name, (n,), q)
            rl.same(ctx, f'drift/{name}/{n}', x, y, f'd{name}{n}:{mp.nstr(x, 8)}', f'{name}({n}) with the drift shifted by {d}', point=rl.pt(p))
    else:
        A = args(name, ctx.tier)
        if 'cov' in name:
            def m(i, j, _c={}):
                if not i or not j:
                    return mp.mpf(0)
                return rl.value(ctx, name, (i, j), p)
        else:
            base = name.split('.')[0] + '.mom'

            def m(i, j):
                if not i and not j:
                    return mp.mpf(1)
                if not i or not j:
                    return rl.value(ctx, base, (i + j,), p)
                return rl.value(ctx, name, (i, j), p)
        for a in A:
            y = sum(comb(a[0], i) * comb(a[1], j) * dh ** (a[0] - i + a[1] - j) * m(i, j) for i in range(a[0] + 1) for j in range(a[1] + 1))
            x = rl.value(ctx, name, a, q)
            rl.same(ctx, f'drift/{name}/{a}', x, y, f'd{name}{a}:{mp.nstr(x, 8)}', f'{name}{a} with the drift shifted by {d}', point=rl.pt(p))


def split(ctx, name, p):
    ts, J = list(p['jumptime']), list(p['jumpsize'])
    i = ctx.rng.randrange(len(ts))
    f = F(ctx.rng.randint(1, 7), 8)
    two = dict(p, jumptime=tuple(ts[:i + 1] + ts[i:]), jumpsize=tuple(J[:i] + [J[i] * f, J[i] * (1 - f)] + J[i + 1:]))
    t0 = p['h'] * F(ctx.rng.randint(0, 32), 32)
    pos = sum(t <= t0 for t in ts)
    nul = dict(p, jumptime=tuple(ts[:pos] + [t0] + ts[pos:]), jumpsize=tuple(J[:pos] + [F(0)] + J[pos:]))
    end = dict(p, jumptime=tuple(ts + [p['h']]), jumpsize=tuple(J + [F(3, 4)]))
    mx = {'itocond.moment_IEII': 4, 'svvj.cond2_mom': 4, 'svij.cond2_mom': 4}.get(name, 5) + (ctx.tier != 'quick')
    for a in SB[name].args:
        if sum(a) > mx or (not sum(a) and 'cmom' in name):
            continue
        x = rl.value(ctx, name, a, p)
        for what, q in (('a jump split in two', two), ('an extra jump of size 0', nul), ('a jump at the end', end)):
            if q is end and name.startswith('srjd'):
                continue
            y = rl.value(ctx, name, a, q)
            rl.same(ctx, f'split/{name}/{a}', x, y, f'{what}{name}{a}:{mp.nstr(x, 8)}' if x else None, f'{name}{a} changed by {what}', point=rl.pt(p))
