"""The sample generators draw from the law of the model (up to the documented discretisation)"""
import math
from fractions import Fraction as F

import chain as ch
import engine as en
import models as md
import numpy as np
from core import RealFailure
from subjects import I, dy, events, o_1f, o_2f, point, svij_proc

RULE = ('a case is (sampler, parameter point, jump list, statistic): sample moments and lag products of the returned '
        'arrays (10^4-10^5 draws, batch standard errors) must lie within z standard errors (6.5, 8 above order 2) '
        'of the band between the continuous-time moment from the generator of the SDE and the exact moment of the '
        'Euler chain; Feller-safe points so that truncation at zero is negligible; distinct = statistic x point')
MIN_EVALS, MIN_KEYS = 200, 100
ASSUMPTIONS = ['sampling error is judged at 6.5 or more standard errors', 'seeded generators; a re-ordered stream of draws is accepted']


def tasks(tier, rng):
    q = tier == 'quick'
    out = []
    reps = 2 if q else 6
    for s in ('r1FSV', 'r1FSV_iid', 'r1FSVJ', 'r2FSV', 'r2FSVJ'):
        for i in range(reps):
            out.append(dict(name=f'{s}{i}', s=s, i=i, n=48000 if q else 160000, w=8))
        if s != 'r1FSV_iid':
            out.append(dict(name=f'{s}.long', s=s, long=1, n=120000 if q else 400000, w=9))
    for s in ('rSVVJ', 'rSVIJ', 'rSVCJ', 'rSRJD'):
        for nj in (0, 1, 2, 3, 5, 9):
            for i in range(1 if q else 3):
                out.append(dict(name=f'{s}.{nj}.{i}', s=s, nj=nj, i=i, n=40000 if q else 160000, w=9))
    for s in ('r1FSV_iid', 'r1FSV', 'r1FSVJ', 'r2FSV', 'r2FSVJ', 'rSVVJ', 'rSVIJ', 'rSVCJ'):
        for i, ratio in enumerate((.8, .4) if q else (1., .8, .6, .4, .3)):
            out.append(dict(name=f'{s}.rough{i}', s=s, rough=ratio, n=12000 if q else 60000, w=7))
    for s in ('r1FSV_iid', 'r1FSV', 'r1FSVJ', 'r2FSV', 'r2FSVJ'):
        out.append(dict(name=f'{s}.small', s=s, small=800 if q else 4000, w=5))
    for s in ('r1FSVJ', 'r2FSVJ', 'rSVIJ', 'rSVCJ'):
        out.append(dict(name=f'{s}.jumps', s=s, jumps=1, n=30000 if q else 200000, w=6))
    out.append(dict(name='rSRD', s='rSRD', n=30000 if q else 100000, w=3))
    out.append(dict(name='sums', s='sums', n=300, w=1))
    return out


def safe_point(rng, nj):
    """variances stay away from zero so that the truncation in the recursion is negligible"""
    p = point(rng, nj)
    p['h'] = F(rng.randint(8, 20), 16)
    p['theta'], p['sigma'] = F(rng.randint(12, 32), 32), F(rng.randint(5, 9), 32)
    p['k'] = F(rng.randint(16, 40), 16)
    p['v0'] = F(rng.randint(12, 36), 32)
    for i in '12':
        p['theta' + i], p['sigma' + i] = F(rng.randint(12, 32), 32), F(rng.randint(4, 8), 32)
        p[f'v{i}0'] = F(rng.randint(12, 32), 32)
    p['k1'], p['k2'] = F(rng.randint(40, 60), 32) + F(1, 997), F(rng.randint(16, 36), 32)
    ts = sorted(rng.sample(range(3, 62 if nj < 8 else 24), nj))
    p['jumptime'] = tuple(p['h'] * F(t, 64) for t in ts)
    p['jumpsize'] = tuple(F(rng.randint(8, 40), 32) for _ in range(nj))
    if nj > 7:                                  # the late ones matter most
        p['jumpsize'] = tuple(x * (1 + i // 3) for i, x in enumerate(p['jumpsize']))
    p['mu_j'] = rng.choice([1, -1]) * F(rng.randint(6, 20), 32)
    p['mu_s'] = rng.choice([1, -1]) * F(rng.randint(6, 20), 32)
    return p


def fpar(p):
    d = {k: float(v) for k, v in p.items() if not isinstance(v, (tuple, str))}
    d.update(sigma_v=d['sigma'], sigma_v1=d['sigma1'], sigma_v2=d['sigma2'])
    return d


def cpp_moment(p, lam, mu, sg):
    pr = en.Process(['z'], {}, {}, [(p[lam], lambda e: en.normal_mom(e[0], p[mu], p[sg] ** 2))])
    m = [float(en.peval(pr.flow({(n,): en.ONE}, p['h']), (F(0),))) for n in range(5)]
    return lambda n: m[n]


def judge_stat(ctx, key, x, cont, eul, order, extra=0.0):
    """x: per-replicate values of the statistic"""
    n = len(x)
    m, se = float(np.mean(x)), float(np.std(x) / math.sqrt(n))
    d = abs(eul - cont)
    lo, hi = min(eul, cont) - .5 * d, max(eul, cont) + .5 * d
    z = 6.5 if order <= 2 else 8.0
    tol = z * se + 1e-9 * (abs(cont) + 1) + extra
    ok = math.isfinite(m) and lo - tol <= m <= hi + tol
    dist = 0 if lo <= m <= hi else min(abs(m - lo), abs(m - hi)) / (se + 1e-300)
    ctx.judge(ok, key, lambda: f'sample {m:.6g} +- {se:.2g}, model {cont:.6g}, Euler chain {eul:.6g} ({dist:.1f} standard errors off)',
              nontrivial=f'{key}:{cont:.6g}')
    ctx.sample(f'{key}: sample {m:.5g} se {se:.1g} model {cont:.5g} chain {eul:.5g}')
    ctx.count('statistics')


def run(ctx, task):
    s = task['s']
    rng = ctx.rng
    np.random.seed(rng.randrange(2 ** 31))
    try:
        if s == 'sums':
            return sums(ctx, task)
        if 'jumps' in task:
            return jump_law(ctx, task, s)
        if 'small' in task:
            return small_joint(ctx, task, s)
        if 'rough' in task:
            return rough(ctx, task, s)
        if s.startswith('r1') or s.startswith('r2'):
            return (longrun if 'long' in task else joint)(ctx, task, s)
        if s == 'rSRD':
            return srd(ctx, task)
        return given(ctx, task, s)
    except RealFailure:
        pass


def sampler(s):
    return getattr(I({'r1FSV': 'mdl_1fsv.euler', 'r1FSV_iid': 'mdl_1fsv.euler', 'r1FSVJ': 'mdl_1fsvj.euler',
                      'r2FSV': 'mdl_2fsv.euler', 'r2FSVJ': 'mdl_2fsvj.euler'}[s]), s)


def moments_joint(p, two, jumps, nseg, pairs, start):
    """E[y1^a y2^b | v at start] continuous and Euler"""
    yi = 2 if two else 1
    pr = (o_2f if two else o_1f)(p, jumps)
    step = (ch.two_factor if two else ch.one_factor)(p, float(p['h']) / nseg)
    z = cpp_moment(p, 'lambda', 'mu_j', 'sigma_j') if jumps else None
    x = tuple(start) + (0,)
    out = {}
    for a, b in pairs:
        f = md.y_cond(pr, b, p['h'], yi)
        g = {}
        for e, c in f.items():
            e = list(e)
            e[yi] = a
            g[tuple(e)] = c
        g = pr.flow(g, p['h'])
        cont = float(en.peval(g, x))
        nv = yi + 1
        f = {tuple([0] * yi + [b]): 1.0}
        for first in (False, True):
            if z:
                f = ch.shift(f, yi, z)
            for _ in range(nseg):
                f = step.back(f)
            if not first:
                f = {e[:yi] + (a,): c for e, c in f.items() if e[yi] == 0}
        eul = ch.val({e: c for e, c in f.items() if e[yi] == 0}, tuple(map(float, start)) + (0.0,))
        out[(a, b)] = (cont, eul)
    return out


PAIRS = [(1, 0), (2, 0), (3, 0), (4, 0), (0, 1), (0, 2), (1, 1), (2, 1), (1, 2), (0, 3)]


def joint(ctx, task, s):
    rng = ctx.rng
    two, jumps = s.startswith('r2'), s.endswith('J')
    p = safe_point(rng, 0)
    par = fpar(p)
    nseg = [10, 16, 7, 13, 20, 5][task['i'] % 6]
    h = float(p['h'])
    f = sampler(s)
    start = (p['v10'], p['v20']) if two else (p['v0'],)
    v0 = tuple(map(float, start)) if two else float(start[0])
    n = task['n'] // nseg * 6
    before = dict(par)
    if s == 'r1FSV_iid':
        y = np.asarray(ctx.real(s, f, v0, par, 2 * n, nseg, h))
        ref = moments_joint(p, two, jumps, nseg, [(a, 0) for a in (1, 2, 3, 4)], start)
        for (a, _), (c, e) in ref.items():
            judge_stat(ctx, f'{s}/y^{a}', y ** a, c, e, a)
        # independence of replicates
        m, e = ref[(1, 0)]
        judge_stat(ctx, f'{s}/lag', y[:-1] * y[1:], m * m, e * e, 2)
    else:
        Y = np.array([ctx.real(s, f, v0, par, 2, nseg, h) for _ in range(n)])
        ctx.judge(Y.shape == (n, 2), f'{s}/shape', f'{Y.shape}')
        ref = moments_joint(p, two, jumps, nseg, PAIRS, start)
        for (a, b), (c, e) in ref.items():
            judge_stat(ctx, f'{s}/y1^{a}y2^{b}', Y[:, 0] ** a * Y[:, 1] ** b, c, e, a + b)
    ctx.judge(par == before, f'{s}/par', 'parameters were modified')
    ctx.count('draws', n)


def stationary_euler(p, two, nseg, powers):
    step = (ch.two_factor if two else ch.one_factor)(p, float(p['h']) / nseg)
    x = (float(p['theta1']), float(p['theta2']), 0.0) if two else (float(p['theta']), 0.0)
    out = {}
    for e in powers:
        f = {e: 1.0}
        last = None
        for i in range(20000):
            f = step.back(f)
            if i % 50 == 0:
                v = ch.val(f, x)
                if last is not None and abs(v - last) < 1e-14 * (1 + abs(v)):
                    break
                last = v
        out[e] = ch.val(f, x)
    return out


def longrun(ctx, task, s):
    """one trajectory: time averages against stationary moments, batch standard errors"""
    rng = ctx.rng
    two, jumps = s.startswith('r2'), s.endswith('J')
    p = safe_point(rng, 0)
    par = fpar(p)
    nseg, N = 6, task['n']
    v0 = (float(p['theta1']), float(p['theta2'])) if two else float(p['theta'])
    y = np.asarray(ctx.real(s, sampler(s), v0, par, N, nseg, float(p['h'])))
    ctx.judge(y.shape == (N,), f'{s}/long/shape', f'{y.shape}')
    yi = 2 if two else 1
    pr = (o_2f if two else o_1f)(p, jumps)
    step = (ch.two_factor if two else ch.one_factor)(p, float(p['h']) / nseg)
    z = cpp_moment(p, 'lambda', 'mu_j', 'sigma_j') if jumps else None
    c = y - float(p['mu'] * p['h'])
    y = c                                     # centred on the deterministic drift
    p = dict(p, mu=F(0))
    pr = (o_2f if two else o_1f)(p, jumps)
    step = (ch.two_factor if two else ch.one_factor)(p, float(p['h']) / nseg)
    sv = {}

    def stat_e(f):
        t = 0.0
        for e, c in f.items():
            if e[yi] or not c:
                continue
            if e not in sv:
                sv.update(stationary_euler(p, two, nseg, [e]))
            t += c * sv[e]
        return t
    for a, b in [(1, 0), (2, 0), (3, 0), (4, 0), (1, 1), (2, 1), (1, 2), (2, 2)]:
        f = md.y_cond(pr, b, p['h'], yi)
        g = {tuple(list(e[:yi]) + [a]): c for e, c in f.items()}
        g = pr.flow(g, p['h'])
        cont = float(md.avg(pr, {e: c for e, c in g.items() if e[yi] == 0}, {}))
        f = {tuple([0] * yi + [b]): 1.0}
        for first in (False, True):
            if z:
                f = ch.shift(f, yi, z)
            for _ in range(nseg):
                f = step.back(f)
            if not first:
                f = {e[:yi] + (a,): c for e, c in f.items() if e[yi] == 0}
        eul = stat_e(f)
        x = y[:-1] ** a * y[1:] ** b
        nb = 150
        L = len(x) // nb
        judge_stat(ctx, f'{s}/long/y^{a}y+1^{b}', x[:nb * L].reshape(nb, L).mean(axis=1), cont, eul, max(a + b, 3))
    ctx.count('draws', N)


def seed_module(m, rng):
    if hasattr(m, 'rng'):
        m.rng = np.random.default_rng(rng.randrange(2 ** 31))


def given(ctx, task, s):
    rng = ctx.rng
    nj, n = task['nj'], task['n']
    p = safe_point(rng, nj)
    par = fpar(p)
    J, T = tuple(map(float, p['jumpsize'])), tuple(map(float, p['jumptime']))
    g = [par[x] for x in ('v0', 'mu', 'k', 'theta', 'sigma', 'rho', 'h')]
    for m in ('mdl_svvj.euler', 'mdl_svij.euler', 'mdl_svcj.euler', 'mdl_srjd.euler'):
        seed_module(I(m), rng)
    if s == 'rSRJD':
        def draw(n):
            return np.asarray(ctx.real(s, I('mdl_srjd.euler').rSRJD, par['v0'], par['k'], par['theta'], par['sigma'], par['h'], J, T, n))
        v = draw(n)
        pr = md.srjd(p)
        ev = [(t, (lambda J: lambda e: F(J) ** e[0])(x)) for t, x in zip(p['jumptime'], p['jumpsize'])]
        for a in (1, 2, 3, 4):
            c = float(en.peval(pr.path({(a,): en.ONE}, p['h'], ev), (p['v0'],)))
            judge_stat(ctx, f'{s}/{nj}/v^{a}', v ** a, c, c, a)
        m = float(en.peval(pr.path({(1,): en.ONE}, p['h'], ev), (p['v0'],)))
        for a in (2, 3):
            c = float(md.raw_to_central([en.peval(pr.path({(i,): en.ONE}, p['h'], ev), (p['v0'],)) for i in range(a + 1)]))
            judge_stat(ctx, f'{s}/{nj}/c^{a}', (v - m) ** a, c, c, a + 1)
        judge_stat(ctx, f'{s}/{nj}/lag', (v[:-1] - m) * (v[1:] - m), 0.0, 0.0, 2)
        c = float(en.peval(pr.path({(2,): en.ONE}, p['h'], ev), (p['v0'],)))
        small(ctx, f'{s}/{nj}', draw, n // 50, (m, m), (c, c))
        ctx.judge(bool((v > 0).all()), f'{s}/positive', 'non-positive variance drawn')
        ctx.count('draws', n)
        return
    nseg = {0: 12, 1: 10, 2: 15, 3: 8, 5: 6, 9: 16}[nj]
    n = n * 10 // nseg
    if s == 'rSVVJ':
        f, more = I('mdl_svvj.euler').rSVVJ, ()
        proc, ev, z = o_1f(p), events(p, 'v'), None
    elif s == 'rSVIJ':
        f, more = I('mdl_svij.euler').rSVIJ, (par['lmbd_s'], par['mu_s'], par['sigma_s'])
        proc, ev, z = svij_proc(p), events(p, 'v'), cpp_moment(p, 'lmbd_s', 'mu_s', 'sigma_s')
    else:
        f, more = I('mdl_svcj.euler').rSVCJ, (par['mu_s'], par['sigma_s'], par['rho_J'])
        proc, ev = o_1f(p), events(p, 'vy')
        mean = sum((p['mu_s'] + p['rho_J'] * x for x in p['jumpsize']), F(0))
        z = lambda k: float(en.normal_mom(k, mean, nj * p['sigma_s'] ** 2))

    def draw(n):
        return np.asarray(ctx.real(s, f, *g, J, T, *more, n, nseg))
    y = draw(n)
    ctx.judge(y.shape == (n,), f'{s}/shape', f'{y.shape}')
    c0 = ch.given_const(p, p['jumptime'], p['jumpsize'])
    E = [ch.given_jumps(p, nseg, a, p['jumptime'], p['jumpsize']) for a in range(5)]
    E = [sum(math.comb(a, i) * c0 ** (a - i) * E[i] for i in range(a + 1)) for a in range(5)]
    if z:
        E = [sum(math.comb(a, i) * z(a - i) * E[i] for i in range(a + 1)) for a in range(5)]
    cont = [float(en.peval(md.y_cond(proc, a, p['h'], 1, ev), (p['v0'], F(0)))) for a in range(5)]
    for a in (1, 2, 3, 4):
        judge_stat(ctx, f'{s}/{nj}/y^{a}', y ** a, cont[a], E[a], a)
    for a in (2, 3):                            # central: sharper when the mean is large
        cc = sum(math.comb(a, i) * (-cont[1]) ** (a - i) * cont[i] for i in range(a + 1))
        ce = sum(math.comb(a, i) * (-cont[1]) ** (a - i) * E[i] for i in range(a + 1))
        judge_stat(ctx, f'{s}/{nj}/c^{a}', (y - cont[1]) ** a, cc, ce, a + 1)
    judge_stat(ctx, f'{s}/{nj}/lag', (y[:-1] - E[1]) * (y[1:] - E[1]), 0.0, 0.0, 2)
    small(ctx, f'{s}/{nj}', draw, n // 50, (cont[1], E[1]), (cont[2], E[2]))
    ctx.count('draws', n)


def jump_law(ctx, task, s):
    """no variance at all: the samples are the drift plus the price jumps, whose law is exact whatever the discretisation"""
    rng, n = ctx.rng, task['n']
    m = sampler(s) if s[1] != 'S' else getattr(I('mdl_%s.euler' % s[1:].lower()), s)
    if s == 'rSVCJ':
        for nj in (1, 2, 4, 7, 12):
            p = safe_point(rng, nj)
            par, T = fpar(p), float(p['h'])
            for mm in ('mdl_svvj.euler', 'mdl_svcj.euler'):
                seed_module(I(mm), rng)
            J = tuple(map(float, p['jumpsize']))
            y = ctx.real(s, m, 0., par['mu'], par['k'], 0., par['sigma'], par['rho'], T, J, (T,) * nj, par['mu_s'], par['sigma_s'], par['rho_J'], n // 3, 1)
            z = (np.asarray(y) - par['mu'] * T - sum(par['mu_s'] + par['rho_J'] * j for j in J)) / (par['sigma_s'] * math.sqrt(nj))
            for a, c in ((1, 0.), (2, 1.), (3, 0.), (4, 3.), (6, 15.)):
                judge_stat(ctx, f'{s}/jumps{nj}/z^{a}', z ** a, c, c, a)
            judge_stat(ctx, f'{s}/jumps{nj}/lag', z[:-1] * z[1:], 0., 0., 2)
            ctx.count('draws', n // 3)
        return
    for mean in (F(1, 16), F(3, 4), F(4), F(14)):
        for const in (True, False):
            p = safe_point(rng, 0)
            p['lambda'] = p['lmbd_s'] = mean / p['h']
            if const:
                p['sigma_j'] = p['sigma_s'] = F(0)
            par, h = fpar(p), float(p['h'])
            if s == 'rSVIJ':
                for mm in ('mdl_svvj.euler', 'mdl_svij.euler'):
                    seed_module(I(mm), rng)
                y = ctx.real(s, m, 0., par['mu'], par['k'], 0., par['sigma'], par['rho'], h, (), (), par['lmbd_s'], par['mu_s'], par['sigma_s'], n, 1)
                c, sg = par['mu_s'], par['sigma_s']
            else:
                y = ctx.real(s, m, (0., 0.) if s[1] == '2' else 0., dict(par, theta=0., theta1=0., theta2=0.), n, 1, h)
                c, sg = par['mu_j'], par['sigma_j']
            x, lam = (np.asarray(y) - par['mu'] * h) / c, float(mean)
            key = f'{s}/jumps{mean}/{"const" if const else "normal"}'
            k3 = lam * (1 + 3 * (sg / c) ** 2)
            k2, k4 = lam * (1 + (sg / c) ** 2), lam * (1 + 6 * (sg / c) ** 2 + 3 * (sg / c) ** 4)
            for a, v in ((1, 0.), (2, k2), (3, k3), (4, k4 + 3 * k2 * k2)):
                judge_stat(ctx, f'{key}/c^{a}', (x - lam) ** a, v, v, a + 1)
            judge_stat(ctx, f'{key}/lag', (x[:-1] - lam) * (x[1:] - lam), 0., 0., 2)
            if const:                            # how often each number of jumps occurs
                N = np.round(x)
                ctx.judge(bool((abs(x - N) < 1e-6).all()), f'{key}/whole', 'not a whole number of equal jumps')
                for j in range(int(lam + 6 * math.sqrt(lam)) + 2):
                    q = math.exp(-lam + j * math.log(lam) - math.lgamma(j + 1))
                    if q * n > 40:
                        ctx.judge(abs(float((N == j).mean()) - q) <= 6.5 * math.sqrt(q * (1 - q) / n), f'{key}/count', lambda: f'{j} jumps in {float((N == j).mean()):.5f} of the samples, expected {q:.5f}',
                                  nontrivial=f'{key}{j}')
            else:                                # without jumps there is no move
                q = math.exp(-lam)
                ctx.judge(abs(float((x == 0).mean()) + float(((x != 0) & (abs(x) < 1e-12)).mean()) - q) <= 6.5 * math.sqrt(q * (1 - q) / n) + 1 / n, f'{key}/none',
                          lambda: f'{float((abs(x) < 1e-12).mean()):.5f} of the samples without jump, expected {q:.5f}', nontrivial=key)
            ctx.count('draws', n)


def small(ctx, key, draw, reps, m1, m2):
    """many calls for a few samples each: the law may not depend on how many are asked for"""
    for n in range(1, 9):
        x = np.array([draw(n) for _ in range(reps)])
        ctx.judge(x.shape == (reps, n), f'{key}/small{n}/shape', f'{x.shape}')
        judge_stat(ctx, f'{key}/small{n}/1', x.ravel(), *m1, 3)
        judge_stat(ctx, f'{key}/small{n}/2', x.ravel() ** 2, *m2, 4)
    ctx.count('small_calls', 8 * reps)


def small_joint(ctx, task, s):
    rng = ctx.rng
    two, jumps, reps = s.startswith('r2'), s.endswith('J'), task['small']
    p = safe_point(rng, 0)
    par, h, nseg, f = fpar(p), float(p['h']), rng.randint(4, 8), sampler(s)
    start = (p['v10'], p['v20']) if two else (p['v0'],)
    v0 = tuple(map(float, start)) if two else float(start[0])
    yi = len(start)
    pr = (o_2f if two else o_1f)(p, jumps)
    step = (ch.two_factor if two else ch.one_factor)(p, h / nseg)
    z = cpp_moment(p, 'lambda', 'mu_j', 'sigma_j') if jumps else None
    law = {}
    for a in (1, 2):
        g = {e: c for e, c in md.y_cond(pr, a, p['h'], yi).items() if e[yi] == 0}
        f2 = {tuple([0] * yi + [a]): 1.0}
        if z:
            f2 = ch.shift(f2, yi, z)
        for _ in range(nseg):
            f2 = step.back(f2)
        for pos in range(8):
            law[pos, a] = (float(en.peval(g, start + (F(0),))), ch.val({e: c for e, c in f2.items() if e[yi] == 0}, tuple(map(float, start)) + (0.0,)))
            g = pr.flow(g, p['h'])
            f2 = {e: c for e, c in f2.items() if e[yi] == 0}
            for _ in range(nseg):
                f2 = step.back(f2)
            if s == 'r1FSV_iid':
                law[pos, a] = law[0, a]
    for n in range(1, 9):
        x = np.array([np.asarray(ctx.real(s, f, v0, par, n, nseg, h)) for _ in range(reps)])
        ctx.judge(x.shape == (reps, n), f'{s}/small{n}/shape', f'{x.shape}')
        for pos in sorted({0, n // 2, n - 1}):
            judge_stat(ctx, f'{s}/small{n}/y[{pos}]', x[:, pos], *law[pos, 1], 3)
            judge_stat(ctx, f'{s}/small{n}/y[{pos}]^2', x[:, pos] ** 2, *law[pos, 2], 4)
    ctx.count('small_calls', 8 * reps)


def rough(ctx, task, s):
    """Feller condition violated, fine grid: the recursion must still come close to the model, whatever it does to negative
    variances (0.15 standard deviations on the mean, 35% on the variance, both far above the truncation bias)"""
    rng = ctx.rng
    given_ = s[1] == 'S'
    p = safe_point(rng, rng.randint(1, 3) if given_ else 0)
    for a, b, c in (('k', 'theta', 'sigma'), ('k1', 'theta1', 'sigma1'), ('k2', 'theta2', 'sigma2')):
        p[a] += 1
        p[b] = F(rng.randint(6, 16), 32)
        p[c] = F(round(math.sqrt(2 * float(p[a] * p[b]) / task['rough']) * 32), 32)
    for a, b in (('v0', 'theta'), ('v10', 'theta1'), ('v20', 'theta2')):   # start low: zero is reached at once
        p[a] = p[b] / rng.choice([8, 16])
    par, ns, n, yi = fpar(p), 48, task['n'], 1
    if given_:
        m = I('mdl_%s.euler' % s[1:].lower())
        seed_module(I('mdl_svvj.euler'), rng)
        seed_module(m, rng)
        g = [par[x] for x in ('v0', 'mu', 'k', 'theta', 'sigma', 'rho', 'h')]
        g += [tuple(map(float, p['jumpsize'])), tuple(map(float, p['jumptime']))]
        g += [par[x] for x in {'rSVVJ': (), 'rSVIJ': ('lmbd_s', 'mu_s', 'sigma_s'), 'rSVCJ': ('mu_s', 'sigma_s', 'rho_J')}[s]]
        y = ctx.real(s, getattr(m, s), *g, n, ns)
        pr = {'rSVVJ': o_1f, 'rSVIJ': svij_proc, 'rSVCJ': o_1f}[s](p)
        ev, x = events(p, 'vy' if s == 'rSVCJ' else 'v'), (p['v0'],)
    else:
        two, f, h = s.startswith('r2'), sampler(s), par['h']
        x, ev = ((p['v10'], p['v20']) if two else (p['v0'],)), ()
        yi, st = len(x), tuple(map(float, x)) if two else float(x[0])
        if s == 'r1FSV_iid':
            y = ctx.real(s, f, st, par, n, ns, h)
        else:
            y = np.array([ctx.real(s, f, st, par, 1, ns, h)[0] for _ in range(n)])
        pr = (o_2f if two else o_1f)(p, s.endswith('J'))
    y = np.asarray(y)
    c = [float(en.peval(md.y_cond(pr, a, p['h'], yi, ev), x + (F(0),))) for a in range(3)]
    var = c[2] - c[1] ** 2
    sd = math.sqrt(var)
    z = (y - c[1]) / sd
    judge_stat(ctx, f'{s}/rough/mean', z, 0.0, 0.0, 1, extra=.15)
    judge_stat(ctx, f'{s}/rough/var', z * z, 1.0, 1.0, 3, extra=.35)
    ctx.count('draws', n)
    ctx.count('rough_points')


def srd(ctx, task):
    m = I('mdl_srjd.euler')
    seed_module(m, ctx.rng)
    for _ in range(3):
        p = safe_point(ctx.rng, 0)
        par = fpar(p)
        v = np.array([ctx.real('rSRD', m.rSRD, par['v0'], par['h'], par['k'], par['theta'], par['sigma']) for _ in range(task['n'])])
        pr = md.srjd(p)
        mom = [en.peval(pr.flow({(i,): en.ONE}, p['h']), (p['v0'],)) for i in range(5)]
        for a in (1, 2, 3, 4):
            judge_stat(ctx, f'rSRD/v^{a}', v ** a, float(mom[a]), float(mom[a]), a)
        c = float(md.raw_to_central(mom[:4]))
        judge_stat(ctx, 'rSRD/c^3', (v - float(mom[1])) ** 3, c, c, 4)
        ctx.count('draws', task['n'])


def sums(ctx, task):
    """jump sums used by the recursion: exact"""
    m = I('mdl_svvj.euler')
    r = ctx.rng
    for _ in range(task['n']):
        nj = r.randint(0, 5)
        ts = sorted(r.randint(1, 31) / 32 for _ in range(nj))
        J = tuple(r.randint(1, 64) / 32 for _ in range(nj))
        t = r.choice([0, 1, r.randint(0, 32) / 32] + ts)
        k = r.randint(1, 64) / 16
        a = ctx.real('IZ', m.IZ, t, J, tuple(ts))
        b = ctx.real('IEZ', m.IEZ, t, J, tuple(ts), k)
        ra = sum(j for j, s in zip(J, ts) if s <= t)
        rb = sum(math.exp(k * s) * j for j, s in zip(J, ts) if s <= t)
        ctx.judge(abs(a - ra) <= 1e-12 * (1 + ra), 'IZ', f'IZ({t},{J},{ts}) = {a}, expected {ra}', nontrivial=f'{t}{J}' if nj else None)
        ctx.judge(abs(b - rb) <= 1e-12 * (1 + rb), 'IEZ', f'IEZ({t},{J},{ts},{k}) = {b}, expected {rb}')
        ctx.count('exact_sums', 2)
