"""Samplers: size, finiteness, reproducibility, untouched arguments, exact degenerate paths"""
import math
import warnings

import numpy as np
from C26 import fpar, sampler, seed_module
from core import RealFailure
from subjects import I, point

RULE = ('a case is (sampler, parameter point, N, segments, jump list): hostile points (Feller condition violated, v0 = 0, '
        'rho = +-1, theta = 0, very short and long intervals, one segment, N = 0) and hostile jump lists (none, at time 0, '
        'at the end, tied, on segment boundaries); monitors check the returned array (type, shape, finiteness, support), '
        'arguments unchanged, same seed same path, and exact values where the path is deterministic; distinct = configuration')
MIN_EVALS, MIN_KEYS = 2000, 400
ASSUMPTIONS = ['sigma > 0, k > 0 wherever the exact chi-square transition divides by them']


def tasks(tier, rng):
    q = tier == 'quick'
    return [dict(name=f'{s}{i}', s=s, n=500 if q else 2500) for i in range(1 if q else 3)
            for s in ('r1FSV', 'r1FSV_iid', 'r1FSVJ', 'r2FSV', 'r2FSVJ', 'rSVVJ', 'rSVIJ', 'rSVCJ', 'rSRJD', 'rSRD')]


def arr(ctx, key, y, n, nt=None, **d):
    ok = isinstance(y, np.ndarray)
    ctx.judge(ok, f'{key}/type', f'not an array: {type(y).__name__}', **d)
    if not ok:
        return False
    ok = ctx.judge(y.shape == (n,), f'{key}/shape', lambda: f'shape {y.shape}, asked for {n}', **d)
    ctx.count('values_seen', int(y.size))
    return ctx.judge(ok and bool(np.isfinite(y).all()), f'{key}/finite', lambda: f'non-finite samples {y[:4]}', nontrivial=nt, **d)


def hostile(rng, nj):
    p = point(rng, nj, rng.choice(['generic', 'corner', 'corner']))
    par = fpar(p)
    if rng.random() < .25:
        par['sigma'] = par['sigma_v'] = par['sigma_v1'] = rng.choice([1.5, 4.0])
        par['sigma_v2'] = rng.choice([.3, 3.])
    if rng.random() < .15:
        par['rho'] = rng.choice([-1, 1, -1., 1., 0])
    return p, par


def srd_domain(s, par):
    """the exact chi-square transition needs sigma > 0 and theta > 0"""
    if s.startswith('rSR'):
        par['sigma'], par['theta'] = par['sigma'] or .25, par['theta'] or .25
    return par


def run(ctx, task):
    warnings.simplefilter('ignore')
    s, rng = task['s'], ctx.rng
    for _ in range(task['n']):
        try:
            (given if s[1] == 'S' else trajectory)(ctx, s, rng)
        except RealFailure:
            pass


def trajectory(ctx, s, rng):
    two, jumps = s.startswith('r2'), s.endswith('J')
    p, par = hostile(rng, 0)
    h = float(p['h']) * rng.choice([1, 1, 1, 20, 1e-3])
    if rng.random() < .1:
        par['theta'] = par['theta1'] = 0.0
    f = sampler(s)
    N, ns = rng.choice([0, 1, 2, 7, 40]), rng.choice([1, 2, 3, 10, 17])
    v0 = rng.choice([float(p['v0']), 0.0, 0])
    if two:
        v0 = rng.choice([(v0, float(p['v20'])), [v0, float(p['v20'])], (0, 0), np.array([v0, .25])])
    before, vb = dict(par), repr(v0)
    seed = rng.randrange(2 ** 31)
    np.random.seed(seed)
    seed_module(I(f.__module__.split('ajdmom.')[1]), rng)
    cfg = f'v0={vb} N={N} seg={ns} h={h:.4g} sigma={par["sigma"]} rho={par["rho"]} {p.get("corner", "")}'
    y = ctx.real(s, f, v0, par, N, ns, h)
    if not arr(ctx, s, y, N, nt=cfg if N else None, cfg=cfg, par=par):
        return
    ctx.judge(par == before and repr(v0) == vb, f'{s}/args', 'arguments were modified', cfg=cfg)
    if not hasattr(I(f.__module__.split('ajdmom.')[1]), 'rng'):
        np.random.seed(seed)
        y2 = ctx.real(s, f, v0, par, N, ns, h)
        ctx.judge(np.array_equal(y, y2), f'{s}/seed', 'same seed, same arguments, different path', cfg=cfg)
        if N > 2:
            y3 = ctx.real(s, f, v0, par, N, ns, h)
            alive = min(par['theta1'], par['theta2']) > 0 if two else par['theta'] > 0
            if alive and h > 1e-2 and ns > 1:
                ctx.judge(not np.array_equal(y, y3), f'{s}/fresh', 'a second call repeated the first path', cfg=cfg)
                ctx.judge(len(set(y[1:].tolist())) > 1, f'{s}/distinct', 'all samples are equal', cfg=cfg)
    # default arguments: 10 segments, unit interval
    if rng.random() < .3:
        np.random.seed(seed)
        a = ctx.real(s, f, v0, par, N)
        np.random.seed(seed)
        b = ctx.real(s, f, v0, par, N, 10, 1)
        ctx.judge(np.array_equal(a, b), f'{s}/default', 'defaults are not (10 segments, unit interval)')
    # no variance at all: the path is the drift plus the jumps
    q = dict(par, theta=0.0, theta1=0.0, theta2=0.0, sigma_j=0.0, mu_j=rng.choice([.375, -.625]))
    q['lambda'] = rng.choice([0.0, 1.5, 4.0])
    h = rng.choice([.5, 1, 1.25])
    y = ctx.real(s, f, (0.0, 0.0) if two else 0.0, q, 25, ns, h)
    if not arr(ctx, s, y, 25, cfg=f'zero variance h={h}'):
        return
    r = y - q['mu'] * h
    if not jumps:
        ctx.judge(bool((abs(r) < 1e-12).all()), f'{s}/drift', lambda: f'zero variance: samples {y[:3]} are not the drift {q["mu"] * h}', nontrivial=f'drift{q["mu"]}{h}{ns}')
    else:
        m = r / q['mu_j']
        ctx.judge(bool((abs(m - np.round(m)) < 1e-9).all() and (np.round(m) >= 0).all()), f'{s}/jumps',
                  lambda: f'zero variance, constant jumps {q["mu_j"]}: excess over the drift {r[:5]} is not a whole number of jumps', nontrivial=f'jumps{q["mu"]}{h}{ns}')
        if q['lambda'] == 0:
            ctx.judge(bool((abs(r) < 1e-12).all()), f'{s}/nojumps', 'jumps although the rate is zero')
        ctx.count('exact_jump_paths', 25)


def given(ctx, s, rng):
    m = I({'rSVVJ': 'mdl_svvj', 'rSVIJ': 'mdl_svij', 'rSVCJ': 'mdl_svcj', 'rSRJD': 'mdl_srjd', 'rSRD': 'mdl_srjd'}[s] + '.euler')
    for mm in (m, I('mdl_svvj.euler')):
        seed_module(mm, rng)
    nj = rng.choice([0, 1, 1, 2, 3, 5])
    p, par = hostile(rng, nj)
    srd_domain(s, par)
    T = float(p['h'])
    ns, n = rng.choice([1, 2, 3, 10]), rng.choice([0, 1, 2, 12])
    ts = sorted(rng.uniform(0, T) for _ in range(nj))
    kind = rng.choice(['random', 'end', 'start', 'tie', 'grid'])
    if nj:
        if kind == 'end':
            ts[-1] = T
        elif kind == 'start':
            ts[0] = 0.0
        elif kind == 'tie':
            ts[-1] = ts[0]
            ts.sort()
        elif kind == 'grid':
            ts = sorted((rng.randint(0, ns) * (T / ns)) for _ in range(nj))
            ts = [min(t, T) for t in ts]
    J = [rng.uniform(.05, 1.5) for _ in range(nj)]
    seq = rng.choice([tuple, list]) if s == 'rSRJD' else tuple
    J, ts = seq(J), seq(ts)
    v0 = rng.choice([par['v0'], 0.0])
    cfg = f'{kind} J={J} t={ts} T={T} v0={v0} seg={ns} n={n} sigma={par["sigma"]}'
    jb = (repr(J), repr(ts))
    call = lambda **k: caller(ctx, s, m, {**par, 'v0': v0, **k.get('q', {})}, k.get('T', T), k.get('J', J), k.get('t', ts), k.get('n', n), ns)
    if s == 'rSRD':
        x = call()
        ctx.judge(math.isfinite(x) and x >= 0, 'rSRD/support', lambda: f'{x}', nontrivial=cfg)
        ctx.judge(ctx.real('rSRD', m.rSRD, v0, 0.0, par['k'], par['theta'], par['sigma']) == v0, 'rSRD/zero', 'no time passes but the state moved')
        ctx.count('values_seen')
        return
    y = call()
    if not arr(ctx, s, y, n, nt=cfg if n else None, cfg=cfg):
        return
    ctx.judge((repr(J), repr(ts)) == jb, f'{s}/args', 'jump lists were modified', cfg=cfg)
    if n > 2 and ns > 1 and par['theta'] > 0:
        ctx.judge(len(set(y.tolist())) > 1, f'{s}/distinct', 'all samples are equal', cfg=cfg)
    if s == 'rSRJD':
        ctx.judge(bool((y >= 0).all()), f'{s}/support', lambda: f'negative variance {y}', cfg=cfg)
        if nj and ts[-1] == T:
            last = sum(j for j, t in zip(J, ts) if t == T)
            ctx.judge(bool((y >= last - 1e-12).all()), f'{s}/endjump', lambda: f'state {y} below the jump {last} at the end of the interval', cfg=cfg)
            ctx.count('exact_support')
        # the process started in one state, jump at time 0 = start higher (law), fast reversion: forgets
        z = caller(ctx, s, m, {**par, 'v0': v0, 'k': 60.0, 'sigma': .02, 'theta': .5}, 2.0, seq([.75]), seq([1.99999999]), 6, ns)
        ctx.judge(bool((abs(z - 1.25) < .12).all()), f'{s}/concentrated', lambda: f'nearly deterministic state {z[:3]} is not theta + jump = 1.25', nontrivial=f'conc{v0}')
        # almost no noise, any number of jumps: every sample follows the same deterministic path
        nj = rng.choice([0, 1, 2, 3, 4, 5, 6, 8])
        T2, k, th, w0 = rng.choice([.5, 1.25, 3.0]), rng.choice([.25, 1.0, 3.0]), rng.choice([.25, 1.0]), rng.uniform(.1, 2)
        t2 = sorted(rng.uniform(0, T2) for _ in range(nj))
        if nj > 1 and rng.random() < .3:
            t2[1] = t2[0]
        J2 = [rng.uniform(.05, 1.5) for _ in range(nj)]
        want = th + (w0 - th) * math.exp(-k * T2) + sum(j * math.exp(-k * (T2 - t)) for j, t in zip(J2, t2))
        z = caller(ctx, s, m, {**par, 'v0': w0, 'k': k, 'sigma': 1e-4, 'theta': th}, T2, seq(J2), seq(t2), 9, ns)
        if arr(ctx, s, z, 9, cfg='concentrated path'):
            ctx.judge(bool((abs(z - want) < 2e-3).all()), f'{s}/path', lambda: f'{nj} jumps {J2} at {t2}, v0={w0} k={k} theta={th} sigma=1e-4, T={T2}: samples {z[:4]}, path ends at {want}',
                      nontrivial=f'path{w0}{nj}')
            ctx.count('concentrated_paths', 9)
        return
    # deterministic corner: no variance before the end, jumps only at the end
    q = dict(v0=0.0, theta=0.0, sigma_s=0.0, lmbd_s=rng.choice([0.0, 2.0]))
    T2 = rng.choice([.5, 1.0, 1.25])
    nj2 = rng.choice([0, 1, 2])
    J2, t2 = tuple(J[:nj2]), (T2,) * len(J[:nj2])
    y = call(q=q, T=T2, J=J2, t=t2, n=15)
    if not arr(ctx, s, y, 15, cfg='deterministic'):
        return
    r = y - par['mu'] * T2
    tol = 1e-10 * (1 + sum(J2)) / min(1, par['k'])
    d = f'mu={par["mu"]} T={T2} J={J2} at the end'
    if s == 'rSVVJ':
        ctx.judge(bool((abs(r) < tol).all()), f'{s}/exact', lambda: f'{d}: excess over the drift {r[:3]}, expected 0', nontrivial=d)
    elif s == 'rSVCJ':
        want = sum(par['mu_s'] + par['rho_J'] * j for j in J2)
        ctx.judge(bool((abs(r - want) < tol).all()), f'{s}/exact', lambda: f'{d}: excess over the drift {r[:3]}, expected {want}', nontrivial=d)
    else:
        if par['mu_s'] == 0 or q['lmbd_s'] == 0:
            ok = bool((abs(r) < tol).all())
        else:
            k = r / par['mu_s']
            ok = bool((abs(k - np.round(k)) < 1e-7).all() and (np.round(k) >= 0).all())
        ctx.judge(ok, f'{s}/exact', lambda: f'{d}: excess over the drift {r[:3]} is not a whole number of price jumps {par["mu_s"]}', nontrivial=d)
    ctx.count('exact_paths', 15)


def caller(ctx, s, m, q, T, J, t, n, ns):
    f = getattr(m, s)
    if s == 'rSRD':
        return float(ctx.real(s, f, q['v0'], T, q['k'], q['theta'], q['sigma']))
    if s == 'rSRJD':
        return ctx.real(s, f, q['v0'], q['k'], q['theta'], q['sigma'], T, J, t, n)
    a = [q['v0'], q['mu'], q['k'], q['theta'], q['sigma'], q['rho'], T, J, t]
    b = {'rSVVJ': [], 'rSVIJ': [q['lmbd_s'], q['mu_s'], q['sigma_s']], 'rSVCJ': [q['mu_s'], q['sigma_s'], q['rho_J']]}[s]
    return ctx.real(s, f, *a, *b, n, ns)
