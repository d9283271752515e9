"""Published encoding: documented symbols, exact terms, same formula in every process, documented examples"""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from fractions import Fraction as F

import exact
from core import SRC, VERIF, RealFailure
from C17 import WRT
from subjects import SUBJECTS as SB, I, par_of, point

RULE = ('a case is (function, orders): the symbols of the returned formula are the documented ones in the documented order, every '
        'term has one exponent per symbol and an exact rational coefficient; the '
        'digest of the formula is the same in processes with other hash seeds and import orders; the examples of the '
        'documentation give the printed results; every module runs as a program; distinct = function x orders x process')
MIN_EVALS, MIN_KEYS = 1500, 500
KF = json.load(open(os.path.join(VERIF, 'vlib', 'keyfors.json')))


def tasks(tier, rng):
    q = tier == 'quick'
    out = [dict(name=f'encoding:{s}', kind='encoding', s=s, w=exact.weight(s, max(SB[s].args, key=sum)) / 500) for s in SB]
    out += [dict(name=f'process:{i}', kind='process', s=i, n=60 if q else 150, w=9) for i in range(4 if q else 10)]
    out += [dict(name='examples', kind='examples', s='', w=2), dict(name='exports', kind='exports', s='', w=1), dict(name='scripts', kind='scripts', s='', w=1)]
    mods = sorted(os.path.relpath(os.path.join(d, f), SRC)[:-3].replace(os.sep, '.') for d, _, fs in os.walk(os.path.join(SRC, 'ajdmom'))
                  for f in fs if f.endswith('.py') and f != '__init__.py')
    out += [dict(name=f'program:{m}', kind='program', s=m, w=8 if 'svcj' in m else 0) for m in mods]
    return out


def run(ctx, task):
    try:
        globals()[task['kind']](ctx, task['s'], task)
    except RealFailure:
        pass


MAYBE_ZERO = ('mu', 'theta', 'sigma', 'sigma_v', 'rho', 'lambda', 'mu_j', 'sigma_j', 'lmbd', 'mu_v', 'mu_s', 'sigma_s', 'rhoJ', 'rho_J', 'h', 't', 'lmbd_s',
              'v0-theta', 'v_0-theta', 'v0', 'v_0', 'E[v]', 'v0-E[v]', 'theta1', 'theta2', 'sigma_v1', 'sigma_v2', 'sqrt(1-rho^2)', 'lambda*h', 'sigma/2k', 'rho-sigma/2k', 'v_{n-1}',
              'v_{1,n-1}', 'v_{2,n-1}', 'mu-theta/2', 'beta_t', 'sigma^2')


def encoding(ctx, s, task):
    p = point(ctx.rng, 2)
    for a in SB[s].args:
        if exact.weight(s, a) > (260 if ctx.tier == 'quick' else 2000):
            continue
        key = f'{s}{a}'
        P = ctx.real(key, SB[s].poly, a, p)
        if not exact.shape(ctx, key, (), P):
            continue
        ctx.judge(list(P.keyfor) == KF[s], f'{key}/keyfor', lambda: f'symbols {tuple(P.keyfor)} are not the documented {tuple(KF[s])}', nontrivial=key)
        ctx.count('formulas')
        ctx.count('terms', len(P))
        bad = []
        for K in P:
            for x, sym in zip(K, P.keyfor):
                if isinstance(x, tuple):
                    ok = all(isinstance(y, (int, tuple)) for y in x)
                else:
                    ok = isinstance(x, int) and not isinstance(x, bool)
                if not ok:
                    bad.append((sym, x))
            if 'l_{1:n}' in P.keyfor:
                i = P.keyfor.index('l_{1:n}')
                if P.keyfor[i + 1] == 'o_{1:n}':
                    n = len(K[i])
                    if (len(K[i + 1]), len(K[i + 2]), len(K[i + 3])) != (n, max(n - 1, 0), max(n - 1, 0)):
                        bad.append(('jump sums', K[i:i + 4]))
                elif len(K[i + 1]) != max(len(K[i]) - 1, 0):
                    bad.append(('jump sums', K[i:i + 2]))
        ctx.judge(not bad, f'{key}/terms', lambda: f'malformed terms {bad[:3]}')
        negative(ctx, key, P)
        m, _, f = s.partition('.')
        if m in WRT and f in ('mom', 'cmom', 'cov'):
            for wrt in WRT[m]:
                D = ctx.real(f'{key}/d{wrt}', I(f'mdl_{m}.{f}').dpoly, P, wrt)
                if not exact.shape(ctx, f'{key}/d{wrt}', (), D):
                    continue
                ctx.judge(tuple(D.keyfor) == tuple(P.keyfor), f'{key}/d{wrt}/keyfor', lambda: f'symbols {tuple(D.keyfor)} of the derivative are not the documented {tuple(P.keyfor)}',
                          nontrivial=f'{key}/d{wrt}' if len(D) else None)
                negative(ctx, f'{key}/d{wrt}', D)
                ctx.count('derivative_formulas')


def negative(ctx, key, P):
    """powers of quantities that may be zero are never negative, whatever the coefficient: 0 * 0**-1 is no number"""
    for j, sym in enumerate(P.keyfor):
        if sym in MAYBE_ZERO:
            neg = [K for K in P if K[j] < 0]
            ctx.judge(not neg, f'{key}/negative/{sym}', lambda: f'negative power of {sym}: {neg[:2]}')


PROG = r'''
import sys, json, random, hashlib, os
sys.path[:0] = [%(src)r, %(vlib)r]
sys.setrecursionlimit(5000)
from subjects import SUBJECTS as SB, I, par_of, point
jobs = json.load(sys.stdin)
out = []
for s, a, seed in jobs:
    p = point(random.Random(seed), 2)
    so = sys.stdout; sys.stdout = open(os.devnull, 'w')
    try:
        P = SB[s].poly(tuple(a), p)
        x = SB[s].scal(tuple(a), par_of(p)) if SB[s].scalar else None
    except Exception as e:
        P = None; x = type(e).__name__
    sys.stdout = so
    t = sorted((repr(K), str(v)) for K, v in P.items() if v != 0) if P is not None else []
    out.append([hashlib.sha256(repr((list(P.keyfor) if P is not None else None, t)).encode()).hexdigest()[:20], x if not hasattr(x, 'dtype') else float(x)])
print(json.dumps(out))
'''


def process(ctx, i, task):
    rng = ctx.rng
    U = [(s, a) for s in SB for a in SB[s].args if exact.weight(s, a) < 60 and not (sum(a) == 0 and 'cond2_cmom' in s)]
    jobs = [(s, list(a), rng.randrange(10 ** 6)) for s, a in (rng.choice(U) for _ in range(task['n']))]
    res = []
    src = PROG % dict(src=SRC, vlib=os.path.join(VERIF, 'vlib'))
    for hs in ('0', str(rng.randrange(1, 10 ** 9)), str(rng.randrange(1, 10 ** 9))):
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE='1')
        js = jobs if hs == '0' else rng.sample(jobs, len(jobs))
        r = subprocess.run([sys.executable] + (['-O'] if hs != '0' and rng.random() < .5 else []) + ['-c', src], input=json.dumps(js), env=env, capture_output=True, text=True, timeout=600, cwd='/')
        if r.returncode:
            raise RuntimeError(r.stderr[-800:])
        res.append({json.dumps(j): o for j, o in zip(js, json.loads(r.stdout))})
        ctx.count('processes')
    for j in jobs:
        k = json.dumps(j)
        A, B, C = (r[k] for r in res)
        ctx.judge(A[0] == B[0] == C[0], f'process/{j[0]}{j[1]}', 'the formula depends on the process it is derived in', nontrivial=f'{j[0]}{j[1]}#{i}')

        def close(x, y):
            return x == y or (isinstance(x, float) and isinstance(y, float) and abs(x - y) <= 1e-9 * (1 + abs(x)))
        ctx.judge(close(A[1], B[1]) and close(A[1], C[1]), f'process/float/{j[0]}{j[1]}', f'values {A[1]} {B[1]} {C[1]} in three processes')
        ctx.judge(not isinstance(A[1], str), f'process/raised/{j[0]}{j[1]}', f'{A[1]}')


COV21 = '''(0,0,3,0,1,2,0,2):-1/4 (0,0,3,0,1,2,2,0):-5/4 (0,0,4,0,1,3,1,0):3/4 (0,0,5,0,1,4,0,0):-1/8 (0,1,2,0,2,1,1,0):1/2
(0,1,2,1,1,1,1,0):-1 (0,1,3,0,2,2,0,0):-1/8 (0,1,3,1,1,2,0,0):1/4 (1,0,3,0,1,2,0,2):1/2 (1,0,3,0,1,2,2,0):5/2 (1,0,4,0,1,3,1,0):-3/2
(1,0,5,0,1,4,0,0):1/4 (1,1,2,0,1,2,2,0):1 (1,1,2,0,2,1,1,0):-1 (1,1,2,1,1,1,1,0):2 (1,1,3,0,1,3,1,0):-3/4 (1,1,3,0,2,2,0,0):1/4
(1,1,3,1,1,2,0,0):-1/2 (1,1,4,0,1,4,0,0):1/8 (2,0,3,0,1,2,0,2):-1/4 (2,0,3,0,1,2,2,0):-5/4 (2,0,4,0,1,3,1,0):3/4 (2,0,5,0,1,4,0,0):-1/8
(2,1,2,0,1,2,2,0):-1 (2,1,2,0,2,1,1,0):1/2 (2,1,2,1,1,1,1,0):-1 (2,1,3,0,1,3,1,0):3/4 (2,1,3,0,2,2,0,0):-1/8 (2,1,3,1,1,2,0,0):1/4
(2,1,4,0,1,4,0,0):-1/8'''


def nz(P):
    return {k: F(v) for k, v in P.items() if v != 0}


def examples(ctx, _, task):
    import importlib
    m = importlib.import_module('ajdmom.mdl_1fsv')
    kf = ('e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)')
    P = ctx.real('moment_y', m.moment_y, 1)
    ctx.judge(nz(P) == {(0, 1, 0, 0, 1, 0, 0, 0): F(-1, 2), (0, 1, 0, 1, 0, 0, 0, 0): F(1)} and tuple(P.keyfor) == kf, 'example/moment_y(1)', lambda: f'{P}', nontrivial='ex1')
    want = {}
    for t in COV21.split():
        k, v = t.split(':')
        want[tuple(map(int, k.strip('()').split(',')))] = F(v)
    P = ctx.real('cov_yy', m.cov_yy, 2, 1)
    ctx.judge(nz(P) == want and tuple(P.keyfor) == kf, 'example/cov_yy(2,1)', lambda: f'{P}', nontrivial='ex2')
    par = {'mu': 0.125, 'k': 0.1, 'theta': 0.25, 'sigma_v': 0.1, 'rho': -0.7, 'h': 1}
    M, C = I('mdl_1fsv.mom'), I('mdl_1fsv.cov')
    for nm, f, k, v, tol in (('m', M.m, dict(l=3, par=par), -0.04489260315929133, 1e-9), ('dm', M.dm, dict(l=3, par=par, wrt='k'), 0.20556366585696395, 1e-7),
                             ('cov', C.cov, dict(l1=2, l2=2, par=par), 0.0149529894520537, 1e-7), ('dcov', C.dcov, dict(l1=2, l2=2, par=par, wrt='k'), -0.15904979864793667, 1e-5)):
        x = ctx.real(nm, f, **k)
        ctx.judge(abs(x - v) < tol, f'example/{nm}', f'{nm} gives {x}, documented {v}', nontrivial=f'ex{nm}')
        ctx.count('documented_examples')


def exports(ctx, _, task):
    import importlib
    a = importlib.import_module('ajdmom')
    for m in ('mdl_1fsv', 'mdl_1fsvj', 'mdl_2fsv', 'mdl_2fsvj'):
        pk = importlib.import_module('ajdmom.' + m)
        for fn, sub, args in (('moment_y', 'mom', (2,)), ('cmoment_y', 'cmom', (3,)), ('cov_yy', 'cov', (1, 2)), ('moment_yy', 'cov', (2, 1))):
            P = ctx.real(f'{m}.{fn}', getattr(pk, fn), *args)
            Q = ctx.real(f'{m}.{sub}.{fn}', getattr(I(f'{m}.{sub}'), fn), *args)
            ctx.judge(nz(P) == nz(Q) and P.keyfor == Q.keyfor, f'export/{m}.{fn}', 'the package-level name is another function', nontrivial=f'{m}{fn}')
    for fn, sub in (('cmoment_y', 'cond2_cmom'), ('moment_y', 'cond2_mom')):
        pk = importlib.import_module('ajdmom.mdl_svvj')
        P, Q = ctx.real(fn, getattr(pk, fn), 3), ctx.real(fn, getattr(I('mdl_svvj.' + sub), fn), 3)
        ctx.judge(nz(P) == nz(Q) and P.keyfor == Q.keyfor, f'export/mdl_svvj.{fn}', 'the package-level name is another function', nontrivial=f'svvj{fn}')
    for fn, sub, args in (('mcpp', 'cpp_mom', (3,)), ('cmcpp', 'cpp_mom', (3,)), ('moment_v', 'ito_mom', (3,)), ('moment_IEI_IEII', 'itos_mom', (1, 1, 0, 0, 1))):
        P, Q = ctx.real(fn, getattr(a, fn), *args), ctx.real(fn, getattr(I(sub), fn), *args)
        ctx.judge(nz(P) == nz(Q) and P.keyfor == Q.keyfor, f'export/{fn}', 'the package-level name is another function', nontrivial=fn)
    ctx.judge(a.Poly is I('poly').Poly, 'export/Poly', 'Poly is not the exported class')
    m = I('mdl_1fsv.cond_cmom')
    A, B = ctx.real('show', m.cmoments_y_to, 5, show=True), ctx.real('show', m.cmoments_y_to, 5)
    ctx.judge([nz(x) for x in A] == [nz(x) for x in B], 'export/show', 'printing progress changes the result', nontrivial='show1')
    m = I('mdl_svvj.cond2_cmom')
    A, B = ctx.real('show', m.cmoments_y_to, 5, show=True), ctx.real('show', m.cmoments_y_to, 5)
    ctx.judge([nz(x) for x in A] == [nz(x) for x in B], 'export/show2', 'printing progress changes the result', nontrivial='show2')


def program(ctx, m, task):
    d = tempfile.mkdtemp(prefix='verif-c33-')
    try:
        env = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, '-W', 'ignore', '-m', m], cwd=d, env=env, capture_output=True, text=True, timeout=600)
        ctx.judge(r.returncode == 0 and 'Traceback' not in r.stderr, f'program/{m}', lambda: f'exit {r.returncode}: {r.stderr[-300:]}', nontrivial=m)
        ctx.count('programs_run')
    finally:
        shutil.rmtree(d)


def scripts(ctx, _, task):
    """the documented example scripts run and print the documented formulas"""
    want = {}
    for t in COV21.split():
        k, v = t.split(':')
        want[tuple(map(int, k.strip('()').split(',')))] = F(v)
    kf = "('e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)')"
    d = tempfile.mkdtemp(prefix='verif-c33-')
    try:
        for f, ref in (('usage', None), ('example1', {(0, 1, 0, 0, 1, 0, 0, 0): F(-1, 2), (0, 1, 0, 1, 0, 0, 0, 0): F(1)}), ('example2', want)):
            path = os.path.join(os.path.dirname(SRC), 'scripts', f + '.py')
            if not os.path.exists(path):
                continue
            env = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE='1')
            r = subprocess.run([sys.executable, '-W', 'ignore', path], cwd=d, env=env, capture_output=True, text=True, timeout=600)
            ctx.judge(r.returncode == 0, f'scripts/{f}', lambda: f'exit {r.returncode}: {r.stderr[-300:]}', nontrivial=f)
            if ref is not None:
                t = r.stdout
                got = None
                if '{' in t and '}\n' in t:
                    try:
                        got = eval(t[t.index('{'):t.index('}\n') + 1], {'Fraction': F})
                    except Exception as e:
                        got = repr(e)
                ctx.judge(got == ref and kf in t, f'scripts/{f}/output', lambda: f'printed {t[:400]}', nontrivial=f + 'out')
            ctx.count('scripts_run')
    finally:
        shutil.rmtree(d)
