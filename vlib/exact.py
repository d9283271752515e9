"""Monitor for 'the derived formula equals the model moment': every Poly the real code returns
is (1) checked for the documented shape, (2) evaluated at 70 digits through its own keyfor and
compared with the moment computed from the SDE's generator, and (3) the documented float
function / poly2num result is compared with the same reference value."""
import random
from fractions import Fraction as F

import mpmath as mp
import subjects as sb
from core import RealFailure
from evalpoly import UnknownKeyfor, evaluate
from subjects import SUBJECTS, par_of, point

REL = mp.mpf(10) ** -40
FREL = 2e-11
RULE = ('a case is (function, orders, parameter point); parameter points are random dyadic rationals '
        '(generic) plus degenerate corners (rho in {0,+-1}, no jumps, v0 in {0,theta}, Feller violated, '
        'short interval, ...); non-trivial = the reference value is non-zero and the returned '
        'polynomial has at least one non-constant term, or the order is 0/1')


def shape(ctx, name, a, P):
    key = f'{name}{a}/shape'
    kf = getattr(P, 'keyfor', None)
    if not ctx.judge(kf is not None and isinstance(kf, (tuple, list)) and len(kf) > 0, key,
                     f'result has no keyfor: {type(P).__name__} keyfor={kf!r}'):
        return False
    bad = [K for K in P if not isinstance(K, tuple) or len(K) != len(kf)]
    if not ctx.judge(not bad, key, lambda: f'keys do not match keyfor {kf}: {bad[:2]}'):
        return False
    bad = [(K, v) for K, v in P.items() if isinstance(v, bool) or not isinstance(v, (int, F))]
    ctx.judge(not bad, key + '/exact', lambda: f'coefficients are not exact rationals: {bad[:2]}')
    return True


def fpar(p, rng):
    """float dictionary; integral values sometimes passed as ints (as the docs do, h = 1)"""
    d = par_of(p)
    if rng.random() < .3:
        for k, v in d.items():
            if isinstance(v, float) and v == int(v):
                d[k] = int(v)
    return d


def run_subject(ctx, name, args, npts, scalar_calls=1, full=True):
    s = SUBJECTS[name]
    for a in args:
        a = tuple(a)
        # independent of how tasks are grouped and of the run seed's position
        rng = random.Random(f'{name}{a}{ctx.rng.random()}')
        plan = []
        for i in range(npts):
            nj = jumps_at(s, a, i)
            plan.append(('generic' if i < max(len(s.jumps), (npts + 1) // 2) else 'corner', nj))
        if 'k1' in s.tags and sum(a) <= 5:
            plan += [(f'resonant {r}', s.jumps[0]) for r in sb.RATIOS[:3] + (rng.choice(sb.RATIOS[3:]),)]
        # every corner by itself at low orders, a rotating part of them above
        w = weight(name, a)
        c = [x.__name__ for x in sb.CORNERS]
        if w >= 30:
            o = sum((3 + i) * x for i, x in enumerate(a)) + rng.randrange(3)
            c = c[o % 3::3] if w < 90 else c[o % 8::8] if w < 800 else []
        plan += [(f'corner:{x}', jumps_at(s, a, i)) for i, x in enumerate(c)]
        # a busy interval, where the sums over tuples of jumps allow
        if len(s.jumps) > 1 and sum(a):
            nj = next((x for x in (13, 11, 9, 8, 7) if x ** sum(a) <= 2500), 0)
            if nj > max(s.jumps):
                plan += [('generic', nj), ('generic', nj - 1)]
        if s._call in (sb.withJ, sb.lastJ):
            plan.sort(key=lambda x: x[1])
        P = None
        Pj = None
        calls = 0
        if w < 12:
            scalar_calls = len(plan)
        for prof, nj in plan:
            p = point(rng, nj, prof)
            try:
                if P is None or (Pj != nj and s._call in (sb.withJ, sb.lastJ)):
                    P = ctx.real(f'{name}{a}', s.poly, a, p)
                    Pj = nj
                    ctx.count('polys_derived')
                    ctx.count('terms_seen', len(P))
                    if not shape(ctx, name, a, P):
                        break
                ref = s.expected(a, p)
                if abs(ref) < mp.mpf(10) ** -60:
                    ref = mp.mpf(0)
                env = s.env(p)
                try:
                    v, ab = evaluate(P, env)
                except ZeroDivisionError:
                    if 'formula' in s.tags:     # a formula without a float function: undefined there by its encoding
                        ctx.count('undefined_at_resonance')
                        continue
                    if not prof.startswith('resonant'):
                        raise
                    ctx.judge(False, f'{name}{a}/{prof}'.replace(', ', ',').replace(' ', '-'), f'{name}{a} has a vanishing denominator at k1:k2={prof[9:]}, '
                              f'the model moment there is {mp.nstr(ref, 12)}', point={k: str(x) for k, x in p.items()})
                    continue
                except (UnknownKeyfor, ValueError, TypeError, IndexError) as e:
                    ctx.judge(False, f'{name}{a}/malformed', f'{type(e).__name__}: {e}')
                    break
                nt = f'{name}{a}@{prof}{nj}:{mp.nstr(ref, 12)}' if (ref != 0 or sum(a) <= 1) else None
                pt = {k: str(x) for k, x in p.items()}
                ctx.judge(abs(v - ref) <= REL * (ab + abs(ref)) + mp.mpf(10) ** -60, f'{name}{a}/value',
                          lambda: f'{name}{a} [{prof}] formula gives {mp.nstr(v, 18)}, model moment is {mp.nstr(ref, 18)}',
                          nontrivial=nt, point=pt)
                ctx.count('formula_vs_model')
                if ref != 0 and len(P) > 1:
                    ctx.sample(f'{name}{a} {prof}: {len(P)} terms, value {mp.nstr(ref, 12)}')
                if not full:
                    continue
                par = fpar(p, rng)
                if s.scalar and s.spoint:
                    q = s.spoint(p)
                    ref, par = s.expected(a, q), fpar(q, rng)
                    ab = evaluate(P, s.env(q))[1]
                tol = FREL * (ab + abs(ref)) + mp.mpf(10) ** -30
                m = sb.I(s.mod)
                if s.scalar and hasattr(m, 'poly2num') and name not in NO_P2N:
                    x = ctx.real(f'{name}{a}/poly2num', m.poly2num, p2n_arg(name, m, P), par)
                    ctx.judge(num(x) and abs(mp.mpf(float(x)) - ref) <= tol, f'{name}{a}/poly2num',
                              lambda: f'{name}{a} [{prof}] poly2num gives {x!r}, model moment is {mp.nstr(ref, 15)}', point=pt)
                    ctx.count('poly2num_vs_model')
                if s.scalar and calls < scalar_calls:
                    calls += 1
                    x = ctx.real(f'{name}{a}/{s.scalar}', s.scal, a, par)
                    ctx.judge(num(x) and abs(mp.mpf(float(x)) - ref) <= tol, f'{name}{a}/{s.scalar}',
                              lambda: f'{s.scalar}{a} [{prof}] gives {x!r}, model moment is {mp.nstr(ref, 15)}', point=pt)
                    ctx.count('scalar_vs_model')
            except RealFailure:
                continue


NO_P2N = set()
P2N_OTHER = {'1fsv.cond_cmom'}      # poly2num takes a simplified form


def broken(p):
    """points outside the floats' comfortable range"""
    return p['h'] * max(p['k'], p['k1'], p['k2']) > 40


def p2n_arg(name, m, P):
    if name == '1fsv.cond_cmom':
        return m.simplify(P, 2)
    return P


def num(x):
    try:
        x = float(x)
    except Exception:           # noqa
        return False
    return x == x and abs(x) != float('inf')


def jumps_at(s, a, i):
    """number of jumps of the i-th point; few where a formula sums over all tuples of jumps"""
    ok = [x for x in s.jumps if len(s.jumps) == 1 or x ** sum(a) <= 1500 or x < 2] or [min(s.jumps)]
    return ok[i % len(ok)]


def weight(name, a):
    n = sum(a)
    base = 1
    if name.startswith('2fsv'):
        n = n * 1.7
    if 'cov' in name or 'moment_yy' in name:
        n = n * 1.25
    if name.startswith('svcj') and 'mom' in name:
        n = n * 1.5
    return base * 2.2 ** n


def build_tasks(names, tier, npts=(6, 10), deep_pts=4, chunk=60.):
    """group (subject,args) into tasks of comparable weight"""
    out = []
    for name in names:
        s = SUBJECTS[name]
        args = list(s.args) + (list(s.deep) if tier == 'thorough' else [])
        n = npts[1] if tier == 'thorough' else npts[0]
        n = max(n, len(s.jumps) * 2)
        cur, w = [], 0
        for a in sorted(args, key=lambda a: weight(name, a)):
            wa = weight(name, a)
            if cur and w + wa > chunk:
                out.append(dict(name=f'{name}#{len(out)}', subject=name, args=[list(x) for x in cur], npts=n, w=w))
                cur, w = [], 0
            cur.append(a)
            w += wa
        if cur:
            out.append(dict(name=f'{name}#{len(out)}', subject=name, args=[list(x) for x in cur], npts=n, w=w))
    return out


def run(ctx, task):
    big = max(weight(task['subject'], a) for a in task['args'])
    run_subject(ctx, task['subject'], task['args'], task['npts'], scalar_calls=2 if big < 100 else 1 if big < 300 else 0)
