"""Results depend on the arguments only: repeated, interleaved, concurrent and post-mutation calls"""
import os
import pickle
import threading
from fractions import Fraction as F

import exact
from core import RealFailure
from subjects import I, SUBJECTS as SB, par_of, point

RULE = ('a case is one call in a random history of calls (different functions, orders, jump counts and parameter '
        'sets, with the caller overwriting every returned object, failing calls in between, and 6 threads); the '
        'result is compared with the same call made first in a fresh process; non-trivial = the call was '
        'preceded by at least one other call')
MIN_EVALS, MIN_KEYS = 400, 150
FRESH_PROCESS = True          # every task starts in an interpreter of its own

GROUPS = {
    '1fsv': ['1fsv.mom', '1fsv.cmom', '1fsv.cov', '1fsv.moment_yy', '1fsv.cond_cmom', '1fsvj.mom', '1fsvj.cmom', '1fsvj.cov', '1fsv.cond_cmom.simplify2'],
    '2fsv': ['2fsv.mom', '2fsv.cmom', '2fsv.cov', '2fsvj.mom', '2fsvj.cmom', '2fsvj.cov', '2fsv.moment_yy'],
    'srjd': ['srjd.cond_mom', 'srjd.cond_cmom', 'srjd.mom', 'srjd.cmom', 'srjd.iez_mom', 'srjd.iez_cmom', 'srjd.ie_mom', 'srjd.ie_iez_mom',
             'srjd.ie_cmom', 'srjd.ie_iez_cmom', 'srjd.cond_mom.x', 'srjd.mom.unsimplified', 'srjd.cond_cmom.x'],
    'given': ['srjd.cond2_mom', 'srjd.cond2_cmom', 'srjd.cond2_mom.IE', 'svij.cond2_mom', 'svij.cond2_cmom', 'svvj.cond2_mom', 'svvj.cond2_cmom',
              'svcj.cond2_mom', 'svcj.cond2_cmom', 'svvj.cond2_cmom.simplify1', 'itocond.moment_IEII'],
    'svcj': ['svcj.cond_mom', 'svcj.cond_cmom', 'svcj.mom', 'svcj.cmom', 'svcj.mom.v_theta', 'svcj.ieziziz', 'svcj.ieii_ieziziz', 'svcj.cmom.nomu'],
    'blocks': ['ito.moment_IEII', 'ito.moment_v', 'itos.moment_IEI_IEII', 'cpp.mcpp', 'cpp.cmcpp', 'cpp.mnorm', 'itocond.moment_IEII'],
}
CAP = {'1fsv': 4, '2fsv': 3, 'srjd': 5, 'given': 4, 'svcj': 3, 'blocks': 5}


def tasks(tier, rng):
    q = tier == 'quick'
    out = []
    for g in list(GROUPS) + ['all']:
        for kind in ('history', 'threads', 'stampede'):
            if kind == 'stampede' and g == 'all':
                continue
            for i in range((2 if kind == 'history' else 1) if q else 4):
                out.append(dict(name=f'{kind}:{g}{i}', g=g, kind=kind, n=60 if q else 160, w=5 if g in ('2fsv', 'svcj', 'all') else 2))
    return out


def universe(g):
    out = []
    for gg in (GROUPS if g == 'all' else [g]):
        for s in GROUPS[gg]:
            cap = CAP[gg] - (1 if g == 'all' else 0)
            if gg == 'svcj' and ('ie' in s or 'theta' in s):
                cap = 4
            out += [(s, tuple(a)) for a in SB[s].args if sum(a) <= cap]
    return out


def digest(P):
    return (type(P).__name__, tuple(P.keyfor), frozenset(P.items()))


def fresh(calls):
    """make each call first in a forked child of this still-untouched process"""
    out = {}
    todo = list(calls)
    slots = []
    while todo or slots:
        while todo and len(slots) < 3:
            c = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        s, a, p = c
                        res = digest(SB[s].poly(a, p)), scalar(s, a, p)
                    except Exception as e:       # noqa
                        res = 'error', f'{type(e).__name__}: {e}'
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f)
                finally:
                    os._exit(0)
            os.close(w)
            slots.append((c, r, pid))
        c, r, pid = slots.pop(0)
        with os.fdopen(r, 'rb') as f:
            b = f.read()
        os.waitpid(pid, 0)
        out[ckey(c)] = pickle.loads(b) if b else ('error', 'no answer')
    return out


def ckey(c):
    s, a, p = c
    return s, a, repr(sorted(p.items(), key=lambda x: x[0]))


def scalar(s, a, p):
    sb = SB[s]
    if not sb.scalar:
        return None
    return sb.scal(a, par_of(p))


USES = {'1fsv': 'mu k theta sigma rho h v0', '1fsvj': 'mu k theta sigma rho h lambda mu_j sigma_j', '2fsv': 'mu k1 k2 theta1 theta2 sigma1 sigma2 h',
        '2fsvj': 'mu k1 k2 theta1 theta2 sigma1 sigma2 h lambda mu_j sigma_j', 'srjd': 'v0 k theta sigma h lmbd mu_v', 'svvj': 'v0 mu k theta sigma rho h',
        'svij': 'v0 mu k theta sigma rho h lmbd_s mu_s sigma_s', 'svcj': 'v0 mu k theta sigma rho h lmbd mu_v mu_s sigma_s rho_J'}


POS = {'k', 'theta', 'sigma', 'h', 'v0', 'lambda', 'sigma_j', 'k1', 'k2', 'theta1', 'theta2', 'sigma1', 'sigma2', 'lmbd', 'mu_v', 'lmbd_s', 'sigma_s'}


def near(rng, c):
    """the same call with one parameter changed by one part in 10^5 .. 10^13, or with the values of two exchanged"""
    s, a, p = c
    use = [x for x in USES.get(s.split('.')[0], 'k').split() if p[x]]
    pos = [x for x in use if x in POS]
    if len(pos) > 1 and rng.random() < .3:
        x, y = rng.sample(pos, 2)
        q = dict(p)
        q[x], q[y] = p[y], p[x]
        if len({q['k1'], q['k2'], q['k1'] * 2, q['k2'] * 2, q['k1'] * 3, q['k2'] * 3}) == 6:
            return s, a, q
    nm = rng.choice(use or ['k'])
    return s, a, dict(p, **{nm: p[nm] * (1 + F(1, 10 ** rng.choice([5, 7, 9, 11, 13, 13])))})


def run(ctx, task):
    rng = ctx.rng
    U = universe(task['g'])
    pts = [point(rng, nj) for nj in (2, 0, 3, 1, 2)]
    n = task['n'] if task['kind'] == 'history' else task['n'] // 2
    if task['kind'] == 'stampede':
        return stampede(ctx, task, U, pts)
    # every function of the group, each with some orders, each of those with several parameter sets
    subs = sorted({s for s, _ in U})
    picks = []
    while len(picks) < n * 2 // 3:
        rng.shuffle(subs)
        for s in subs:
            a = rng.choice([x for y, x in U if y == s])
            picks += [(s, a, p) for p in (pts if 'cond2' in s else rng.sample(pts, 2 if len(subs) < 8 else rng.randint(1, 2)))]
    picks = picks[:n] if task['kind'] == 'history' else rng.sample(picks, min(n, len(picks)))
    calls = picks + [rng.choice(picks) for _ in range(n - len(picks))]
    rng.shuffle(calls)
    if task['kind'] == 'history':                 # each followed now and then by a call that differs in the last digits only
        calls = [d for c in calls for d in ([c] + [near(rng, c)] if SB[c[0]].scalar and rng.random() < .5 else [c])]
    for s in {c[0] for c in calls}:
        I(SB[s].mod)
    ref = fresh({ckey(c): c for c in calls}.values())
    for k, v in ref.items():
        if v[0] == 'error':
            ctx.judge(False, f'{k[0]}{k[1]}/raised', v[1])
            return
    ctx.count('fresh_process_references', len(ref))
    if task['kind'] == 'threads':
        return threads(ctx, calls, ref)
    par = {}
    held = []
    last = None
    for i, c in enumerate(calls):
        s, a, p = c
        key = f'{s}{a}'
        want, wsc = ref[ckey(c)]
        try:
            P = ctx.real(key, SB[s].poly, a, p)
            d = digest(P)
            ctx.count('calls_in_history')
            ctx.judge(d == want, f'{key}/history', 'result differs from the first call in a fresh process', nontrivial=f'{key}@{i}' if i else None)
            # everything handed out earlier and left alone must still be what it was
            for (k0, P0, d0) in held[-6:]:
                ctx.judge(digest(P0) == d0, f'{k0}/changed', f'an earlier result changed during {key}')
            m = SB[s].scalar and I(SB[s].mod)
            if SB[s].scalar:
                par.clear()                       # one dictionary object, reused with new values
                par.update(par_of(p))
                before = dict(par)
                x = ctx.real(f'{key}/scalar', SB[s].scal, a, par)
                ctx.count('scalar_calls')
                ctx.judge(x == wsc or abs(x - wsc) <= 1e-8 * abs(wsc) + 1e-12, f'{key}/scalar', f'{x!r} after a history, {wsc!r} in a fresh process', nontrivial=f'{key}s@{i}')
                ctx.judge(par == before, f'{key}/par', 'the parameter dictionary was modified')
                if last and last[0] == (s, a) and last[1] == last[2] and wsc != last[2]:
                    ctx.count('near_calls')
                    ctx.judge(x != last[1], f'{key}/near', f'{x!r} again after one parameter changed slightly, {wsc!r} in a fresh process', nontrivial=f'{key}n@{i}')
                last = (s, a), x, wsc
                if hasattr(m, 'poly2num') and s not in ('1fsv.cond_cmom',):
                    ctx.real(f'{key}/poly2num', m.poly2num, P, par)
                    ctx.judge(par == before and digest(P) == want, f'{key}/p2n', 'poly2num modified its arguments')
            act = rng.random()
            if act < .6:                          # the caller destroys what it got
                for k in list(P)[:3]:
                    P[k] = 999
                P[('x',)] = 1
                P.set_keyfor(['broken'])
            elif act < .75:
                P.clear()
            else:
                held.append((key, P, d))
            if rng.random() < .2:                 # a failing call in between
                try:
                    SB[s].poly(tuple(-1 for _ in a), p)
                except Exception:                 # noqa
                    ctx.count('failing_calls')
            if rng.random() < .15 and SB[s].scalar:
                try:
                    SB[s].scal(a, {})
                except Exception:                 # noqa
                    ctx.count('failing_calls')
        except RealFailure:
            continue
    # list-returning functions hand out independent objects
    for mod, fn, args in (('mdl_1fsv.cond_cmom', 'cmoments_y_to', (4,)), ('mdl_svvj.cond2_cmom', 'cmoments_y_to', (4,)), ('mdl_svvj.cond2_mom', 'moments_y_to', (4,)),
                          ('mdl_svij.cond2_mom', 'moments_y_to', (3,)), ('mdl_svij.cond2_cmom', 'cmoments_y_to', (3,)),
                          ('mdl_svcj.cond2_mom', 'moments_y_to', (3, (.1, .2))), ('mdl_svcj.cond2_cmom', 'cmoments_y_to', (3, (.1, .2)))):
        if task['g'] not in ('given', 'all', '1fsv'):
            break
        f = getattr(I(mod), fn)
        try:
            A = ctx.real(f'{mod}.{fn}', f, *args)
            ds = [digest(x) for x in A]
            ctx.judge(len({id(x) for x in A}) == len(A), f'{mod}.{fn}/shared', 'two list entries are the same object')
            A[1][('y',)] = 5
            A[0].clear()
            del A[-1]
            B = ctx.real(f'{mod}.{fn}', f, *args)
            ctx.judge([digest(x) for x in B] == ds, f'{mod}.{fn}/history', 'second list differs after the first was changed', nontrivial=f'{mod}.{fn}')
        except RealFailure:
            pass


def stampede(ctx, task, U, pts):
    """several threads of an untouched process make their first calls of one function at the same moment"""
    import sys
    rng = ctx.rng
    for s in sorted({s for s, _ in U}):
        A = [a for y, a in U if y == s]
        for rep in range(3):
            p = rng.choice(pts)
            top = max(A, key=lambda a: (exact.weight(s, a), a))
            mine = [top] * 3 + [rng.choice(A) for _ in range(2)] if rep else [top] * 5
            I(SB[s].mod)
            ref = fresh({ckey((s, a, p)): (s, a, p) for a in mine}.values())
            if any(v[0] == 'error' for v in ref.values()):
                return
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                out = []
                try:
                    sys.setswitchinterval(1e-6)
                    bar = threading.Barrier(len(mine))

                    def work(a):
                        bar.wait()
                        try:
                            d = digest(SB[s].poly(a, p))
                        except Exception as e:       # noqa
                            d = f'{type(e).__name__}: {e}'
                        out.append((a, d))
                    ts = [threading.Thread(target=work, args=(a,)) for a in mine]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join()
                    for a in set(mine):              # and what the stampede leaves behind
                        try:
                            d = digest(SB[s].poly(a, p))
                        except Exception as e:       # noqa
                            d = f'{type(e).__name__}: {e}'
                        out.append((a, d))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                b = f.read()
            os.waitpid(pid, 0)
            if not b:
                raise RuntimeError('a stampede process died')
            ctx.count('stampedes')
            for a, d in pickle.loads(b):
                want = ref[ckey((s, a, p))][0]
                ctx.count('threaded_calls')
                ctx.judge(d == want, f'{s}{a}/stampede', lambda: d if isinstance(d, str) else 'differs from the same call made alone',
                          nontrivial=f'stampede{s}{a}#{rep}')


def threads(ctx, calls, ref):
    lock = threading.Lock()
    todo = list(enumerate(calls))
    bad = []
    done = []

    def work():
        while True:
            with lock:
                if not todo:
                    return
                i, c = todo.pop()
            try:
                P = SB[c[0]].poly(c[1], c[2])
                d = digest(P)
                x = scalar(*c)
                P.clear()
            except Exception as e:               # noqa
                bad.append((c, f'{type(e).__name__}: {e}'))
                continue
            want, wsc = ref[ckey(c)]
            if d != want or not (x == wsc or abs(x - wsc) <= 1e-8 * abs(wsc) + 1e-12):
                bad.append((c, 'result differs from the sequential one'))
            done.append((i, c))
    import sys
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work) for _ in range(6)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for i, c in done:
        ctx.count('threaded_calls')
        ctx.judge(True, '', '', nontrivial=f'thread{c[0]}{c[1]}@{i}')
    for c, msg in bad:
        ctx.judge(False, f'{c[0]}{c[1]}/threads', msg)
