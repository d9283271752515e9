"""Runner: executes monitored workloads on the real code and turns what the monitors saw
into a verdict (0 held / 1 violation / 2 no verdict), evidence and replay files."""
import argparse
import collections
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
# CPU seconds one task may burn before it counts as non-terminating; wall seconds for a whole quick run; and how long
# a run goes on after it has seen a violation that is not listed
CPU_LIMIT = {'quick': 400, 'thorough': 1500}
WALL_LIMIT = {'quick': 820, 'thorough': 10800}
GRACE = 45
MEM_LIMIT = 6 << 30


class RealFailure(Exception):
    """the real code raised on a call inside its documented domain"""


class CpuTimeout(BaseException):
    pass


def setup_paths():
    for p in (SRC, os.path.join(VERIF, 'vlib'), os.path.join(VERIF, 'checks')):
        if p not in sys.path:
            sys.path.insert(0, p)


class Ctx:
    """what one task's monitors recorded"""

    def __init__(self, check, task, seed, tier):
        self.check, self.task, self.tier = check, task, tier
        h = hashlib.sha256(f'{check}|{task["name"]}|{seed}'.encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], 'big'))
        self.evals = 0
        self.keys = set()
        self.events = collections.Counter()
        self.viol = []
        self.samples = []

    def count(self, ev, n=1):
        self.events[ev] += n

    def violate(self, key, msg, **data):
        if sum(1 for v in self.viol if v['key'] == key) < 3:
            self.viol.append({'key': key, 'msg': str(msg)[:600], 'task': self.task,
                              'data': {k: str(v)[:600] for k, v in data.items()}})

    def judge(self, ok, key, msg, nontrivial=None, **data):
        """one oracle decision about one observed behaviour"""
        self.evals += 1
        if nontrivial is not None:
            self.keys.add(str(nontrivial))
        if not ok:
            self.violate(key, msg() if callable(msg) else msg, **data)
        return ok

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def real(self, key, fn, *a, **k):
        """call into the code under test; an exception on a documented input is a violation"""
        try:
            return fn(*a, **k)
        except Exception as e:                                  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f'{os.path.basename(f.filename)}:{f.name}' for f in reversed(tb)
                          if '/ajdmom/' in f.filename), '?')
            self.evals += 1
            self.violate(key + '/raised', f'{type(e).__name__}: {e} at {where}', call=f'{getattr(fn, "__name__", fn)}{a}')
            raise RealFailure from e

    def must_raise(self, key, exc, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except exc:
            return self.judge(True, key, '')
        except Exception as e:                                  # noqa
            return self.judge(False, key, f'expected {exc}, got {type(e).__name__}: {e}', call=f'{getattr(fn, "__name__", fn)}{a}')
        return self.judge(False, key, f'expected {exc}, got a value {str(r)[:120]}', call=f'{getattr(fn, "__name__", fn)}{a}')


def _alarm(*_):
    raise CpuTimeout()


def _init(nice=False):
    setup_paths()
    sys.setrecursionlimit(5000)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    signal.signal(signal.SIGVTALRM, _alarm)


def _one(check, task, seed, tier):
    ctx = Ctx(check, task, seed, tier)
    t0 = time.time()
    internal = None
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1)
    try:
        sys.stdout.flush()
        os.dup2(devnull, 1)                      # the code under test prints progress lines
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT[tier])
        mod = importlib.import_module(check)
        mod.run(ctx, task)
    except RealFailure:
        pass
    except CpuTimeout:
        ctx.violate('nontermination', f'task did not finish within {CPU_LIMIT[tier]} s of CPU time')
    except MemoryError:
        ctx.violate('memory', f'task needed more than {MEM_LIMIT >> 30} GiB')
    except BaseException as e:                   # noqa
        frames = traceback.extract_tb(e.__traceback__)
        inside = [f for f in frames if os.path.realpath(f.filename).startswith(os.path.realpath(SRC))]
        if isinstance(e, AttributeError) and "module 'ajdmom" in str(e) and not inside:
            ctx.count('helper_not_present')      # an internal helper is gone: nothing to observe here
        elif isinstance(e, Exception) and (inside or frames[-1].name in ('evaluate', 'fz_direct', 'rec')
                                           or type(e).__name__ == 'UnknownKeyfor'):
            ctx.evals += 1
            where = f'{os.path.basename(inside[-1].filename)}:{inside[-1].name}' if inside else 'reading the returned formula'
            ctx.violate(f'{task["name"]}/raised', f'{type(e).__name__}: {e} ({where})')
        else:
            internal = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.stdout.flush()
        os.dup2(saved, 1)
        os.close(saved)
        os.close(devnull)
    return dict(task=task, evals=ctx.evals, keys=list(ctx.keys), events=dict(ctx.events), viol=ctx.viol,
                samples=ctx.samples, internal=internal, wall=time.time() - t0)


def _alone(procs, *args):
    """run one task in an interpreter of its own"""
    p = subprocess.Popen([sys.executable, '-c', 'import sys; sys.path.insert(0, sys.argv[1]); import core; core.child()', os.path.join(VERIF, 'vlib')],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    procs.append(p)
    out = p.communicate(pickle.dumps(args))[0]
    if p.returncode or not out:
        raise RuntimeError(f'process of {args[1]["name"]} ended with code {p.returncode}')
    return pickle.loads(out)


def child():
    args = pickle.loads(sys.stdin.buffer.read())
    out = os.dup(1)
    os.dup2(2, 1)
    _init()
    with os.fdopen(out, 'wb') as f:
        pickle.dump(_one(*args), f)
    os._exit(0)


def load_known():
    known = {}
    try:
        for line in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
            line = line.strip()
            if line.startswith('finding: '):
                d = dict(x.split('=', 1) for x in line[9:].split(' ', 2)[:2])
                known[(d['property'], d['key'])] = line.split(' ', 3)[-1]
    except FileNotFoundError:
        pass
    return known


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    setup_paths()
    t0 = time.time()
    if not os.path.isdir(os.path.join(SRC, 'ajdmom')):
        print(f'INCONCLUSIVE property={a.check}: no {SRC}/ajdmom')
        return 2
    if a.replay:
        rp = json.load(open(a.replay))
        a.seed, a.tier = rp['seed'], rp['tier']
        tasks = [rp['task']]
    mod = importlib.import_module(a.check)
    if not a.replay:
        tasks = mod.tasks(a.tier, random.Random(a.seed))
    tasks.sort(key=lambda t: -t.get('w', 0))
    results, internal, apart = [], [], []
    if getattr(mod, 'FRESH_PROCESS', False):
        ex = cf.ThreadPoolExecutor(a.jobs)
        run = lambda *x: ex.submit(_alone, apart, *x)
    else:
        ex = cf.ProcessPoolExecutor(a.jobs, mp_context=mp.get_context('fork'), initializer=_init)
        run = lambda *x: ex.submit(_one, *x)
    known = load_known()
    seen_new, stopped = None, None
    futs = [run(a.check, t, a.seed, a.tier) for t in tasks]
    todo = set(futs)
    try:
        while todo:
            done, todo = cf.wait(todo, timeout=5, return_when=cf.FIRST_COMPLETED)
            for f in done:
                try:
                    results.append(f.result())
                except BaseException as e:      # noqa  (a worker died)
                    internal.append(f'worker died: {type(e).__name__}: {e}')
                    continue
                if any((a.check, v['key']) not in known for v in results[-1]['viol']):
                    seen_new = seen_new or time.time()
            if todo and seen_new and time.time() - seen_new > GRACE:
                stopped = 'violation'
            elif todo and time.time() - t0 > WALL_LIMIT[a.tier]:
                stopped = 'time'
            if stopped:
                break
    finally:
        procs = (apart or list((ex._processes or {}).values())) if stopped else []
        ex.shutdown(wait=not stopped, cancel_futures=True)
        for pr in procs:
            pr.kill()
    results.sort(key=lambda r: r['task']['name'])
    internal += [r['internal'] for r in results if r['internal']]
    evals = sum(r['evals'] for r in results)
    keys = set().union(*[set(r['keys']) for r in results]) if results else set()
    ev = collections.Counter()
    for r in results:
        ev.update(r['events'])
    new, old = [], {}
    for r in results:
        for v in r['viol']:
            if (a.check, v['key']) in known:
                old[v['key']] = v
            else:
                new.append(v)
    samples = [s for r in results for s in r['samples']]
    random.Random(a.seed).shuffle(samples)
    cov = dict(evaluations=evals, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples[:8],
               monitor_events=dict(sorted(ev.items())), tasks=len(tasks), tasks_finished=len(results), stopped_early=stopped,
               known_findings_seen=sorted(old))
    evd = dict(property=a.check, tier=a.tier, seed=a.seed, level='exploration', coverage=cov,
               assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2),
               violations=len(new))
    if not a.replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.check + '.json'), 'w') as f:
            json.dump(evd, f, indent=1, default=str)
            f.write('\n')
    for k, v in sorted(old.items()):
        print(f'KNOWN-FINDING: property={a.check} key={k} {known[(a.check, k)]}')
    if a.verbose:
        for r in sorted(results, key=lambda r: -r['wall'])[:12]:
            print(f'  {r["wall"]:7.2f}s {r["task"]["name"]} evals={r["evals"]}')
    rc = 0
    if new:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        seen = set()
        for v in new:
            if v['key'] in seen or len(seen) >= 12:
                continue
            seen.add(v['key'])
            path = os.path.join(VERIF, 'replay', f'{a.check}-{len(seen)}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=a.check, seed=a.seed, tier=a.tier, **v), f, indent=1, default=str)
            print(f'VIOLATION property={a.check} replay={path} key={v["key"]} {v["msg"]} {json.dumps(v["data"])[:700]}')
        rc = 1
    elif internal:
        print(f'INCONCLUSIVE property={a.check}: harness error')
        print(internal[0])
        rc = 2
    elif stopped == 'time':
        print(f'INCONCLUSIVE property={a.check}: {len(results)} of {len(tasks)} tasks finished in {WALL_LIMIT[a.tier]} s')
        rc = 2
    elif not a.replay and (evals < getattr(mod, 'MIN_EVALS', 1) or len(keys) < getattr(mod, 'MIN_KEYS', 1)):
        print(f'INCONCLUSIVE property={a.check}: only {evals} evaluations / {len(keys)} distinct cases')
        rc = 2
    print(f'{a.check} {a.tier} seed={a.seed}: {"VIOLATED" if rc == 1 else "held" if rc == 0 else "no verdict"} '
          f'({evals} judgements, {len(keys)} distinct cases, {len(tasks)} tasks, {time.time() - t0:.1f} s)')
    return rc
