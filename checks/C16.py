"""SVVJ: moments given initial variance and variance jumps; simplified and classified forms"""
import os
import tempfile
from fractions import Fraction as F

import exact
import mpmath as mp
from core import RealFailure
from evalpoly import UnknownKeyfor, evaluate
from subjects import I, SUBJECTS as SB, point

RULE = exact.RULE + ('; classification cases are (order, form): the sub-polynomials are summed and '
                     'compared with the model moment, and files written for them are parsed back')
MIN_EVALS, MIN_KEYS = 150, 40
SUBJECTS = ['svvj.cond2_mom', 'svvj.cond2_cmom', 'svvj.cond2_cmom.simplify0', 'svvj.cond2_cmom.simplify1']


def tasks(tier, rng):
    out = exact.build_tasks(SUBJECTS, tier)
    for n in range(1, 6 if tier == 'quick' else 7):
        out.append(dict(name=f'classify{n}', n=n, w=2 ** n))
    return out


def run(ctx, task):
    if 'subject' in task:
        return exact.run(ctx, task)
    n = task['n']
    m = I('mdl_svvj.cond2_cmom')
    try:
        P = ctx.real(f'svvj.cmom({n})', m.cmoment_y, n)
        for tp in (0, 1):
            Q = ctx.real(f'simplify({n},{tp})', m.simplify, P, tp)
            subs = ctx.real(f'classify({n},{tp})', m.classify, Q)
            ctx.count('classified', len(subs))
            key = f'classify/{n}/{tp}'
            levels = []
            for i, s in enumerate(subs):
                if not exact.shape(ctx, key, i, s):
                    return
                kf = s.keyfor
                lev = {len(k[6]) for k in s} if 'l_{1:n}' in kf else {0}
                ctx.judge(len(lev) <= 1, key, f'sub-poly {i} mixes summation levels {lev}')
                levels += list(lev) if s else []
            ctx.judge(levels == sorted(set(levels)), key, f'levels {levels} not distinct and ascending')
            ctx.judge(sum(map(len, subs)) == len(Q), key, 'sub-polys do not partition the terms')
            for prof in ('generic', 'generic', 'corner', 'corner'):
                for nj in (0, 1, 2, 3):
                    p = point(ctx.rng, nj, prof)
                    sb = SB['svvj.cond2_cmom']
                    ref, env = sb.expected((n,), p), sb.env(p)
                    tot, ab = mp.mpf(0), mp.mpf(0)
                    for s in subs:
                        v, a = evaluate(s, env)
                        tot, ab = tot + v, ab + a
                    ctx.judge(abs(tot - ref) <= exact.REL * (ab + abs(ref)) + mp.mpf(10) ** -60, key,
                              lambda: f'sum of classified parts {mp.nstr(tot, 15)}, model {mp.nstr(ref, 15)}',
                              nontrivial=f'{key}@{nj}{mp.nstr(ref, 10)}')
        # a poly whose summation levels are not consecutive is classified as well
        from ajdmom.poly import Poly
        Q = m.simplify(P, 0)
        for drop in (0, 1):
            G = Poly({k: v for k, v in Q.items() if len(k[6]) != drop})
            G.set_keyfor(Q.keyfor)
            subs = ctx.real(f'classify({n})/gap', m.classify, G)
            want = sorted({len(k[6]) for k in G})
            got = [(len(next(iter(s))[6]) if 'l_{1:n}' in s.keyfor else 0) for s in subs if len(s)]
            ctx.judge(got == want and sum(map(len, subs)) == len(G), f'classify/{n}/gap', f'levels {got}, expected {want}')
        # written files hold exactly the classified terms
        cwd = os.getcwd()
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            try:
                ctx.real(f'write_to_subpolys({n})', m.write_to_subpolys, P, n)
                files = sorted(os.listdir(d))
                got = []
                for f in files:
                    lines = open(f, encoding='utf-8').read().splitlines()
                    got += lines[1:]
                ctx.count('files_parsed', len(files))
                Q = m.simplify(P, 0)
                ctx.judge(len(got) == len(Q), f'subpolys/{n}', f'{len(got)} terms written, {len(Q)} expected')
                ctx.judge(files == [f'svvj-cond-cmoment-{n}-formula-{i}.txt' for i in range(len(files))], f'subpolys/{n}/names',
                          f'{files}')
                want = {}
                for k, v in Q.items():
                    kk = tuple(k[:6] + k[10:]) if len(k[6]) == 0 else tuple(k)
                    want[str(kk)] = v
                for ln in got:
                    k, v = ln.rsplit(': ', 1)
                    a, b = v.strip('()').split(',')
                    if not ctx.judge(k in want and want.pop(k) == F(int(a), int(b)), f'subpolys/{n}', f'unexpected line {ln}'):
                        break
            finally:
                os.chdir(cwd)
    except RealFailure:
        return
    except (UnknownKeyfor, ValueError, TypeError, IndexError) as e:
        ctx.judge(False, f'classify/{n}/malformed', f'{type(e).__name__}: {e}')
