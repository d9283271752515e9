"""Exported files: txt and csv reproduce the polynomial exactly"""
import csv
import os
import tempfile
from fractions import Fraction as F

from core import RealFailure
from subjects import SUBJECTS as SB, point

RULE = ('a case is (polynomial, format, file name form); polynomials are the real moments of every model and '
        'random ones covering the three csv layouts; the file is parsed back with a csv / literal parser and '
        'compared term by term; non-trivial = at least two terms')
MIN_EVALS, MIN_KEYS = 400, 100
REAL = [('1fsv.mom', 5), ('1fsv.cmom', 5), ('1fsvj.mom', 5), ('2fsv.mom', 3), ('2fsv.cmom', 3), ('2fsvj.mom', 3),
        ('1fsv.cov', 2), ('2fsv.cov', 2), ('1fsv.cond_cmom', 5), ('1fsv.cond_cmom.simplify3', 5), ('srjd.cond_mom', 5), ('srjd.cond_cmom', 5),
        ('srjd.mom', 5), ('srjd.cond2_mom', 5), ('srjd.cond2_cmom', 5), ('srjd.cond2_mom.IE', 5), ('svcj.cond_mom', 3),
        ('svcj.mom', 3), ('svcj.cmom', 3), ('svcj.cond2_mom', 4), ('svij.cond2_mom', 5), ('svvj.cond2_mom', 5),
        ('svvj.cond2_cmom', 5), ('svvj.cond2_cmom.simplify1', 5), ('cpp.mcpp', 8), ('ito.moment_v', 6)]


def tasks(tier, rng):
    q = tier == 'quick'
    out = [dict(name=f'real:{s}', s=s, hi=n if q else n + 1, w=n) for s, n in REAL]
    out += [dict(name=f'random{i}', i=i, n=60 if q else 400, w=2) for i in range(4)]
    return out


def read_txt(path):
    lines = open(path, encoding='utf-8').read().splitlines()
    out = []
    for ln in lines[1:]:
        k, v = ln.rsplit(': ', 1)
        a, b = v.strip('()').split(',')
        out.append((k, F(int(a), int(b))))
    return lines[0], out


def check_txt(ctx, P, key, nt):
    with tempfile.TemporaryDirectory() as d:
        for fn in ('m', 'm.txt', 'dir.v1/x', 'mom-h0.5', 'a.csv', 'my moments', ' x y.txt', 'μ(h=1)%'):
            p = os.path.join(d, fn)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            f = p if p.endswith('.txt') else p + '.txt'
            if fn == 'mom-h0.5':                # an older, longer file of the same name is replaced
                with open(f, 'w', encoding='utf-8') as g:
                    g.write('(9, 9, 9): (7,8)\n' * (3 * len(P) + 40))
            ctx.real(key + '/txt', P.write_to_txt, p)
            if not ctx.judge(os.path.isfile(f), key + '/txt/name', f'{fn}: file {os.path.basename(f)} not written'):
                continue
            title, got = read_txt(f)
            want = [(str(tuple(k)), F(v)) for k, v in P.items()]
            ctx.judge(sorted(got) == sorted(want), key + '/txt', f'{len(got)} lines do not reproduce {len(want)} terms', nontrivial=nt and nt + 'txt' + fn)
            ctx.judge(title.startswith(str(tuple(P.keyfor))), key + '/txt/title', title[:200])
            ctx.count('files_parsed')


def layout(kf, lev):
    """expected column names"""
    out = []
    for s in kf:
        if s == 'l_{1:n}':
            out += [f'l{j}' for j in range(1, lev + 1)]
        elif s == 'o_{1:n}':
            out += [f'o{j}' for j in range(1, lev + 1)]
        elif s in ('o_{2:n}', 'p_{2:n}', 'q_{2:n}'):
            out += [f'{s[0]}{j}' for j in range(2, lev + 1)]
        else:
            out.append(s)
    return out + ['num', 'den']


def flat(k, kf):
    out = []
    for e, s in zip(k, kf):
        if s in ('l_{1:n}', 'o_{1:n}', 'o_{2:n}', 'p_{2:n}', 'q_{2:n}'):
            out += list(e)
        else:
            out.append(e)
    return [str(x) for x in out]


def check_csv(ctx, P, key, nt):
    kf = tuple(P.keyfor)
    mixed = False
    lev = 0
    if 'l_{1:n}' in kf:
        i = kf.index('l_{1:n}')
        levels = {len(k[i]) for k in P}
        mixed = len(levels) > 1
        lev = next(iter(levels), 0)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'm.csv')
        if mixed:
            try:
                P.write_to_csv(f)
                ctx.judge(False, key + '/csv/mixed', 'terms of different summation levels were written to one csv')
            except Exception as e:              # noqa
                ctx.judge(True, key + '/csv/mixed', '', nontrivial=nt and nt + 'mixed')
            return
        names = ('m', 'm.csv', 'mom-h0.5', 'b.txt', 'dir.v1/x', 'my moments', ' x y.csv', 'μ(h=1)%')
        for fn in names:
            f = os.path.join(d, fn if fn.endswith('.csv') else fn + '.csv')
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if fn == 'mom-h0.5':
                with open(f, 'w', encoding='utf-8') as g:
                    g.write('9,9,9\n' * (3 * len(P) + 40))
            ctx.real(key + '/csv', P.write_to_csv, os.path.join(d, fn))
            if not ctx.judge(os.path.isfile(f), key + '/csv/name', f'{fn}: {os.path.basename(f)} not written'):
                continue
            rows = list(csv.reader(open(f, newline='', encoding='utf-8')))
            ctx.count('files_parsed')
            want = layout(kf, lev)
            ctx.judge(rows[0] == want, key + '/csv/title', f'{rows[0]} instead of {want}')
            ctx.judge(all(len(r) == len(want) for r in rows[1:]), key + '/csv/columns', f'a row has {[len(r) for r in rows[1:]][:5]} fields, title has {len(want)}')
            exp = sorted(flat(k, kf) + [str(F(v).numerator), str(F(v).denominator)] for k, v in P.items())
            ctx.judge(sorted(rows[1:]) == exp, key + '/csv', lambda: f'rows {rows[1:3]} expected {exp[:2]}', nontrivial=nt and nt + 'csv' + fn)
        ctx.judge(len([x for _, _, fs in os.walk(d) for x in fs]) == len(names) - 1, key + '/csv/files', 'other files were written')


def split(P):
    from ajdmom.poly import Poly
    kf = tuple(P.keyfor)
    if 'l_{1:n}' not in kf:
        return []
    i = kf.index('l_{1:n}')
    out = []
    for lev in sorted({len(k[i]) for k in P}):
        Q = Poly({k: v for k, v in P.items() if len(k[i]) == lev})
        Q.set_keyfor(kf)
        out.append((lev, Q))
    return out


def both(ctx, P, key):
    before = (dict(P.items()), tuple(P.keyfor))
    nt = f'{key}:{len(P)}' if len(P) > 1 else None
    check_txt(ctx, P, key, nt)
    check_csv(ctx, P, key, nt)
    for lev, Q in split(P):
        check_csv(ctx, Q, f'{key}/level{lev}', nt and f'{nt}L{lev}')
    ctx.judge((dict(P.items()), tuple(P.keyfor)) == before, key + '/mutates', 'writing changed the polynomial')


def run(ctx, task):
    try:
        if 's' in task:
            s = SB[task['s']]
            p = point(ctx.rng, 2)
            for a in s.args:
                if max(a) > task['hi']:
                    continue
                both(ctx, ctx.real(task['s'], s.poly, a, p), f'{task["s"]}{a}')
        else:
            from ajdmom.poly import Poly
            r = ctx.rng
            L2, L4 = ['l_{1:n}', 'o_{2:n}'], ['l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}']
            for it in range(task['n']):
                kind = r.choice([0, 2, 4])
                odd = r.choice(['a', 'a', 'a,b', '"q"', 'e^{-(n1*k1+n2*k2)h}', 'λ', "d'", 'x y'])
                pre = [f'{odd}{i}' for i in range(r.randint(0 if kind else 1, 4))]
                post = [f'b{i}' for i in range(r.randint(0, 3))]
                lev = r.randint(0, 4)
                kf = pre + {0: [], 2: L2, 4: L4}[kind] + post
                P = Poly()
                P.set_keyfor(kf)
                for _ in range(r.randint(0, 6) if r.random() < .9 else 300):
                    ri = lambda n: tuple(r.randint(-3, 9) for _ in range(n))
                    mid = {0: (), 2: (ri(lev), ri(max(lev - 1, 0))), 4: (ri(lev), ri(lev), ri(max(lev - 1, 0)), ri(max(lev - 1, 0)))}[kind]
                    P[ri(len(pre)) + mid + ri(len(post))] = F(r.randint(-10 ** 20, 10 ** 20) or 1, r.randint(1, 10 ** 15))
                both(ctx, P, f'random{kind}')
    except RealFailure:
        pass
