"""Polynomial container: ring laws, isolation of operands, type safety, and an in-situ
homomorphism monitor on every operation the real derivations perform"""
import random
from fractions import Fraction as F

import core
from core import RealFailure
from subjects import I, SUBJECTS as SB, point

RULE = ('random cases: (operation, operand polynomials) over 1-5 variables with negative exponents, cancelling '
        'terms, empty operands and self-operands, decided against an independent dictionary implementation; '
        'in-situ cases: every add/sub/mul/merge/mul_poly/rmul/pow executed inside a real derivation, decided '
        'by evaluating operands and result at random points modulo a 61-bit prime; non-trivial = at least one '
        'operand has two or more terms')
MIN_EVALS, MIN_KEYS = 3000, 500
MOD = (1 << 61) - 1
INSITU = [('1fsv.mom', (4,)), ('1fsvj.mom', (4,)), ('1fsv.cov', (2, 2)), ('2fsv.mom', (3,)), ('2fsvj.cov', (1, 2)),
          ('svcj.cond_mom', (3,)), ('svcj.mom', (3,)), ('svcj.cond2_mom', (3,)), ('svij.cond2_mom', (4,)),
          ('svvj.cond2_mom', (4,)), ('svvj.cond2_cmom', (4,)), ('srjd.cond2_mom', (5,)), ('srjd.mom', (5,)),
          ('srjd.ie_iez_mom', (3, 3)), ('srjd.cond_cmom', (5,)), ('1fsv.cond_cmom', (5,)), ('cpp.mcpp', (8,)),
          ('svcj.ieii_ieziziz', (2, 1, 0, 1, 1, 0)), ('svcj.ieziziz', (2, 2, 2)), ('svcj.cmom', (3,)),
          ('1fsv.cmom', (5,)), ('2fsv.cmom', (3,)), ('svij.cond2_cmom', (4,)), ('svcj.cond2_cmom', (3,))]


def tasks(tier, rng):
    q = tier == 'quick'
    out = [dict(name=f'rand{i}', i=i, n=400 if q else 1500, w=3) for i in range(8 if q else 24)]
    for s, a in INSITU:
        out.append(dict(name=f'insitu:{s}{a}', s=s, a=list(a), w=4))
        if not q:
            out.append(dict(name=f'insitu+:{s}{a}', s=s, a=[a[0] + 1] + list(a[1:]), w=9))
    out.append(dict(name='types', types=1, w=1))
    return out


# ---------------------------------------------------------------- reference arithmetic
def clean(d):
    return {k: v for k, v in d.items() if v != 0}


def radd(a, b, s=1):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + s * v
    return clean(d)


def rmul(a, b):
    d = {}
    for k, v in a.items():
        for l, w in b.items():
            e = tuple(x + y for x, y in zip(k, l))
            d[e] = d.get(e, 0) + v * w
    return clean(d)


def rand_poly(rng, nv, Poly, kf, maxterms=6):
    P = Poly()
    P.set_keyfor(kf)
    big = rng.random()
    for _ in range(rng.randint(0, maxterms)):
        k = tuple(rng.randint(-2, 3) if rng.random() < .7 else 0 for _ in range(nv))
        v = F(rng.randint(-4, 4) or 1, rng.randint(1, 5))
        if big < .15:                           # coefficients no float can tell apart, or from zero
            v = v * F(10) ** rng.choice([-40, -20, -15, -12, -9, -6, 6, 12, 20, 40]) + rng.randint(0, 1)
        elif big < .3:                          # plain integers
            v = rng.randint(-4, 4) or 1
        if rng.random() < .05:
            k = tuple(x * rng.choice([1, 11, 60]) for x in k)
        P[k] = v
    return P


def same(P, d, kf):
    return dict(P.items()) == d and tuple(P.keyfor) == tuple(kf)


def snap(P):
    return dict(P.items()), tuple(P.keyfor)


def run_random(ctx, task):
    from ajdmom.poly import Poly, kv
    rng = ctx.rng
    for it in range(task['n']):
        nv = rng.randint(1, 5) if rng.random() < .9 else rng.randint(6, 22)
        kf = [f'x{i}' for i in range(nv)]
        A, B, C = (rand_poly(rng, nv, Poly, kf, 6 if rng.random() < .95 else 30) for _ in range(3))
        mode = rng.random()
        if mode < .1:
            B = A
        elif mode < .25:                       # B cancels part of A
            B = Poly({k: (-v if rng.random() < .7 else v) for k, v in A.items()})
            B.set_keyfor(kf)
        elif mode < .3:
            A.update({(9,) * nv: F(0)})        # explicit zero term in an operand
        a, b = clean(dict(A)), clean(dict(B))
        before = snap(A), snap(B)
        nt = f'{len(A)},{len(B)},{sorted(A.items())[:2]},{sorted(B.items())[:2]}' if max(len(A), len(B)) > 1 else None
        ops = {'add': (lambda: A + B, radd(a, b)), 'sub': (lambda: A - B, radd(a, b, -1)), 'mul': (lambda: A * B, rmul(a, b))}
        c = rng.choice([0, 1, -1, 3, F(2, 7), F(-5, 3)])
        ops['rmul'] = (lambda: c * A, clean({k: v * c for k, v in a.items()}))
        n = rng.randint(1, 4) if len(A) > 4 or rng.random() < .8 else rng.randint(5, 12)
        ref = a
        for _ in range(n - 1):
            ref = rmul(ref, a)
        if (9,) * nv not in A:
            ops[f'pow{n}'] = (lambda: A ** n, ref)
        for nm, (op, ref) in ops.items():
            R = ctx.real(f'poly/{nm}', op)
            ok = isinstance(R, Poly) and same(R, ref, kf)
            ctx.judge(ok, f'poly/{nm}', lambda: f'{dict(A)} {nm} {dict(B)} -> {dict(R)}, expected {ref}', nontrivial=nt)
            ctx.judge((snap(A), snap(B)) == before, f'poly/{nm}/operand', 'an operand was modified')
            ctx.count('op_' + nm.rstrip('0123456789'))
            if isinstance(R, Poly):            # the result is isolated from its operands
                for k in list(R)[:2]:
                    R[k] = F(10 ** 6 + 3)
                R[(77,) * nv] = F(1)
                R.set_keyfor(['changed'] * nv)
                if not ctx.judge((snap(A), snap(B)) == before, f'poly/{nm}/alias', 'changing the result changed an operand'):
                    A.set_keyfor(kf)
                    B.set_keyfor(kf)
                    break
        # distributivity and associativity of the real operators
        L, R = A * (B + C), A * B + A * C
        ctx.judge(dict(L) == dict(R), 'poly/distributive', 'a(b+c) != ab+ac')
        ctx.judge(dict((A * B) * C) == dict(A * (B * C)), 'poly/associative', '(ab)c != a(bc)')
        ctx.judge(dict(A * B) == dict(B * A), 'poly/commutative', 'ab != ba')
        ctx.judge(not dict(A - A), 'poly/cancel', 'a-a not empty')
        # merge is in place, and leaves the other operand alone
        M = Poly(A)
        M.set_keyfor(kf)
        other = M if rng.random() < .15 else B
        ref = radd(a, a if other is M else b)
        ctx.real('poly/merge', M.merge, other)
        ctx.judge(same(M, ref, kf) and snap(B) == before[1] and snap(A) == before[0], 'poly/merge',
                  lambda: f'merge gives {dict(M)}, expected {ref}', nontrivial=nt)
        # mul_poly with index mapping
        nw = rng.randint(1, 4)
        kf2 = [f'y{i}' for i in range(nw)]
        D = rand_poly(rng, nw, Poly, kf2)
        N = rng.randint(max(nv, nw), nv + nw)
        i1 = list(range(nv)) + [-1] * (N - nv)
        i2 = list(range(nw)) + [-1] * (N - nw)
        rng.shuffle(i1)
        rng.shuffle(i2)
        d = clean(dict(D))
        ref = {}
        for k, v in dict(A).items():
            for l, w in d.items():
                e = tuple((k[x] if x >= 0 else 0) + (l[y] if y >= 0 else 0) for x, y in zip(i1, i2))
                ref[e] = ref.get(e, 0) + v * w
        kfn = [f'z{i}' for i in range(N)]
        R = ctx.real('poly/mul_poly', A.mul_poly, D, (i1, i2), kfn)
        ctx.judge(same(R, clean(ref), kfn) and (snap(A), snap(B)) == before, 'poly/mul_poly',
                  lambda: f'{dict(R)} expected {clean(ref)}', nontrivial=nt)
        # symbols that stand for lists, as in sums over jumps: tuple exponents
        ka = kf[:rng.randint(0, nv)] + ['l_{1:n}', 'o_{2:n}'] + kf[:rng.randint(0, 2)]
        T, U = Poly(), Poly()
        for Q in (T, U):
            Q.set_keyfor(ka)
            for _ in range(rng.randint(0, 6)):
                lev = rng.randint(0, 3)
                Q[tuple(tuple(rng.randint(0, 1) for _ in range(max(lev - (s[0] == 'o'), 0))) if '{' in s else rng.randint(0, 1) for s in ka)] = F(rng.randint(1, 3) * rng.choice([1, -1]), rng.randint(1, 2))
        tu = dict(T), dict(U)
        for nm, op, ref in (('add', lambda: T + U, radd(*tu)), ('sub', lambda: T - U, radd(*tu, -1)), ('rmul', lambda: c * T, clean({k: v * c for k, v in tu[0].items()}))):
            R = ctx.real(f'poly/{nm}/lists', op)
            ctx.judge(same(R, ref, ka) and (dict(T), dict(U)) == tu, f'poly/{nm}/lists', lambda: f'{dict(R)} instead of {ref}')
        T.merge(U)
        ctx.judge(same(T, radd(*tu), ka) and dict(U) == tu[1], 'poly/merge/lists', lambda: f'{dict(T)}')
        # operands over other symbols are refused by every operation, whatever they contain
        alt = list(kf)
        how = rng.choice(['reverse', 'rotate', 'rename', 'longer', 'shorter', 'case', 'space'])
        alt = {'reverse': alt[::-1], 'rotate': alt[1:] + alt[:1], 'rename': alt[:-1] + ['w'], 'longer': alt + ['w'], 'shorter': alt[:-1],
               'case': [x.upper() for x in alt], 'space': alt[:-1] + [alt[-1] + ' ']}[how]
        if alt != kf:
            W = rand_poly(rng, len(alt), Poly, alt)
            if rng.random() < .3 and len(alt) == nv:
                W.update(dict(A))
            pair = (A, W) if rng.random() < .5 else (W, A)
            snaps = snap(pair[0]), snap(pair[1])
            for nm, op in (('add', lambda: pair[0] + pair[1]), ('sub', lambda: pair[0] - pair[1]), ('mul', lambda: pair[0] * pair[1]), ('merge', lambda: pair[0].merge(pair[1]))):
                try:
                    r = op()
                    ctx.judge(False, f'types/{nm}/{how}', f'symbols {kf} and {alt} combined into {r}')
                except (NotImplementedError, TypeError):
                    ctx.judge(True, '', '', nontrivial=f'types/{nm}/{how}{nv}')
                if not ctx.judge((snap(pair[0]), snap(pair[1])) == snaps, f'types/{nm}/{how}', 'an operand changed by a rejected operation'):
                    break
        # add_keyval / remove_zero
        G = Poly()
        G.set_keyfor(kf)
        acc = {}
        for _ in range(rng.randint(1, 8)):
            k = tuple(rng.randint(0, 1) for _ in range(nv))
            v = F(rng.randint(-2, 2), rng.randint(1, 2))
            G.add_keyval(k, v)
            acc[k] = acc.get(k, 0) + v
        ctx.judge(dict(G) == acc, 'poly/add_keyval', lambda: f'{dict(G)} vs {acc}')
        G.remove_zero()
        ctx.judge(dict(G) == clean(acc), 'poly/remove_zero', lambda: f'{dict(G)} vs {clean(acc)}')


def run_types(ctx):
    from ajdmom.poly import Poly
    A = Poly({(1, 0): F(1), (0, 2): F(3)})
    A.set_keyfor(['a', 'b'])
    B = Poly({(1, 0): F(1)})
    B.set_keyfor(['a', 'c'])
    C = Poly({(1, 0, 0): F(1)})
    C.set_keyfor(['a', 'b', 'c'])
    D = Poly({(1, 0): F(1)})
    for nm, o in (('other-keyfor', B), ('longer', C), ('unset', D), ('int', 3), ('dict', {(1, 0): 1}), ('none', None)):
        for op, f in (('add', lambda o: A + o), ('sub', lambda o: A - o), ('mul', lambda o: A * o), ('merge', lambda o: A.merge(o))):
            before = snap(A)
            try:
                r = f(o)
                ctx.judge(False, f'types/{op}/{nm}', f'incompatible operands accepted, result {r}')
            except (NotImplementedError, TypeError):
                ctx.judge(True, '', '', nontrivial=f'types/{op}/{nm}')
            ctx.judge(snap(A) == before, f'types/{op}/{nm}', 'operand changed by a rejected operation')
        ctx.judge(not A.is_exact_type(o), f'types/exact/{nm}', 'is_exact_type says compatible')
    E = Poly({(5, 5): F(2)})
    E.set_keyfor(('a', 'b'))
    ctx.judge(A.is_exact_type(E) and dict(A + E) == {(1, 0): 1, (0, 2): 3, (5, 5): 2}, 'types/compatible', 'list/tuple keyfor')
    for n in (0, -1, -3):
        ctx.must_raise('types/pow', NotImplementedError, lambda: A ** n)


# ---------------------------------------------------------------- in-situ monitor
class Monitor:
    def __init__(self, ctx, Poly):
        self.ctx, self.Poly, self.depth = ctx, Poly, 0
        self.rng = random.Random(20240601)
        self.res = {}
        self.saved = {}

    def r(self, i):
        if i not in self.res:
            self.res[i] = self.rng.randrange(2, MOD - 1)
        return self.res[i]

    def val(self, items, res):
        t = 0
        for k, v in items:
            x = v.numerator * pow(v.denominator, MOD - 2, MOD) if isinstance(v, F) else v
            for i, e in enumerate(k):
                if e:
                    x = x * pow(res(i), e % (MOD - 1), MOD) % MOD
            t += x
        return t % MOD

    @staticmethod
    def numeric(items):
        return all(isinstance(e, int) for k, _ in items for e in k)

    def install(self):
        P = self.Poly
        mon = self

        def wrap(nm, check):
            orig = getattr(P, nm)
            mon.saved[nm] = orig

            def w(self, *a, **kw):
                if mon.depth or kw:
                    return orig(self, *a, **kw)
                mon.depth = 1
                try:
                    s = list(self.items())
                    kf = tuple(self.keyfor)
                    o = list(a[0].items()) if a and isinstance(a[0], P) else None
                    out = orig(self, *a, **kw)
                    mon.ctx.count('insitu_' + nm.strip('_'))
                    R = self if nm == 'merge' else out
                    if nm != 'merge':
                        mon.ctx.judge(list(self.items()) == s and tuple(self.keyfor) == kf, f'insitu/{nm}/operand', 'left operand changed')
                    if o is not None and a[0] is not self:
                        mon.ctx.judge(list(a[0].items()) == o, f'insitu/{nm}/operand', 'right operand changed')
                    if nm != '__pow__':
                        mon.ctx.judge(all(v != 0 for v in R.values()), f'insitu/{nm}/zero', 'result keeps a zero term')
                    if len(s) * len(o or [0]) <= 4000 and mon.numeric(s) and mon.numeric(o or []):
                        mon.ctx.judge(check(mon, s, o, a, R, kf), f'insitu/{nm}', 'result is not the image of the operands',
                                      nontrivial=f'{nm}:{len(s)}:{len(o or [])}:{hash((tuple(s[:2]), tuple((o or [])[:2])))}'
                                      if max(len(s), len(o or [])) > 1 else None)
                    return out
                finally:
                    mon.depth = 0
            setattr(P, nm, w)
        V = lambda m, it: m.val(it, m.r)
        wrap('__add__', lambda m, s, o, a, R, kf: (V(m, s) + V(m, o) - V(m, list(R.items()))) % MOD == 0 and tuple(R.keyfor) == kf)
        wrap('merge', lambda m, s, o, a, R, kf: (V(m, s) + V(m, o) - V(m, list(R.items()))) % MOD == 0 and tuple(R.keyfor) == kf)
        wrap('__sub__', lambda m, s, o, a, R, kf: (V(m, s) - V(m, o) - V(m, list(R.items()))) % MOD == 0 and tuple(R.keyfor) == kf)
        wrap('__mul__', lambda m, s, o, a, R, kf: (V(m, s) * V(m, o) - V(m, list(R.items()))) % MOD == 0 and tuple(R.keyfor) == kf)
        wrap('__pow__', lambda m, s, o, a, R, kf: (pow(V(m, s), a[0], MOD) - V(m, list(R.items()))) % MOD == 0 and tuple(R.keyfor) == kf)

        def rm(m, s, o, a, R, kf):
            c = F(a[0])
            c = c.numerator * pow(c.denominator, MOD - 2, MOD)
            return (V(m, s) * c - V(m, list(R.items()))) % MOD == 0 and tuple(R.keyfor) == kf
        wrap('__rmul__', rm)

        def mp_(m, s, o, a, R, kf):
            if len(a) < 3:
                return True
            i1, i2 = a[1]

            def res(ix):
                def f(j):
                    x = 1
                    for i, t in enumerate(ix):
                        if t == j:
                            x = x * m.r(i) % MOD
                    return x
                return f
            return ((m.val(s, res(i1)) * m.val(o, res(i2)) - V(m, list(R.items()))) % MOD == 0
                    and tuple(R.keyfor) == tuple(a[2]))
        wrap('mul_poly', mp_)

    def remove(self):
        for nm, f in self.saved.items():
            setattr(self.Poly, nm, f)


def run(ctx, task):
    try:
        if 'types' in task:
            return run_types(ctx)
        if 'i' in task:
            return run_random(ctx, task)
        from ajdmom.poly import Poly
        s = SB[task['s']]
        I(s.mod)
        p = point(ctx.rng, 2)
        m = Monitor(ctx, Poly)
        m.install()
        try:
            ctx.real(f'{task["s"]}{task["a"]}', s.poly, tuple(task['a']), p)
        finally:
            m.remove()
    except RealFailure:
        pass
