"""Reference model: exact moments of polynomial jump-diffusions.

Every process ajdmom handles (Heston-type models, square-root jump diffusions and the
stochastic integrals attached to them) is a *polynomial process*: its generator maps a
polynomial of the state to a polynomial of no higher (weighted) degree.  Hence
f -> E[f(X_t) | X_0 = x] acts on a finite dimensional space of polynomials as exp(tA), and
every conditional or unconditional moment is one action of a matrix exponential.

The engine knows nothing about ajdmom's derivation (integrals of exponentials, recursions
over Ito integrals, combinatorial expansions); it only knows the SDE.  Arithmetic is
fixed-point integer arithmetic with PREC fractional bits.
"""
from fractions import Fraction as Frac
from math import comb, factorial

PREC = 420
ONE = 1 << PREC
_TINY = 1 << 24          # stop Taylor terms below 2^(24-PREC)


def fx(q):
    """rational/int -> fixed point"""
    q = Frac(q)
    return (q.numerator << PREC) // q.denominator


def fmul(a, b):
    return (a * b) >> PREC


def to_frac(a):
    return Frac(a, ONE)


def unit(n, i, p=1):
    e = [0] * n
    e[i] = p
    return tuple(e)


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def below(a):
    """all exponent tuples b with 0 <= b <= a"""
    if not a:
        yield ()
        return
    for r in below(a[1:]):
        for i in range(a[0] + 1):
            yield (i,) + r


def mcomb(a, b):
    r = 1
    for x, y in zip(a, b):
        r *= comb(x, y)
    return r


class Process:
    """names: state variables; drift[i], cov[(i,j)] (i<=j): dict exps->Fraction;
    jumps: list of (rate, M) with M(exps) = E[prod DeltaX_i^exps_i] (Fraction)."""

    def __init__(self, names, drift, cov, jumps=()):
        self.names = list(names)
        self.n = len(names)
        self.drift = drift
        self.cov = cov
        self.jumps = list(jumps)
        self._A = {}

    # generator applied to a monomial, exact rationals
    def gen(self, a):
        r = self._A.get(a)
        if r is not None:
            return r
        n, out = self.n, {}

        def acc(e, c):
            if c:
                out[e] = out.get(e, 0) + c
        for i in range(n):
            if a[i] >= 1 and i in self.drift:
                base = sub(a, unit(n, i))
                for e, c in self.drift[i].items():
                    acc(add(base, e), a[i] * c)
        for (i, j), p in self.cov.items():
            if i == j:
                if a[i] >= 2:
                    base = sub(a, unit(n, i, 2))
                    for e, c in p.items():
                        acc(add(base, e), Frac(a[i] * (a[i] - 1), 2) * c)
            else:
                if a[i] >= 1 and a[j] >= 1:
                    base = sub(sub(a, unit(n, i)), unit(n, j))
                    for e, c in p.items():
                        acc(add(base, e), a[i] * a[j] * c)
        for rate, M in self.jumps:
            if rate == 0:
                continue
            for b in below(a):
                if any(b):
                    m = M(b)
                    if m:
                        acc(sub(a, b), rate * mcomb(a, b) * m)
        out = {e: c for e, c in out.items() if c}
        self._A[a] = out
        return out

    def _closure(self, monos):
        seen, todo = {}, list(monos)
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            g = self.gen(a)
            seen[a] = [(e, fx(c)) for e, c in g.items()]
            todo.extend(e for e in g if e not in seen)
        return seen

    def flow(self, f, t):
        """E[f(X_t)|X_0=x] as polynomial of x; f: dict exps->fixed; t: Fraction >= 0"""
        if t == 0:
            return dict(f)
        gens = self._closure(f.keys())
        tf = fx(t)
        res = dict(f)
        term = dict(f)
        n = 0
        small = 0
        while True:
            n += 1
            nxt = {}
            for a, c in term.items():
                if c == 0:
                    continue
                for e, g in gens[a]:
                    nxt[e] = nxt.get(e, 0) + ((c * g) >> PREC)
            term = {}
            mx = 0
            for e, c in nxt.items():
                c = ((c * tf) >> PREC) // n
                if c:
                    term[e] = c
                    res[e] = res.get(e, 0) + c
                    if abs(c) > mx:
                        mx = abs(c)
            if mx < _TINY:
                small += 1
                if small >= 3:
                    break
            else:
                small = 0
            if n > 20000:
                raise RuntimeError('engine: Taylor series did not converge')
        return {e: c for e, c in res.items() if c}

    def jump_at(self, f, M):
        """E[f(x+DeltaX)] for one jump with moments M(exps)"""
        out = {}
        for a, c in f.items():
            for b in below(a):
                m = M(b)
                if m:
                    e = sub(a, b)
                    out[e] = out.get(e, 0) + fmul(c * mcomb(a, b), fx(m))
        return {e: c for e, c in out.items() if c}

    def path(self, f, t, events):
        """backward through deterministic event times: events = [(time, M)], sorted"""
        end = t
        for s, M in sorted(events, key=lambda x: x[0], reverse=True):
            f = self.flow(f, end - s)
            f = self.jump_at(f, M)
            end = s
        return self.flow(f, end)

    def stationary(self, a, cache):
        """stationary moment E[x^a] (exact Fraction) for ergodic coordinates"""
        if not any(a):
            return Frac(1)
        if a in cache:
            return cache[a]
        g = self.gen(a)
        diag = g.get(a, 0)
        s = Frac(0)
        for e, c in g.items():
            if e != a:
                s += c * self.stationary(e, cache)
        cache[a] = -s / diag
        return cache[a]


def mono(n, **kw):
    e = [0] * n
    for k, v in kw.items():
        e[int(k[1:])] = v
    return tuple(e)


def pmul(f, g):
    out = {}
    for a, c in f.items():
        for b, d in g.items():
            e = add(a, b)
            out[e] = out.get(e, 0) + fmul(c, d)
    return out


def peval(f, x):
    """evaluate polynomial (fixed coefs) at Fractions x -> Fraction"""
    s = Frac(0)
    for a, c in f.items():
        v = Frac(c, ONE)
        for xi, p in zip(x, a):
            if p:
                v *= Frac(xi) ** p
        s += v
    return s


# ---- jump laws -------------------------------------------------------------------
def normal_mom(n, mu, var):
    """E[N(mu,var)^n] exact"""
    s = Frac(0)
    for j in range(0, n + 1, 2):
        d = factorial(j) // (2 ** (j // 2) * factorial(j // 2))
        s += comb(n, j) * mu ** (n - j) * var ** (j // 2) * d
    return s


def exp_mom(n, mean):
    return factorial(n) * mean ** n
