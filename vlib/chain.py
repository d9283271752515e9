"""Exact moments of one-step Markov chains x' = polynomial drift + Gaussian terms whose variance is
affine in the state: the law the documented Euler recursion defines (no truncation at zero)."""
from math import comb, factorial


def padd(f, g, s=1.0):
    r = dict(f)
    for k, v in g.items():
        r[k] = r.get(k, 0.0) + s * v
    return r


def pmul(f, g):
    r = {}
    for a, x in f.items():
        for b, y in g.items():
            k = tuple(i + j for i, j in zip(a, b))
            r[k] = r.get(k, 0.0) + x * y
    return r


def ppow(f, n, nv):
    r = {(0,) * nv: 1.0}
    for _ in range(n):
        r = pmul(r, f)
    return r


class Step:
    """x_i' = lin_i(x) + sum_j load[i][j] G_j,  G_j ~ N(0, var_j(x)) independent given x"""

    def __init__(self, nv, lin, load, var):
        self.nv, self.lin, self.load, self.var = nv, lin, load, var
        self.cache = {}

    def mono(self, e):
        """E[x'^e | x] as a polynomial in x"""
        if e in self.cache:
            return self.cache[e]
        nv, ng = self.nv, len(self.var)
        # polynomial in (x, G): represent as dict gexps -> poly(x)
        tot = {(0,) * ng: {(0,) * nv: 1.0}}
        for i, n in enumerate(e):
            base = {(0,) * ng: self.lin[i]}
            for j, c in self.load[i].items():
                g = [0] * ng
                g[j] = 1
                base[tuple(g)] = {(0,) * nv: c}
            for _ in range(n):
                new = {}
                for a, f in tot.items():
                    for b, h in base.items():
                        k = tuple(x + y for x, y in zip(a, b))
                        new[k] = padd(new.get(k, {}), pmul(f, h))
                tot = new
        out = {}
        for g, f in tot.items():
            if any(x % 2 for x in g):
                continue
            t = f
            for j, x in enumerate(g):
                if x:
                    h = x // 2
                    t = pmul(t, ppow(self.var[j], h, nv))
                    c = factorial(x) / (2 ** h * factorial(h))
                    t = {k: v * c for k, v in t.items()}
            out = padd(out, t)
        self.cache[e] = out
        return out

    def back(self, f):
        out = {}
        for e, c in f.items():
            if c:
                out = padd(out, self.mono(e), c)
        return out


def shift(f, i, mom):
    """E[f(x + Z e_i)] with Z independent, mom(n) = E[Z^n]"""
    out = {}
    for e, c in f.items():
        for j in range(e[i] + 1):
            k = list(e)
            k[i] = j
            out[tuple(k)] = out.get(tuple(k), 0.0) + c * comb(e[i], j) * mom(e[i] - j)
    return out


def val(f, x):
    t = 0.0
    for e, c in f.items():
        v = c
        for xi, p in zip(x, e):
            v *= xi ** p
        t += v
    return t


def one_factor(p, d):
    """(v, y) over a step of length d"""
    k, th, s, rho, mu = (float(p[x]) for x in ('k', 'theta', 'sigma', 'rho', 'mu'))
    return Step(2, [{(1, 0): 1 - k * d, (0, 0): k * th * d}, {(0, 1): 1.0, (0, 0): mu * d, (1, 0): -d / 2}],
                [{0: s}, {0: rho, 1: (1 - rho * rho) ** .5}], [{(1, 0): d}, {(1, 0): d}])


def two_factor(p, d):
    k1, k2, t1, t2, s1, s2, mu = (float(p[x]) for x in ('k1', 'k2', 'theta1', 'theta2', 'sigma1', 'sigma2', 'mu'))
    return Step(3, [{(1, 0, 0): 1 - k1 * d, (0, 0, 0): k1 * t1 * d}, {(0, 1, 0): 1 - k2 * d, (0, 0, 0): k2 * t2 * d},
                    {(0, 0, 1): 1.0, (0, 0, 0): mu * d, (1, 0, 0): -d / 2, (0, 1, 0): -d / 2}],
                [{0: s1}, {1: s2}, {2: 1.0}], [{(1, 0, 0): d}, {(0, 1, 0): d}, {(1, 0, 0): d, (0, 1, 0): d}])


def given_jumps(p, n_seg, order, times, sizes):
    """E[Y^order] of the SVVJ recursion: polynomial chain on the grid refined by the jump times"""
    import math
    k, th, s, rho, mu, T, v0 = (float(p[x]) for x in ('k', 'theta', 'sigma', 'rho', 'mu', 'h', 'v0'))
    times, sizes = [float(t) for t in times], [float(j) for j in sizes]
    dt = T / n_seg
    pts = []                                  # (start, length, jump after)
    j = 0
    for i in range(n_seg):
        a, b = i * dt, (i + 1) * dt
        while j < len(times) and times[j] <= b:
            pts.append((a, times[j] - a, sizes[j]))
            a = times[j]
            j += 1
        if a < b:
            pts.append((a, b - a, None))
    f = {(0, order): 1.0}
    for a, d, J in reversed(pts):
        if J is not None:
            f = shift(f, 0, lambda n, J=J: J ** n)
        c = math.exp(-k * (T - a)) * s / (2 * k) + rho - s / (2 * k)
        st = Step(2, [{(1, 0): 1 - k * d, (0, 0): k * th * d}, {(0, 1): 1.0}],
                  [{0: s}, {0: c, 1: (1 - rho * rho) ** .5}], [{(1, 0): d}, {(1, 0): d}])
        f = st.back(f)
    return val(f, (v0, 0.0))


def given_const(p, times, sizes):
    import math
    k, th, mu, T, v0 = (float(p[x]) for x in ('k', 'theta', 'mu', 'h', 'v0'))
    beta = (1 - math.exp(-k * T)) / (2 * k)
    c = (mu - th / 2) * T - (v0 - th) * beta
    for t, J in zip(times, sizes):
        if float(t) <= T:
            c += (math.exp(-k * (T - float(t))) - 1) * float(J) / (2 * k)
    return c
