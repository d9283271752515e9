"""SDE specifications (the only model knowledge the oracle has), from docs/source/*.rst."""
from fractions import Fraction as Frac
from math import comb
from engine import (Process, normal_mom, exp_mom, fx, ONE, to_frac, unit, pmul)

F = Frac


def heston(p, jumps=()):
    """(v, y):  dv = k(theta-v)dt + s sqrt(v) dw^v ; dy = (mu - v/2)dt + sqrt(v) dw^s"""
    k, th, s, rho, mu = p['k'], p['theta'], p['sigma'], p['rho'], p['mu']
    drift = {0: {(0, 0): k * th, (1, 0): -k}, 1: {(0, 0): mu, (1, 0): F(-1, 2)}}
    cov = {(0, 0): {(1, 0): s * s}, (0, 1): {(1, 0): rho * s}, (1, 1): {(1, 0): F(1)}}
    return Process(['v', 'y'], drift, cov, jumps)


def price_jump(mean, var):
    """jump of y only, N(mean,var)"""
    return lambda e: normal_mom(e[1], mean, var) if e[0] == 0 else F(0)


def var_price_jump(mu_v, mu_s, rho_J, var_s):
    """v jumps by J~Exp(mean mu_v), y by N(mu_s + rho_J J, var_s): E[J^a Y^b]"""
    cache = {}

    def M(e):
        if e in cache:
            return cache[e]
        a, b = e
        # Y = rho_J J + N(mu_s,var)
        s = sum((comb(b, i) * rho_J ** i * exp_mom(a + i, mu_v) * normal_mom(b - i, mu_s, var_s)
                 for i in range(b + 1)), F(0))
        cache[e] = s
        return s
    return M


def known_jump(J, mu_s=None, rho_J=None, var_s=None):
    """v jumps by the known J; if mu_s given y jumps by N(mu_s+rho_J J, var_s)"""
    def M(e):
        a, b = e
        if mu_s is None:
            return F(J) ** a if b == 0 else F(0)
        return F(J) ** a * normal_mom(b, mu_s + rho_J * J, var_s)
    return M


def twofactor(p, jumps=()):
    """(v1, v2, y), three independent Brownian motions"""
    d = {0: {(0, 0, 0): p['k1'] * p['theta1'], (1, 0, 0): -p['k1']},
         1: {(0, 0, 0): p['k2'] * p['theta2'], (0, 1, 0): -p['k2']},
         2: {(0, 0, 0): p['mu'], (1, 0, 0): F(-1, 2), (0, 1, 0): F(-1, 2)}}
    c = {(0, 0): {(1, 0, 0): p['sigma1'] ** 2}, (1, 1): {(0, 1, 0): p['sigma2'] ** 2},
         (2, 2): {(1, 0, 0): F(1), (0, 1, 0): F(1)}}
    return Process(['v1', 'v2', 'y'], d, c, jumps)


def price_jump3(mean, var):
    return lambda e: normal_mom(e[2], mean, var) if e[0] == e[1] == 0 else F(0)


def srjd(p, lmbd=None, mu_v=None):
    """v only"""
    jumps = []
    if lmbd is not None:
        jumps = [(lmbd, lambda e: exp_mom(e[0], mu_v))]
    return Process(['v'], {0: {(0,): p['k'] * p['theta'], (1,): -p['k']}},
                   {(0, 0): {(1,): p['sigma'] ** 2}}, jumps)


def ito_block(p):
    """(v, X=e^{-kt}IE, I, I*) for one factor, no jumps (jumps in v added by events)"""
    k, th, s = p['k'], p['theta'], p['sigma']
    n = 4
    v = {(1, 0, 0, 0): F(1)}

    def sc(c):
        return {(1, 0, 0, 0): F(c)}
    d = {0: {(0, 0, 0, 0): k * th, (1, 0, 0, 0): -k}, 1: {(0, 1, 0, 0): -k}}
    c = {(0, 0): sc(s * s), (0, 1): sc(s), (0, 2): sc(s), (1, 1): v, (1, 2): v, (2, 2): v, (3, 3): v}
    return Process(['v', 'X', 'I', 'Is'], d, c)


def itos_block(p):
    """(v1, v2, X1, I1, X2, I2, I*)"""
    z = (0,) * 7

    def u(i):
        return unit(7, i)
    d = {0: {z: p['k1'] * p['theta1'], u(0): -p['k1']}, 1: {z: p['k2'] * p['theta2'], u(1): -p['k2']},
         2: {u(2): -p['k1']}, 4: {u(4): -p['k2']}}
    s1, s2 = p['sigma1'], p['sigma2']
    c = {(0, 0): {u(0): s1 * s1}, (0, 2): {u(0): s1}, (0, 3): {u(0): s1},
         (2, 2): {u(0): F(1)}, (2, 3): {u(0): F(1)}, (3, 3): {u(0): F(1)},
         (1, 1): {u(1): s2 * s2}, (1, 4): {u(1): s2}, (1, 5): {u(1): s2},
         (4, 4): {u(1): F(1)}, (4, 5): {u(1): F(1)}, (5, 5): {u(1): F(1)},
         (6, 6): {u(0): F(1), u(1): F(1)}}
    return Process(['v1', 'v2', 'X1', 'I1', 'X2', 'I2', 'Is'], d, c)


def jumpint_block(p, lmbd, mu_v, mu_s, var_s):
    """(v, X=e^{-kt}IE, I, I*, XZ=e^{-kt}IEZ, IZ, IZ*) of the SVCJ model.
    One jump: v += J, XZ += J, IZ += J, IZ* += N(mu_s, var_s)"""
    k, th, s = p['k'], p['theta'], p['sigma']

    def u(i):
        return unit(7, i)
    z = (0,) * 7
    v = {u(0): F(1)}

    def sc(c):
        return {u(0): F(c)}
    d = {0: {z: k * th, u(0): -k}, 1: {u(1): -k}, 4: {u(4): -k}}
    c = {(0, 0): sc(s * s), (0, 1): sc(s), (0, 2): sc(s), (1, 1): v, (1, 2): v, (2, 2): v, (3, 3): v}

    def M(e):
        if e[1] or e[2] or e[3]:
            return F(0)
        return exp_mom(e[0] + e[4] + e[5], mu_v) * normal_mom(e[6], mu_s, var_s)
    return Process(['v', 'X', 'I', 'Is', 'XZ', 'IZ', 'IZs'], d, c, [(lmbd, M)])


# ---------------------------------------------------------------------------------
def mono_poly(e):
    return {tuple(e): ONE}


def y_cond(proc, m, h, yi, events=()):
    """E[y_h^m | state] as polynomial of the variance coordinates (y0 = 0 substituted)"""
    e = [0] * proc.n
    e[yi] = m
    f = proc.path(mono_poly(e), h, list(events))
    return {a: c for a, c in f.items() if a[yi] == 0}


def avg(proc, f, cache):
    """average polynomial of the variance coordinates over their stationary law -> Frac"""
    s = F(0)
    for a, c in f.items():
        s += F(c, ONE) * proc.stationary(a, cache)
    return s


def raw_to_central(raw):
    """raw: list of raw moments 0..m -> m-th central moment"""
    m = len(raw) - 1
    mu = raw[1] if m >= 1 else F(0)
    return sum((comb(m, i) * (-mu) ** (m - i) * raw[i] for i in range(m + 1)), F(0))
