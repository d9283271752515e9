"""High precision evaluator for ajdmom Poly objects, driven only by the published keyfor.

value(poly, env) = sum_k coef * prod_i  symbol_i ** k_i, where the meaning of each keyfor
entry is given by SYMBOLS/special handlers below (the encoding documented in docs/source)."""
import mpmath as mp
from fractions import Fraction as Frac

mp.mp.dps = 70


class UnknownKeyfor(Exception):
    pass


def F2m(x):
    if isinstance(x, Frac):
        return mp.mpf(x.numerator) / mp.mpf(x.denominator)
    return mp.mpf(x)


def env_one(p):
    """derive values of all scalar symbols from a parameter dict of Fractions.
    p may hold: k,theta,sigma,rho,mu,h,v0,lmbd,mu_v,mu_s,sigma_s,rho_J,mu_j,sigma_j,lambda,..."""
    g = {a: F2m(b) for a, b in p.items() if not isinstance(b, (tuple, list, str))}
    e = {}

    def put(names, f):
        try:
            v = f()
        except KeyError:
            return
        for n in names:
            e[n] = v
    put(['e^{-kh}', 'e^{-kt}'], lambda: mp.exp(-g['k'] * g['h']))
    put(['e^{kt}', 'e^{k[t-(n-1)h]}', 'e^{kh}'], lambda: mp.exp(g['k'] * g['h']))
    put(['h', 't', '[t-(n-1)h]'], lambda: g['h'])
    put(['k^{-}'], lambda: 1 / g['k'])
    put(['mu'], lambda: g['mu'])
    put(['theta'], lambda: g['theta'])
    put(['sigma_v', 'sigma'], lambda: g['sigma'])
    put(['rho'], lambda: g['rho'])
    put(['sqrt(1-rho^2)'], lambda: mp.sqrt(1 - g['rho'] ** 2))
    put(['lambda'], lambda: g['lambda'])
    put(['mu_j'], lambda: g['mu_j'])
    put(['sigma_j'], lambda: g['sigma_j'])
    put(['v0-theta', 'v_0-theta'], lambda: g['v0'] - g['theta'])
    put(['v_0', 'v0', 'v_{n-1}'], lambda: g['v0'])
    put(['sigma/2k'], lambda: g['sigma'] / (2 * g['k']))
    put(['rho-sigma/2k'], lambda: g['rho'] - g['sigma'] / (2 * g['k']))
    put(['lmbd'], lambda: g['lmbd'])
    put(['mu_v'], lambda: g['mu_v'])
    put(['mu_s'], lambda: g['mu_s'])
    put(['sigma_s'], lambda: g['sigma_s'])
    put(['rhoJ', 'rho_J'], lambda: g['rho_J'])
    put(['lmbd_s'], lambda: g['lmbd_s'])
    put(['E[v]'], lambda: g['theta'] + g['lmbd'] * g['mu_v'] / g['k'])
    put(['v0-E[v]'], lambda: g['v0'] - g['theta'] - g['lmbd'] * g['mu_v'] / g['k'])
    put(['beta_t'], lambda: (1 - mp.exp(-g['k'] * g['h'])) / (2 * g['k']))
    put(['mu-theta/2'], lambda: g['mu'] - g['theta'] / 2)
    put(['sigma_v^2/k'], lambda: g['sigma'] ** 2 / g['k'])
    put(['sigma^2'], lambda: g['sigma'] ** 2)
    put(['lambda*h'], lambda: g['lambda'] * g['h'])
    # interval [s,t] quantities
    put(['e^{ks}'], lambda: mp.exp(g['k'] * g['s']))
    put(['t-s'], lambda: g['h'] - g['s'])
    # two factors
    put(['theta1'], lambda: g['theta1'])
    put(['theta2'], lambda: g['theta2'])
    put(['sigma_v1'], lambda: g['sigma1'])
    put(['sigma_v2'], lambda: g['sigma2'])
    put(['v_{1,n-1}'], lambda: g['v10'])
    put(['v_{2,n-1}'], lambda: g['v20'])
    put(['e^{k(n-1)h}'], lambda: mp.exp(g['k'] * g['t0']))
    if 'k1' in g:
        e['#k1'], e['#k2'], e['#h'] = g['k1'], g['k2'], g['h']
        e['#t0'] = g.get('t0', mp.mpf(0))
    if 'k' in g:
        e['#k'] = g['k']
    for nm in ('jumptime', 'jumpsize'):
        if nm in p:
            e['#' + nm] = [F2m(x) for x in p[nm]]
    return e


DEN = '(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}'


def fz_direct(l, o, p, q, k, s, J):
    """definition eq:fZ; None o -> srjd variant handled by caller"""
    n = len(l)
    if n == 0:
        return mp.mpf(1)
    N = len(s)
    tot = mp.mpf(0)

    def rec(d, prod, smax):
        nonlocal tot
        if d == n:
            tot += prod
            return
        for i in range(N):
            w = mp.exp(l[d] * k * s[i]) * J[i] * s[i] ** o[d]
            if d == 0:
                sm = s[i]
            else:
                sm = s[i] if s[i] > smax else smax
                w *= mp.exp(p[d - 1] * k * sm) * sm ** q[d - 1]
            rec(d + 1, prod * w, sm)
    rec(0, mp.mpf(1), None)
    return tot


def evaluate(poly, env, keyfor=None):
    """-> (value, sum of |terms|).  Raises UnknownKeyfor/ValueError on malformed input"""
    kf = tuple(poly.keyfor if keyfor is None else keyfor)
    if not kf:
        raise UnknownKeyfor('empty keyfor')
    plan = []
    i = 0
    while i < len(kf):
        s = kf[i]
        if s == DEN:
            plan.append(('den', i))
        elif s in ('e^{-(n1*k1+n2*k2)h}',):
            plan.append(('em', i))
        elif s == 'e^{(m_4*k1+m_6*k2)(n-1)h}':
            plan.append(('e0', i))
        elif s in ('e^{(j_1*k1+j_2*k2)[t-(n-1)h]}',):
            plan.append(('et', i))
        elif s == 'l_{1:n}':
            if i + 3 < len(kf) and kf[i + 1] == 'o_{1:n}':
                plan.append(('fz4', i))
                i += 3
            elif kf[i + 1] == 'o_{2:n}':
                plan.append(('fz2', i))
                i += 1
            else:
                raise UnknownKeyfor(str(kf))
        elif s == 'J_{1:n}':
            plan.append(('jn', i))
        elif s in env:
            plan.append(('s', i, env[s]))
        else:
            raise UnknownKeyfor(s)
        i += 1
    cache = {}

    def pw(i, base, e):
        r = cache.get((i, e))
        if r is None:
            if e == 0:
                r = mp.mpf(1)
            else:
                r = base ** e
            cache[(i, e)] = r
        return r
    tot = mp.mpf(0)
    ab = mp.mpf(0)
    for K, c in poly.items():
        if len(K) != len(kf):
            raise ValueError(f'key length {len(K)} != keyfor length {len(kf)}: {K}')
        t = F2m(c) if isinstance(c, (int, Frac)) else mp.mpf(c)
        for st in plan:
            if t == 0:
                break
            i = st[1]
            if st[0] == 's':
                if K[i] != 0:
                    t *= pw(i, st[2], K[i])
            elif st[0] == 'den':
                for (a, b, p) in K[i]:
                    if p:
                        t /= (a * env['#k1'] + b * env['#k2']) ** p
            elif st[0] in ('em', 'et', 'e0'):
                kk = (st[0], K[i])
                r = cache.get(kk)
                if r is None:
                    a, b = K[i]
                    x = a * env['#k1'] + b * env['#k2']
                    if st[0] == 'em':
                        x = -x * env['#h']
                    elif st[0] == 'et':
                        x = x * env['#h']
                    else:
                        x = x * env['#t0']
                    r = cache[kk] = mp.exp(x)
                t *= r
            elif st[0] == 'fz4':
                kk = ('fz4', K[i], K[i + 1], K[i + 2], K[i + 3])
                r = cache.get(kk)
                if r is None:
                    r = cache[kk] = fz_direct(K[i], K[i + 1], K[i + 2], K[i + 3], env['#k'],
                                              env['#jumptime'], env['#jumpsize'])
                t *= r
            elif st[0] == 'fz2':
                kk = ('fz2', K[i], K[i + 1])
                r = cache.get(kk)
                if r is None:
                    n = len(K[i])
                    r = cache[kk] = fz_direct(K[i], (0,) * n, K[i + 1], (0,) * max(n - 1, 0),
                                              env['#k'], env['#jumptime'], env['#jumpsize'])
                t *= r
            elif st[0] == 'jn':
                js = env['#jumpsize']
                if len(K[i]) != len(js):
                    raise ValueError(f'J exponent vector {K[i]} for {len(js)} jumps')
                for x, e in zip(js, K[i]):
                    if e:
                        t *= x ** e
        tot += t
        ab += abs(t)
    return tot, ab
