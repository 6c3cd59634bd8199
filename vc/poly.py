"""Exact sparse multivariate polynomials over Q with packed exponents; variable
0 is the imaginary unit (I^2 = -1, applied during multiplication)."""
from fractions import Fraction

W = 16
MASK = (1 << W) - 1
ONE = {0: 1}


class Budget(Exception):
    pass


class Limits:
    max_terms = 400000
    deadline = None


def chk(n):
    import time
    if n > Limits.max_terms: raise Budget("polynomial too large")
    if Limits.deadline and time.time() > Limits.deadline: raise Budget("time")


def var(i, e=1): return {e << (W * i): 1}


def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s: r[m] = s
        else: r.pop(m, None)
    return r


def pscale(a, k):
    if k == 0: return {}
    if k == 1: return a
    return {m: norm(c * k) for m, c in a.items()}


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c


def pmul(a, b):
    if not a or not b: return {}
    if len(a) > len(b): a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if m == 0: return pscale(b, c)
        if not (m & MASK):
            return {m + n: norm(c * d) for n, d in b.items()}
    chk(len(a) * len(b) // 50)
    r = {}
    get = r.get
    for m, c in a.items():
        for n, d in b.items():
            k = m + n
            v = c * d
            if k & 2 and (k & MASK) == 2:
                k -= 2
                v = -v
            r[k] = get(k, 0) + v
    r = {k: norm(v) for k, v in r.items() if v}
    chk(len(r))
    return r


def ppow(a, n):
    r = ONE
    while n:
        if n & 1: r = pmul(r, a)
        n >>= 1
        if n: a = pmul(a, a)
    return r


def lead(a):
    return max(a)


def primitive(a):
    """(monic-normalised poly, leading coeff)"""
    c = a[lead(a)]
    if c == 1: return a, 1
    return pscale(a, Fraction(1) / c), c


def key(a): return frozenset(a.items())


def exps(m):
    """exponent map {var: e} of a packed monomial"""
    out, i = {}, 0
    while m:
        e = m & MASK
        if e: out[i] = e
        m >>= W
        i += 1
    return out


def mono_gcd(a):
    """gcd monomial (packed) excluding I"""
    it = iter(a)
    g = exps(next(it))
    g.pop(0, None)
    for m in it:
        if not g: return 0
        for i in list(g):
            e = (m >> (W * i)) & MASK
            if e < g[i]:
                if e: g[i] = e
                else: del g[i]
    r = 0
    for i, e in g.items(): r += e << (W * i)
    return r


def mono_div(a, m): return {k - m: c for k, c in a.items()}


def degree(a, i):
    return max(((m >> (W * i)) & MASK for m in a), default=0)


def collect(a, i):
    """coefficients by power of variable i"""
    out = {}
    sh = W * i
    for m, c in a.items():
        e = (m >> sh) & MASK
        out.setdefault(e, {})[m - (e << sh)] = c
    return out


def exact_div(a, b, limit=20000):
    """a/b if b divides a exactly (lex order), else None."""
    if not a: return {}
    lb = lead(b)
    cb = b[lb]
    q = {}
    r = dict(a)
    eb = exps(lb)
    n = 0
    while r:
        lr = max(r)
        for i, e in eb.items():
            if ((lr >> (W * i)) & MASK) < e: return None
        m = lr - lb
        c = norm(Fraction(r[lr]) / cb)
        q[m] = c
        n += 1
        if n > limit: return None
        for k, d in b.items():
            kk = k + m
            v = -c * d
            if (kk & MASK) == 2: kk -= 2; v = -v
            s = r.get(kk, 0) + v
            if s: r[kk] = norm(s)
            else: r.pop(kk, None)
        if lr in r: return None
    return q


def psqrt(p, limit=4000):
    """q with q*q == p (rational coefficients, no I), else None"""
    import math
    if not p: return {}
    if any(m & MASK for m in p): return None
    lp = lead(p)
    if any(e % 2 for e in exps(lp).values()): return None

    def rs(c):
        c = Fraction(c)
        if c < 0: return None
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return norm(Fraction(n, d)) if n * n == c.numerator and d * d == c.denominator else None
    c = rs(p[lp])
    if c is None: return None
    lq = 0
    for i, e in exps(lp).items(): lq += (e // 2) << (W * i)
    q = {lq: c}
    r = padd(p, pscale(pmul(q, q), -1))
    el = exps(lq)
    n = 0
    while r:
        lr = max(r)
        n += 1
        if n > limit or lr >= lp: return None
        for i, e in el.items():
            if ((lr >> (W * i)) & MASK) < e: return None
        m = lr - lq
        if m >= lq: return None
        t = {m: norm(Fraction(r[lr]) / (2 * c))}
        # r -= 2 q t + t^2
        r = padd(r, pscale(padd(pscale(pmul(q, t), 2), pmul(t, t)), -1))
        if lr in r: return None
        q = padd(q, t)
    return q
