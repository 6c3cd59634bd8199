"""Rigorous bounds for univariate rational functions with exact rational arithmetic (Bernstein subdivision)."""
from fractions import Fraction as Fr
from math import comb, lcm
from . import term as tm


# ---- univariate polynomials over Q, coefficient lists, lowest power first ----
def pnorm(p):
    p = list(p)
    while p and p[-1] == 0: p.pop()
    return p


def padd(a, b):
    n = max(len(a), len(b))
    return pnorm([(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)])


def pscale(a, c): return pnorm([c * x for x in a])


def pmul(a, b):
    if not a or not b: return []
    r = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b): r[i + j] += x * y
    return pnorm(r)


def pder(a): return pnorm([i * a[i] for i in range(1, len(a))])


def peval(a, x):
    r = Fr(0)
    for c in reversed(a): r = r * x + c
    return r


def pcompose_affine(p, a, b):
    """p(a + b t)"""
    r = []
    for c in reversed(p): r = padd(pmul(r, [Fr(a), Fr(b)]), [Fr(c)])
    return r


def preverse(p, n):
    """t^n p(1/t)"""
    p = list(p) + [Fr(0)] * (n + 1 - len(p))
    return pnorm(p[::-1])


def bernstein(p):
    """integer multiples of the Bernstein coefficients on [0,1]"""
    n = len(p) - 1
    L = 1
    for j in range(n + 1): L = lcm(L, comb(n, j) * p[j].denominator)
    q = [int(p[j] * Fr(L, comb(n, j))) for j in range(n + 1)]
    return [sum(q[j] * comb(i, j) for j in range(i + 1)) for i in range(n + 1)]


def _split(b):
    n, l, r, b, k = len(b) - 1, [], [], list(b), 0
    while True:
        l.append(b[0] << (n - k))
        r.append(b[-1] << (n - k))
        if len(b) == 1: break
        b = [x + y for x, y in zip(b, b[1:])]
        k += 1
    return l, r[::-1]


def nonneg(p, lo=0, hi=1, depth=40):
    """p >= 0 on [lo, hi], decided rigorously; False when not shown"""
    p = [Fr(c) for c in pcompose_affine(p, Fr(lo), Fr(hi) - Fr(lo))]
    if not p: return True
    todo = [(bernstein(p), 0)]
    while todo:
        b, d = todo.pop()
        if min(b) >= 0: continue
        if b[0] < 0 or b[-1] < 0 or d >= depth: return False
        l, r = _split(b)
        todo += [(l, d + 1), (r, d + 1)]
    return True


def rat_bound(n, d, delta, lo, hi):
    """|n/d| <= delta on [lo, hi] (d without zeros there), rigorous"""
    s = 1 if peval(d, (Fr(lo) + Fr(hi)) / 2) > 0 else -1
    d = pscale(d, Fr(s))
    if not nonneg(padd(d, [-abs(peval(d, Fr(lo))) / 10 ** 9]), lo, hi): return False   # d bounded away from zero
    e = pscale(d, Fr(delta))
    return nonneg(padd(e, n), lo, hi) and nonneg(padd(e, pscale(n, Fr(-1))), lo, hi)


class RF:
    """rational function n/d"""

    def __init__(s, n, d=None):
        s.n, s.d = pnorm(n), list(d or [Fr(1)])
        while len(s.d) > 1 and s.d[0] == 0 and (not s.n or s.n[0] == 0): s.n, s.d = s.n[1:], s.d[1:]

    def __add__(s, o):
        if s.d == o.d: return RF(padd(s.n, o.n), s.d)
        return RF(padd(pmul(s.n, o.d), pmul(o.n, s.d)), pmul(s.d, o.d))

    def __mul__(s, o): return RF(pmul(s.n, o.n), pmul(s.d, o.d))

    def inv(s):
        if not s.n: raise ZeroDivisionError
        return RF(s.d, s.n)

    def __sub__(s, o): return s + RF([Fr(-1)]) * o

    def der(s):
        """derivative"""
        return RF(padd(pmul(pder(s.n), s.d), pscale(pmul(s.n, pder(s.d)), Fr(-1))), pmul(s.d, s.d))


def ratfun(t, x, sub=None):
    """term in one variable x (plus, *, /, integer powers, rational constants) -> RF (with x := sub if given);
    None if it is anything else"""
    memo = {}
    for u in tm.topo([t]):
        a = [memo.get(v) for v in u.args]
        r = None
        c = tm.cv(u)
        if u is x: r = sub or RF([Fr(0), Fr(1)])
        elif c is not None and not hasattr(c, "im"): r = RF([Fr(c)])
        elif any(v is None for v in a): r = None
        elif u.op == "add":
            r = a[0]
            for v in a[1:]: r = r + v
        elif u.op == "mul":
            r = a[0]
            for v in a[1:]: r = r * v
        elif u.op == "div": r = a[0] * a[1].inv()
        elif u.op == "neg": r = RF([Fr(-1)]) * a[0]
        elif u.op == "powi":
            r, k = RF([Fr(1)]), abs(u.val)
            for _ in range(k): r = r * a[0]
            if u.val < 0: r = r.inv()
        memo[u] = r
    return memo[t]
