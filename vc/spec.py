"""Spec functions (mathematics, independent of the code under verification)."""
from . import term as tm
from .term import var, const, conj, I, exp, mul, add, div, sub


def C(n): return var(n, "C")
def R(n): return var(n, "R")


def A0(t):
    """0-d object array"""
    import numpy as np
    a = np.empty((), dtype=object)
    a[()] = t
    return a


def lenses(n, p):
    """[(mass, position)] in the midpoint frame from elementary parameters"""
    if n == 1: return [(const(1), const(0))]
    if n == 2: return [(p["e1"], p["a"]), (1 - p["e1"], -p["a"])]
    r3 = p["r3"] * exp(I * p["psi"])
    return [(p["e1"], p["a"]), (p["e2"], -p["a"]), (1 - p["e1"] - p["e2"], r3)]


def params(n):
    if n == 1: return {}
    if n == 2: return {"a": R("a"), "e1": R("e1")}
    return {"a": R("a"), "r3": R("r3"), "psi": R("psi"), "e1": R("e1"), "e2": R("e2")}


def lens_map(z, L):
    w = z
    for m, x in L: w = w - m / (conj(z) - conj(x))
    return w


def gbar(z, L, k):
    """sum m/(zbar - xbar)^k"""
    r = const(0)
    for m, x in L: r = r + m / (conj(z) - conj(x)) ** k
    return r


def jac(z, L):
    g = gbar(z, L, 2)
    return 1 - g * conj(g)


def sqd(s, q, q3=None):
    """(a, e1, e2) from separation and mass ratios"""
    if q3 is None: return s / 2, q / (1 + q), 1 / (1 + q)
    return s / 2, q / (1 + q + q3), 1 / (1 + q + q3)


PARAM_GENS = {
    "a": lambda r: r.choice([r.uniform(.1, 2), 10 ** r.uniform(-2, 1)]),
    "s": lambda r: r.choice([r.uniform(.2, 3), 10 ** r.uniform(-2, 1)]),
    "e1": lambda r: r.choice([r.uniform(.01, .6), 10 ** r.uniform(-5, -0.3)]),
    "e2": lambda r: r.uniform(.01, .39),
    "q": lambda r: r.choice([r.uniform(.05, 1.5), 10 ** r.uniform(-5, 1)]),
    "q3": lambda r: r.choice([r.uniform(.05, 1.5), 10 ** r.uniform(-5, 0)]),
    "r3": lambda r: r.choice([r.uniform(.1, 2), 10 ** r.uniform(-2, 1)]),
    "psi": lambda r: r.uniform(-7, 7),
    "rho": lambda r: 10 ** r.uniform(-4, 0),
    "u1": lambda r: r.uniform(0, 1),
}
