from vc.spec import *
from vc.contract import Contract, Goal
import vc.term as tm
import numpy as np

EXPLAIN = "Coefficients returned by the real code equal, coefficient by coefficient, the expanded numerator of the lens equation (degree 5 / 10) and of the critical-curve condition (degree 4 / 6)."


def pmulT(a, b):
    """product of coefficient lists (highest first)"""
    r = [const(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] = r[i + j] + x * y
    return r


def paddT(a, b):
    n = max(len(a), len(b))
    a = [const(0)] * (n - len(a)) + a
    b = [const(0)] * (n - len(b)) + b
    return [x + y for x, y in zip(a, b)]


def prodT(ps):
    r = [const(1)]
    for p in ps: r = pmulT(r, p)
    return r


def image_poly(w, L):
    """numerator of z - w - sum m_i/(zbar - xbar_i) after eliminating zbar with
    zbar = wbar + sum m_j/(z - x_j)   (highest power first)"""
    n = len(L)
    lin = [[const(1), -x] for _, x in L]
    Q = prodT(lin)
    S = [const(0)]
    for j, (m, _) in enumerate(L): S = paddT(S, [m * c for c in prodT([lin[k] for k in range(n) if k != j])])
    N = [paddT([(conj(w) - conj(x)) * c for c in Q], S) for _, x in L]
    p = pmulT([const(1), -w], prodT(N))
    for i, (m, _) in enumerate(L):
        p = paddT(p, [-(m * c) for c in pmulT(Q, prodT([N[k] for k in range(n) if k != i]))])
    return p


def critical_poly(phi, L):
    """numerator of sum m/(z-x)^2 = exp(i phi), times exp(-i phi)"""
    n = len(L)
    sq = [[const(1), -2 * x, x * x] for _, x in L]
    x0 = exp(-(I * phi))
    p = [x0 * c for c in prodT(sq)]
    for i, (m, _) in enumerate(L):
        p = paddT(p, [-(m * c) for c in prodT([sq[k] for k in range(n) if k != i])])
    return p


def same_poly(r, sp, name="coeff"):
    r = np.ravel(r)
    while len(sp) > len(r): sp = sp[1:]   # identically-zero leading spec terms only
    g = [Goal("degree", tm.TRUE if len(r) == len(sp) else tm.FALSE)]
    for k in range(len(sp)):
        g.append(Goal("%s_z^%d" % (name, len(sp) - 1 - k), r[k], sp[k]))
    return g


def mod():
    import microjax.coeffs as c
    return c


def L3(a, r3, e1, e2): return [(e1, a), (e2, -a), (1 - e1 - e2, r3)]


def binary():
    a, e1, w = R("a"), R("e1"), C("w")
    return Contract("image_binary", lambda w, a, e1: mod()._poly_coeffs_binary(w, a, e1), [A0(w), A0(a), A0(e1)],
                    lambda r: same_poly(r[0], image_poly(w, [(e1, a), (1 - e1, -a)])), gens=PARAM_GENS, functions=["coeffs._poly_coeffs_binary"], min_goals=6)


def triple_cm():
    a, e1, e2, w, r3 = R("a"), R("e1"), R("e2"), C("w"), C("r3c")

    def ens(r):
        sh = r[1][()]
        L = [(m, x - sh) for m, x in L3(a, r3, e1, e2)]
        return same_poly(r[0], image_poly(w - sh, L))
    return Contract("image_triple_cm", lambda w, a, r3, e1, e2: mod()._poly_coeffs_triple_CM(w, a, r3, e1, e2), [A0(w), A0(a), A0(r3), A0(e1), A0(e2)],
                    ens, gens=PARAM_GENS, functions=["coeffs._poly_coeffs_triple_CM"], min_goals=11, budget=600)


def triple():
    a, e1, e2, w, r3 = R("a"), R("e1"), R("e2"), C("w"), C("r3c")
    return Contract("image_triple_mid", lambda w, a, r3, e1, e2: mod()._poly_coeffs_triple(w, a, r3, e1, e2), [A0(w), A0(a), A0(r3), A0(e1), A0(e2)],
                    lambda r: same_poly(r[0], image_poly(w, L3(a, r3, e1, e2))), gens=PARAM_GENS, functions=["coeffs._poly_coeffs_triple"], min_goals=11, budget=600)


def crit_binary():
    phi, a, e1 = R("phi"), R("a"), R("e1")
    return Contract("critical_binary", lambda p, a, e1: mod()._poly_coeffs_critical_binary(p, a, e1), [A0(phi), A0(a), A0(e1)],
                    lambda r: same_poly(r[0], critical_poly(phi, [(e1, a), (1 - e1, -a)])), gens=PARAM_GENS, functions=["coeffs._poly_coeffs_critical_binary"], min_goals=5)


def crit_triple():
    phi, a, e1, e2, r3 = R("phi"), R("a"), R("e1"), R("e2"), C("r3c")
    return Contract("critical_triple", lambda p, a, r3, e1, e2: mod()._poly_coeffs_critical_triple(p, a, r3, e1, e2), [A0(phi), A0(a), A0(r3), A0(e1), A0(e2)],
                    lambda r: same_poly(r[0], critical_poly(phi, L3(a, r3, e1, e2))), gens=PARAM_GENS, functions=["coeffs._poly_coeffs_critical_triple"], min_goals=7)


def contracts():
    return {"image_triple_cm": triple_cm, "image_triple_mid": triple, "image_binary": binary, "critical_binary": crit_binary, "critical_triple": crit_triple}
