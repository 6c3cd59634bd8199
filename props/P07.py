from vc.spec import *
from vc.contract import Contract, Custom, Goal
from vc import jx
import vc.term as tm
import numpy as np
from fractions import Fraction as Fr

EXPLAIN = ("The per-image routine is proved, for arbitrary complex W2..W6, to return the magnification 1/(1-|W2|^2) and exactly the disc averages of its second- and fourth-order "
           "Taylor terms (spec: 4 d dbar and 16 (d dbar)^2 of mu along the lens map, computed symbolically), with the moments of the linear limb profile; "
           "the caller is proved to pass the true derivatives W_k of the deflection at each image and to sum the flagged absolute values.")


def mp():
    import microjax.multipole as m
    return m


# ---- spec: mu as a function of the source position ------------------------
# variables: W2..W6 and their conjugates V2..V6, mu = 1/(1 - W2 V2).
# d/dzeta z = mu, d/dzeta zbar = mu W2; d/dzetabar z = mu V2, d/dzetabar zbar = mu.
def _mono(m, k): return tuple(x + (1 if i == k else 0) for i, x in enumerate(m))


def pmul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            k = tuple(i + j for i, j in zip(a, b))
            r[k] = r.get(k, 0) + x * y
    return {k: v for k, v in r.items() if v}


def padd(*ps):
    r = {}
    for p in ps:
        for k, v in p.items(): r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}


NV = 11          # 0: mu, 1..5: W2..W6, 6..10: V2..V6
def X(i): return {tuple(1 if j == i else 0 for j in range(NV)): Fr(1)}
MU, W = X(0), {k: X(k - 1) for k in range(2, 7)}
V = {k: X(k + 4) for k in range(2, 7)}


def part(p, i):
    r = {}
    for m, c in p.items():
        if m[i]:
            k = tuple(x - (1 if j == i else 0) for j, x in enumerate(m))
            r[k] = r.get(k, 0) + c * m[i]
    return r


def D(p, bar):
    dz, dzb = (MU, pmul(MU, W[2])) if not bar else (pmul(MU, V[2]), MU)
    dW = {k: pmul(W[k + 1], dz) for k in range(2, 6)}
    dV = {k: pmul(V[k + 1], dzb) for k in range(2, 6)}
    r = {}
    for k in range(2, 6):
        r = padd(r, pmul(part(p, k - 1), dW[k]), pmul(part(p, k + 4), dV[k]))
    dmu = pmul(pmul(MU, MU), padd(pmul(dW[2], V[2]), pmul(W[2], dV[2])))
    return padd(r, pmul(part(p, 0), dmu))


def to_term(p, Ws):
    mu = 1 / (1 - Ws[0] * conj(Ws[0]))
    xs = [mu] + list(Ws) + [conj(w) for w in Ws]
    r = const(0)
    for m, c in sorted(p.items()):
        t = const(c)
        for e, x in zip(m, xs):
            if e: t = t * x ** e
        r = r + t
    return r


def moments(u1):
    """<r^2>, <r^4> over the unit disc of the profile 1 - u (1 - sqrt(1-r^2)), exact.
    int r^n 2 r dr = 2/(n+2);  int r^n sqrt(1-r^2) 2 r dr: n=0: 2/3, n=2: 4/15, n=4: 16/105"""
    nrm = 1 - u1 + u1 * const(Fr(2, 3))
    m2 = (1 - u1) * const(Fr(1, 2)) + u1 * const(Fr(4, 15))
    m4 = (1 - u1) * const(Fr(1, 3)) + u1 * const(Fr(16, 105))
    return m2 / nrm, m4 / nrm


def taylor(Ws):
    """Laplacian and bi-Laplacian of mu wrt source position"""
    lap = D(D(MU, False), True)
    lap2 = D(D(lap, False), True)
    lap = {k: 4 * v for k, v in lap.items()}
    lap2 = {k: 16 * v for k, v in lap2.items()}
    return lap, lap2


def per_image():
    Ws = [C("W%d" % k) for k in range(2, 7)]
    rho, u1 = R("rho"), R("u1")
    arg = np.array(Ws, dtype=object)

    def ens(r):
        lap, lap2 = taylor(Ws)
        m2, m4 = moments(u1)
        mu, q, h = [x[()] for x in r]
        # disc average of f(r,phi): <lap f> r^2/4 and <lap^2 f> r^4/64
        return [Goal("monopole", mu, 1 / (1 - abs(Ws[0]) ** 2)),
                Goal("quadrupole", q, m2 * const(Fr(1, 4)) * rho ** 2 * to_term(lap, Ws)),
                Goal("hexadecapole", h, m4 * const(Fr(1, 64)) * rho ** 4 * to_term(lap2, Ws))]
    return Contract("per_image", lambda W, rho, u1: mp()._mag_hexadecapole_cassan(W, rho, u1), [arg, A0(rho), A0(u1)], ens, gens=PARAM_GENS,
                    functions=["multipole._mag_hexadecapole_cassan"], min_goals=3, budget=700)


def deriv(z, L, k):
    """(-1)^(k-1) (k-1)! sum m/(z-x)^k: the (k-1)th derivative of sum m/(z-x)"""
    f = [1, 1, 1, 2, 6, 24, 120][k]
    s = const(0)
    for m, x in L: s = s + m / (z - x) ** k
    return const(f * (-1) ** (k - 1)) * s


def lgamma_hook(ctx, eqn, ins):
    import math
    x = jx.toT(ins[0])

    def g(t):
        if t.op == "const" and float(t.val) == int(t.val) and 1 <= t.val <= 20: return tm.log(const(math.factorial(int(t.val) - 1)))
        return tm.fn("lgamma", t)
    return [jx.vmap1(g, x)]


def cassan_hook(ctx, eqn, ins):
    Ws, rho, u1 = jx.toT(ins[0]), jx.toT(ins[1])[()], jx.toT(ins[2])[()]
    shp = Ws.shape[1:]
    outs = [ctx.freshvars(n, shp, "R") for n in ("mono", "quad", "hexa")]
    ctx.__dict__.setdefault("req", []).append((Ws, rho, u1, outs))
    return outs


def caller(n, shape, k_im=2, default_u1=False):
    def mk():
        import jax
        p = params(n)
        L = lenses(n, p)
        z = jx.symarr("z", (k_im,) + shape, "C")
        mask = jx.symarr("m", (k_im,) + shape, "B")
        rho, u1 = R("rho"), R("u1")

        def fn(z, mask, rho, u1, *v):
            m = mp()
            old = m._mag_hexadecapole_cassan

            def body(W, rho, u1): return old(W, rho, u1)
            body.__name__ = "cassan_contract"
            jb = jax.jit(body)
            m._mag_hexadecapole_cassan = lambda W, rho, u1=0.0: jb(W, rho, u1)
            try:
                kw = {} if default_u1 else {"u1": u1}
                return m.mag_hexadecapole(z, mask, rho, nlenses=n, **kw, **dict(zip(p, v)))
            finally: m._mag_hexadecapole_cassan = old

        def ens(r, ctx):
            g = [Goal("one_call", tm.TRUE if len(getattr(ctx, "req", [])) == 1 else tm.FALSE),
                 Goal("shapes", tm.TRUE if r[0].shape == shape and r[1].shape == shape else tm.FALSE)]
            Ws, rh, u, outs = ctx.req[0]
            g += [Goal("rho", rh, rho), Goal("u1", u, const(0) if default_u1 else u1)]
            for i in np.ndindex(k_im, *shape):
                for k in range(2, 7): g.append(Goal("W%d%s" % (k, list(i)), Ws[(k - 2,) + i], deriv(z[i], L, k)))
            for i in np.ndindex(*shape):
                tot = dq = dh = const(0)
                for j in range(k_im):
                    ix = (j,) + i
                    on = tm.ite(mask[ix], const(1), const(0))
                    tot = tot + on * abs(outs[0][ix] + outs[1][ix] + outs[2][ix])
                    dq = dq + on * abs(outs[1][ix])
                    dh = dh + on * abs(outs[2][ix])
                g += [Goal("total%s" % list(i), r[0][i], tot), Goal("diagnostic%s" % list(i), r[1][i], dq + dh)]
            return g
        return Contract("caller_%d%s%s" % (n, "x".join(map(str, shape)), "_uniform" if default_u1 else ""), fn, [z, mask, A0(rho), A0(u1)] + [A0(v) for v in p.values()], ens,
                        hooks={"prim:lgamma": lgamma_hook, "cassan_contract": cassan_hook}, pre_ctx=True, gens=PARAM_GENS, functions=["multipole.mag_hexadecapole[nlenses=%d]" % n],
                        min_goals=6, falsify=lambda seed, k: num(n, seed, k, default_u1))
    return mk


def num(n, seed, k, default_u1=False):
    """real code against an independent per-image evaluation"""
    import random, mpmath
    r = random.Random(seed)
    lap, lap2 = taylor(None)
    for _ in range(40):
        p = {nm: PARAM_GENS[nm](r) for nm in params(n)}
        L = [(float(m), complex(x)) for m, x in numlens(n, p)]
        zs = np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(3)])
        mk = np.array([r.random() < .7 for _ in range(3)])
        rho, u1 = 10 ** r.uniform(-4, -1), r.random()
        kw = {} if default_u1 else {"u1": u1}
        o = mp().mag_hexadecapole(zs, mk, rho, nlenses=n, **kw, **p)
        if default_u1: u1 = 0.
        e = [0., 0.]
        for zz, on in zip(zs, mk):
            Ws = [sum(m / (zz - x) ** q for m, x in L) * [0, 0, -1, 2, -6, 24, -120][q] for q in range(2, 7)]
            xs = [1 / (1 - abs(Ws[0]) ** 2)] + Ws + [np.conj(w) for w in Ws]
            ev = lambda P: sum(float(c) * np.prod([x ** q for x, q in zip(xs, m)]) for m, c in P.items()).real
            nr = 1 - u1 / 3
            q = ((1 - u1) / 2 + u1 * 4 / 15) / nr / 4 * rho ** 2 * ev(lap)
            h = ((1 - u1) / 3 + u1 * 16 / 105) / nr / 64 * rho ** 4 * ev(lap2)
            e[0] += on * abs(xs[0] + q + h)
            e[1] += on * (abs(q) + abs(h))
        for a, b, nm in zip(o, e, ("magnification", "diagnostic")):
            if not abs(float(a) - b) <= 1e-6 * (abs(b) + 1): return {"function": "mag_hexadecapole", "nlenses": n, "z": repr(zs.tolist()), "mask": mk.tolist(), "rho": rho, "u1": u1, "params": p, "output": nm, "observed": float(a), "expected": float(b)}
    return None


def numlens(n, p):
    import cmath
    if n == 1: return [(1., 0)]
    if n == 2: return [(p["e1"], p["a"]), (1 - p["e1"], -p["a"])]
    return [(p["e1"], p["a"]), (p["e2"], -p["a"]), (1 - p["e1"] - p["e2"], p["r3"] * cmath.exp(1j * p["psi"]))]


def contracts():
    d = {"per_image": per_image}
    for n in (1, 2, 3): d["caller_%d" % n] = caller(n, ())
    d["caller_2_batch"] = caller(2, (2, 2))
    d["caller_3_batch"] = caller(3, (2,), 3)
    d["caller_2_uniform"] = caller(2, (), default_u1=True)
    return d
