from vc.spec import *
from vc.contract import Contract, Custom, Goal
from vc import jx
import vc.term as tm
import numpy as np
from fractions import Fraction as Fr

EXPLAIN = ("Profile: the real function is proved equal to the normalised linear law inside the disc and 0 outside, non-negative, and (via an antiderivative whose derivative JAX computes) to integrate to one. "
           "Boundary: membership is the strict comparison, the limb-cell weight is the integral of a square-root profile from the crossing to the cell edge, sampled distances are those of the lens map. "
           "Every custom-derivative rule is checked to return the function's own value.")
GENS = dict(PARAM_GENS, d=lambda r: r.choice([r.uniform(0, 1.5), 1 - 10 ** r.uniform(-6, -1)]), delta=lambda r: 10 ** r.uniform(-6, 0), dc=lambda r: 10 ** r.uniform(-3, 0), fac=lambda r: r.uniform(1, 200))


def lj():
    import microjax.inverse_ray.limb_darkening as m
    return m


def bj():
    import microjax.inverse_ray.boundary as m
    return m


d, u, rho = R("d"), R("u1"), R("rho")
U01 = [tm.le(const(0), u), tm.le(u, const(1))]


def I0(): return 3 / (tm.PI * (3 - u))


def profile_inside():
    # every radius in [0,1) is sqrt(1-mu^2) for its cosine mu in (0,1]
    mu = R("mu")
    dd = tm.sqrt(1 - mu * mu)
    return Contract("profile_inside", lambda d, u: lj().Is_limb_1st(d, u), [A0(dd), A0(u)],
                    lambda r: [Goal("linear_law", r[0][()], I0() * (1 - u * (1 - mu)))], requires=U01 + [mu > 0, mu <= 1], positive=[mu],
                    gens=dict(GENS, mu=lambda r: r.choice([1., r.uniform(1e-6, 1), 10 ** r.uniform(-6, 0)])), functions=["limb_darkening.Is_limb_1st"])


def profile_sign():
    return Contract("profile_sign", lambda d, u: lj().Is_limb_1st(d, u), [A0(d), A0(u)],
                    lambda r: [Goal("outside_zero", r[0][()], const(0), hyps=[d >= 1]),
                               Goal("value", r[0][()], tm.ite(d < 1, I0() * (1 - u * (1 - tm.sqrt(1 - d * d))), const(0)))], requires=U01 + [d >= 0],
                    gens=GENS, functions=["limb_darkening.Is_limb_1st"])


def nonneg():
    mu = R("mu")
    return Contract("nonnegative", lambda d, u: lj().Is_limb_1st(d, u), [A0(tm.sqrt(1 - mu * mu)), A0(u)],
                    lambda r: [Goal("nonnegative", tm.le(const(0), r[0][()] * tm.PI * (3 - u)))], requires=U01 + [mu > 0, mu <= 1], positive=[mu],
                    gens=dict(GENS, mu=lambda r: r.uniform(1e-6, 1)), functions=["limb_darkening.Is_limb_1st"])


def unit_flux():
    """F(r) = antiderivative of 2 pi r I(r); F' is computed by jax.jvp of F"""
    mu = R("mu")

    def fn(mu, u):
        import jax, jax.numpy as jnp
        F = lambda m: jnp.pi * (3 / jnp.pi / (3 - u)) * ((1 - u) * (1 - m ** 2) + u * (2 / 3) * (1 - m ** 3))   # in terms of m = sqrt(1-r^2)
        _, dF = jax.jvp(F, (mu,), (jnp.ones_like(mu),))
        # dr/dm = -m/r  =>  dF/dr = dF/dm * (-r/m);   2 pi r I = that  <=>  -dF/dm = 2 pi m I
        return -dF, 2 * jnp.pi * mu * lj().Is_limb_1st(jnp.sqrt(1 - mu ** 2), u), F(jnp.zeros_like(mu)) - F(jnp.ones_like(mu))
    return Contract("unit_flux", fn, [A0(mu), A0(u)], lambda r: [Goal("antiderivative", r[0][()], r[1][()]), Goal("total_flux_is_one", r[2][()], const(1))],
                    requires=U01 + [mu > 0, mu <= 1], positive=[mu], gens=dict(GENS, mu=lambda r: r.uniform(1e-6, 1)), functions=["limb_darkening.Is_limb_1st"],
                    trusted=["fundamental theorem of calculus (change of variable mu = sqrt(1-r^2))", "jax.jvp of a polynomial"])


def facb():
    dl, dc = R("delta"), R("dc")
    # sqrt profile I(x)=sqrt(x) (x = distance from crossing, sample at x=delta): int_0^{delta+1/2} I dx / I(delta)
    exact = const(Fr(2, 3)) * (dl + const(Fr(1, 2))) * tm.sqrt((dl + const(Fr(1, 2))) / dl)
    return Contract("limb_cell_weight", lambda x, c: bj().calc_facB(x, c), [A0(dl), A0(dc)],
                    lambda r: [Goal("sqrt_profile_integral", r[0][()] , exact, hyps=[dl > dc]),
                               Goal("small_gap_rule", r[0][()], const(Fr(2, 3)) * dl + const(Fr(1, 2)), hyps=[dl <= dc])],
                    requires=[dl > 0, dc > 0], positive=[dl, dc], gens=GENS, functions=["boundary.calc_facB"])


def membership():
    D = R("dist")
    x = R("x")
    fn = lambda D, rho, x: (bj().in_source(D, rho), bj().step_smooth(x))
    return Contract("membership", fn, [A0(D), A0(rho), A0(x)],
                    lambda r: [Goal("strict_inside", r[0][()], tm.ite(D < rho, const(1), const(0))), Goal("hard_step", r[1][()], tm.ite(x > 0, const(1), const(0)))],
                    gens=GENS, requires=[rho > 0], functions=["boundary.in_source", "boundary.step_smooth"])


def sigmoid(x): return 1 / (1 + tm.exp(-x))


def jvp_primal(name):
    """the value returned under differentiation is the function's value"""
    def mk():
        import jax
        D, x, dc, fac, t1, t2 = R("dist"), R("x"), R("dc"), R("fac"), R("t1"), R("t2")
        f, a = {"in_source": (lambda *v: bj().in_source(*v), [D, rho]),
                "step_smooth": (lambda *v: bj().step_smooth(*v), [x, fac]),
                "calc_facB": (lambda *v: bj().calc_facB(*v), [x, dc]),
                "Is_limb_1st": (lambda *v: lj().Is_limb_1st(*v), [d, u])}[name]

        def fn(p, q, t1, t2):
            o, _ = jax.jvp(f, (p, q), (t1, t2))
            return o, f(p, q)
        req = {"in_source": [rho > 0], "step_smooth": [], "calc_facB": [x > 0, dc > 0], "Is_limb_1st": U01 + [d >= 0]}[name]

        def fals(seed, n):
            import random
            r = random.Random(seed)
            for _ in range(40):
                e = {"in_source": (r.uniform(0, .2), .1), "step_smooth": (r.gauss(0, 1), 100.), "calc_facB": (10 ** r.uniform(-4, 0), .01), "Is_limb_1st": (r.uniform(.97, 1.02), .3)}[name]
                o, w = fn(*[float(v) for v in e], 1., 1.)
                if abs(float(o) - float(w)) > 1e-6: return {"function": name, "args": e, "value_under_jvp": float(o), "plain_value": float(w)}
            return None

        def ens(r):
            gs = [Goal("same_value", r[0][()], r[1][()])]
            # whatever is returned under differentiation is the plain value or its documented sigmoid smoothing, nothing else
            if any(t.val in ("exp", "logistic") for t in tm.topo([r[0][()]]) if isinstance(t.val, str)):
                if name == "in_source": gs.append(Goal("documented_smoothing", r[0][()], sigmoid(100 * (rho - D) / rho)))
                elif name == "Is_limb_1st":
                    m2 = tm.max_(const(Fr(1, 1000)), 1 - d ** 2)
                    gs.append(Goal("documented_smoothing", r[0][()], 3 / tm.PI / (3 - u) * (1 - u * (1 - tm.sqrt(m2))) * sigmoid(100 * (1 - d))))
            return gs
        return Contract("jvp_value_" + name, fn, [A0(v) for v in a + [t1, t2]], ens, requires=req,
                        gens=dict(GENS, x=lambda r: r.uniform(.001, 2)), functions=["%s.%s[jvp]" % ("limb_darkening" if name[0] == "I" else "boundary", name)], falsify=fals)
    return mk


def jvp_tangent():
    import jax
    D, x, fac, t1, t2, dl, dc = R("dist"), R("x"), R("fac"), R("t1"), R("t2"), R("delta"), R("dc")

    def fn(D, rho, x, fac, d, u, dl, dc, t1, t2):
        _, a = jax.jvp(lambda p, q: bj().in_source(p, q), (D, rho), (t1, t2))
        _, b = jax.jvp(lambda p, q: bj().step_smooth(p, q), (x, fac), (t1, t2))
        _, c = jax.jvp(lambda p, q: lj().Is_limb_1st(p, q), (d, u), (t1, t2))
        _, e = jax.jvp(lambda p, q: bj().calc_facB(p, q), (dl, dc), (t1, t2))
        return a, b, c, e

    def ens(r):
        s = sigmoid(100 * (rho - D) / rho)
        s2 = sigmoid(fac * x)
        m = tm.sqrt(tm.max_(const(Fr(1, 1000)), 1 - d ** 2))
        s3 = sigmoid(100 * (1 - d))
        I0 = 3 / tm.PI / (3 - u)
        prof = 1 - u * (1 - m)
        # derivative of I0 * prof * sigmoid with mu clamped at the limb
        want = t2 * (-3 / tm.PI / (3 - u) ** 2 * (-1) * prof * s3 + I0 * (m - 1) * s3) + t1 * (I0 * u * (-d / m) * s3 - I0 * prof * 100 * s3 * (1 - s3))
        return [Goal("in_source_sigmoid_slope", r[0][()], 100 * s * (1 - s) * (D * t2 / rho ** 2 - t1 / rho)),
                Goal("step_sigmoid_slope", r[1][()], s2 * (1 - s2) * (fac * t1 + x * t2)),
                Goal("profile_slope", r[2][()], want),
                Goal("weight_slope", r[3][()], const(Fr(2, 3)) * t1)]
    return Contract("smooth_derivatives", fn, [A0(v) for v in (D, rho, x, fac, d, u, dl, dc, t1, t2)], ens, requires=[rho > 0, u < 3, dl > 0], positive=[rho, dl],
                    gens=dict(GENS, x=lambda r: r.gauss(0, .02), dist=lambda r: r.uniform(0, .5), rho=lambda r: r.uniform(.1, .5)),
                    functions=["boundary.in_source[jvp]", "boundary.step_smooth[jvp]", "limb_darkening.Is_limb_1st[jvp]", "boundary.calc_facB[jvp]"])


def distances(n, adaptive=False):
    def mk():
        p = params(n)
        L = lenses(n, p)
        r0, sh, wc = R("r0"), R("shift"), C("wc")
        th = jx.symarr("th", (2,), "R")
        lo, hi = R("lo"), R("hi")
        if adaptive:
            fn = lambda r0, th, lo, hi, wc, sh, *v: bj().distance_from_source_adaptive(r0, th, lo, hi, wc, sh, nlenses=n, **dict(zip(p, v)))
            args = [A0(r0), th, A0(lo), A0(hi), A0(wc), A0(sh)]
            ang = [lo + (hi - lo) * t for t in th]
        else:
            fn = lambda r0, th, wc, sh, *v: bj().distance_from_source(r0, th, wc, sh, nlenses=n, **dict(zip(p, v)))
            args = [A0(r0), th, A0(wc), A0(sh)]
            ang = list(th)

        def ens(r):
            return [Goal("shape", tm.TRUE if r[0].shape == (2,) else tm.FALSE)] + \
                [Goal("distance%d" % i, r[0][i], abs(lens_map(r0 * (tm.cos(ang[i]) + I * tm.sin(ang[i])) - sh, L) - wc)) for i in range(2)]
        return Contract("distance_%d%s" % (n, "_adaptive" if adaptive else ""), fn, args + [A0(v) for v in p.values()], ens, gens=GENS,
                        functions=["boundary.distance_from_source%s[nlenses=%d]" % ("_adaptive" if adaptive else "", n)])
    return mk


def contracts():
    c = {"profile_inside": profile_inside, "profile_sign": profile_sign, "nonnegative": nonneg, "unit_flux": unit_flux, "limb_cell_weight": facb, "membership": membership, "smooth_derivatives": jvp_tangent}
    for n in ("in_source", "step_smooth", "calc_facB", "Is_limb_1st"): c["jvp_value_" + n] = jvp_primal(n)
    for n in (2, 3):
        c["distance_%d" % n] = distances(n)
        c["distance_%d_adaptive" % n] = distances(n, True)
    return c
