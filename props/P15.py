from vc.spec import *
from vc.contract import Contract, Custom, Goal
from vc import jx
from vc.moments import Moments, NotUniform, same_program
from vc.prove import Prover, Domain
import vc.term as tm
from vc.direct import bounded_oracle
import numpy as np

EXPLAIN = ("linear_chi2 is proved, for any number of points, to return the stationary point of the documented weighted sum of squares (both normal equations), its residual sum of squares, and the "
           "square roots of the diagonal of the inverse normal matrix. Sums over the data are expanded by linearity into moment symbols; uniformity along the data axis is proved at each reduction.")

SIZES = [11, 13, 17, 101, 257, 1009]


def lk():
    import microjax.likelihood as m
    return m


def weights(err): return tm.ite(tm.lt(const(0), err), 1 / err ** 2, const(1))


def real_check(seed, k, sizes=(2, 3, 5, 40, 300)):
    """the documented optimum computed independently on random data"""
    m = lk()
    import jax.numpy as jnp
    for j in range(k):
        r = np.random.default_rng(1000 * seed + j)
        n = sizes[j % len(sizes)]
        x = r.normal(size=n) * 10 ** r.uniform(-1, 1)
        y = r.normal(size=n) + r.normal() * x
        mode = j % 4
        err = [np.abs(r.normal(size=n)) + 0.05, np.where(r.random(n) < 0.4, 0.0, np.abs(r.normal(size=n)) + 0.05), 0.0, 0.3][mode]
        w = np.broadcast_to(np.where(np.asarray(err) > 0, 1 / np.where(np.asarray(err) > 0, np.asarray(err), 1.0) ** 2, 1.0), (n,))
        D = np.stack([np.ones(n), x], 1)
        G = D.T @ (w[:, None] * D)
        if np.linalg.cond(G) > 1e8: continue
        a, b = np.linalg.solve(G, D.T @ (w * y))
        V = np.linalg.inv(G)
        want = np.array([b, V[1, 1] ** .5, a, V[0, 0] ** .5, np.sum(w * (y - a - b * x) ** 2)])
        args = (jnp.asarray(x), jnp.asarray(y)) + (() if mode == 2 and j % 8 < 4 else (jnp.asarray(err) if np.ndim(err) else err,))
        got = np.array([float(v) for v in m.linear_chi2(*args)])
        sc = np.maximum(np.abs(want), 1e-9 * np.sum(w * y * y) + 1e-12)
        if not np.all(np.abs(got - want) <= 1e-6 * sc):
            return {"function": "likelihood.linear_chi2", "inputs": {"x": x.tolist(), "y": y.tolist(), "err": np.asarray(err).tolist()}, "observed": got.tolist(), "expected": want.tolist()}
    return None


def fit(scalar_err, N):
    """any number of points"""
    def mk():
        m = lk()
        x, y = jx.symarr("x", (N,)), jx.symarr("y", (N,))
        if scalar_err: e = [A0(R("err"))]
        else: e = [jx.symarr("err", (N,))]
        M = Moments([x, y] + ([] if scalar_err else e))

        def ens(r):
            b, be, a, ae, chi2 = [v[()] for v in r]
            err = e[0][()] if scalar_err else e[0][0]
            w, X, Y = weights(err), x[0], y[0]
            res = Y - a - b * X
            Sw, Sx, Sxx = M.sum(w), M.sum(w * X), M.sum(w * X * X)
            det = Sw * Sxx - Sx * Sx
            nz = [tm.lt(const(0), det)]
            return [Goal("normal_equation_intercept", M.sum(w * res), const(0)), Goal("normal_equation_slope", M.sum(w * X * res), const(0)),
                    Goal("chi2_is_residual_sum", chi2, M.sum(w * res * res)),
                    Goal("intercept_variance", ae * ae, Sxx / det), Goal("slope_variance", be * be, Sw / det)]
        return Contract("fit_%s_err" % ("scalar" if scalar_err else "vector"), lambda *v: m.linear_chi2(*v), [x, y] + e, ens, hooks=M.hooks(), min_goals=5,
                        functions=["likelihood.linear_chi2"], falsify=lambda seed, k: real_check(seed, k), note="any number of points")
    return mk


def sized(N):
    """the same statement with N explicit points (also decides programs that are not uniform along the data axis)"""
    def mk():
        m = lk()
        x, y, e = jx.symarr("x", (N,)), jx.symarr("y", (N,)), jx.symarr("err", (N,))

        def ens(r):
            b, be, a, ae, chi2 = [v[()] for v in r]
            w = [weights(t) for t in e]
            S = lambda f: sum((f(i) for i in range(N)), const(0))
            res = [y[i] - a - b * x[i] for i in range(N)]
            Sw, Sx, Sxx = S(lambda i: w[i]), S(lambda i: w[i] * x[i]), S(lambda i: w[i] * x[i] * x[i])
            det = Sw * Sxx - Sx * Sx
            return [Goal("normal_equation_intercept", S(lambda i: w[i] * res[i]), const(0)), Goal("normal_equation_slope", S(lambda i: w[i] * x[i] * res[i]), const(0)),
                    Goal("chi2_is_residual_sum", chi2, S(lambda i: w[i] * res[i] ** 2)),
                    Goal("intercept_variance", ae * ae, Sxx / det), Goal("slope_variance", be * be, Sw / det)]
        return Contract("fit_%d_points" % N, lambda *v: m.linear_chi2(*v), [x, y, e], ens, gens={"err": lambda r: r.choice([0.0, r.uniform(.1, 2), r.uniform(.1, 2), r.uniform(-2, -.1)])},
                        functions=["likelihood.linear_chi2"], falsify=lambda seed, k: real_check(seed, k), min_goals=5)
    return mk


def default_err():
    def mk():
        m = lk()
        x, y = jx.symarr("x", (3,)), jx.symarr("y", (3,))

        def ens(r):
            b, be, a, ae, chi2 = [v[()] for v in r]
            res = [y[i] - a - b * x[i] for i in range(3)]
            return [Goal("unweighted_intercept", sum(res, const(0)), const(0)), Goal("unweighted_slope", sum((x[i] * res[i] for i in range(3)), const(0)), const(0)),
                    Goal("unweighted_chi2", chi2, sum((t * t for t in res), const(0)))]
        return Contract("default_err", lambda *v: m.linear_chi2(*v), [x, y], ens, functions=["likelihood.linear_chi2"], falsify=lambda seed, k: real_check(seed, k), min_goals=3)
    return mk


def length_independent():
    import jax, jax.numpy as jnp
    m = lk()

    def run(seed, thorough):
        out = []
        for nm, se in (("vector", False), ("scalar", True)):
            def mk(n):
                f = lambda x, y, e: m.linear_chi2(x, y, e)
                v = jax.ShapeDtypeStruct((n,), jnp.float64)
                return f, [v, v, jax.ShapeDtypeStruct((), jnp.float64) if se else v]
            bad = same_program(mk, SIZES)
            if not bad: out.append({"name": "length_independent/" + nm, "status": "proved", "backend": "jaxpr-comparison", "reason": ""})
            else:
                f = real_check(seed, 200, tuple(bad) + (2, 3, 4, 5, 6, 7, 8, 10, 20, 30, 64, 100, 128, 500, 1000, 2000))
                r = {"name": "length_independent/" + nm, "status": "refuted" if f else "bounded-ok", "backend": "execution", "reason": "program differs at lengths %s" % bad}
                if f: r["replay"] = f
                out.append(r)
        return out
    return Custom("length_independent", run, functions=["likelihood.linear_chi2"])


def contracts():
    d = {"fit_vector": fit(False, 7), "fit_scalar": fit(True, 7), "default_err": default_err(), "length_independent": length_independent}
    for N in (2, 3, 4): d["fit_%d" % N] = sized(N)
    d["end_to_end"] = bounded_oracle("end_to_end", real_check, 40, ["likelihood.linear_chi2"], "random data sets of 2..300 points")
    return d
