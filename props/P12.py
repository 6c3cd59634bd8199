from vc.spec import *
from vc.contract import Contract, Custom, Goal
from vc import jx
from vc.stub import Stub, patched, raw, trace_then_run
from vc.prove import Prover, Domain
from vc.moments import Moments, same_program
from vc.direct import bounded_oracle, nonzero_hooks
import vc.term as tm
import numpy as np
from fractions import Fraction as Fr
from props.P09 import Acc, rec

EXPLAIN = ("The line integral is proved equal to the shoelace sum for any number of vertices (sums abstracted along the contour, the padding step handled by its own obligation) and for every fill level of short buffers; "
           "starting vertex, orientation and origin independence are lemmas on the real function. The limb-darkened integrand is proved to be Dominik's P/Q primitives with the stated quadrature, the profile formula is proved, "
           "and the public routine is checked against the contracts of its callees: frames, parameters, tail index of every contour, parity weights, absolute value and source area.")


def ig():
    import microjax.caustics.integrate as m
    return m


def ct():
    import microjax.caustics.extended_source.contours as m
    return m


def mg():
    import microjax.caustics.extended_source.mag as m
    return m


def x_(z): return tm.real(z)
def y_(z): return tm.imag(z)


def shoelace(z, k): return sum(((x_(z[i]) * y_(z[i + 1]) - x_(z[i + 1]) * y_(z[i])) / 2 for i in range(k)), const(0))


def np_shoelace(z): return 0.5 * np.sum(z.real[:-1] * z.imag[1:] - z.real[1:] * z.imag[:-1])


def fals_unif(seed, k):
    import jax.numpy as jnp
    r = np.random.default_rng(seed)
    for j in range(60):
        n = int(r.integers(2, 30))
        z = r.normal(size=n) + 1j * r.normal(size=n) + r.normal()
        pad = int(r.integers(0, 2)) * int(r.integers(1, 20))
        buf = np.concatenate([z, np.zeros(pad, complex)])
        got = float(ig()._integrate_unif(jnp.asarray(buf), n - 1))
        want = np_shoelace(z)
        if not abs(got - want) <= 1e-9 * (1 + np.sum(np.abs(z) ** 2)): return {"function": "caustics.integrate._integrate_unif", "vertices": repr(z.tolist()), "padding": pad, "observed": got, "expected": want}
    return None


def prefix(N, M, traced):
    def mk():
        z = np.array([C("z[%d]" % i) if i < N else tm.to_c(const(0)) for i in range(M)], dtype=object)
        if traced: fn, args = (lambda z, t: ig()._integrate_unif(z, t)), [z, A0(const(N - 1, "I"))]
        else: fn, args = (lambda z: ig()._integrate_unif(z, N - 1)), [z]
        return Contract("prefix_%d_%d%s" % (N, M, "_traced" if traced else ""), fn, args, lambda r: [Goal("line_integral", r[0][()], shoelace(z, N - 1))], functions=["caustics.integrate._integrate_unif"], falsify=fals_unif)
    return mk


def anylength():
    N = 5
    z = jx.symarr("z", (N + 1,), "C")
    M = Moments([z[:-1], z[1:]])
    return Contract("any_length", lambda z: ig()._integrate_unif(z, N), [z], lambda r: [Goal("line_integral", r[0][()], M.sum(shoelace(z, 1)))], hooks=M.hooks(),
                    functions=["caustics.integrate._integrate_unif"], falsify=fals_unif, note="any number of vertices")


def lemmas(N):
    def mk():
        z = jx.symarr("z", (N,), "C")
        c = C("c")

        def fn(z, c):
            import jax.numpy as jnp
            I = lambda v: ig()._integrate_unif(v, N)
            cl = lambda v: jnp.concatenate([v, v[:1]])
            return I(cl(z)), I(cl(jnp.roll(z, -1))), I(cl(z)[::-1]), I(cl(z + c))
        return Contract("closed_%d" % N, fn, [z, A0(c)], lambda r: [Goal("starting_vertex", r[1][()], r[0][()]), Goal("orientation", r[2][()], -r[0][()]), Goal("origin", r[3][()], r[0][()]),
                                                                  Goal("area", r[0][()], shoelace(list(z) + [z[0]], N))], functions=["caustics.integrate._integrate_unif"], falsify=fals_unif, min_goals=4)
    return mk


def vmapfn(name, a):
    o = np.empty(np.shape(a), dtype=object)
    for i in np.ndindex(*o.shape): o[i] = tm.fn(name, x_(a[i]), y_(a[i]), sort="R") if a[i].sort == "C" else tm.fn(name, a[i], sort="R")
    return o


def prof_stub(m, seen):
    import jax.numpy as jnp

    def real(z, rho, w0, u1=0.0, nlenses=2, **params): pass

    def h(c, ar, st):
        seen.append((ar, st))
        return [vmapfn("prof", ar["z"])]
    return Stub("profile", real, lambda f: jnp.zeros(jnp.shape(f["z"])), h)


def gl(f, a, b, n):
    p, w = np.polynomial.legendre.leggauss(n)
    t = const(0)
    for k in range(n): t = t + (b - a) / 2 * f((b - a) / 2 * const(float(p[k])) + (b + a) / 2) * const(float(w[k]))
    return t


def absr(x): return tm.abs_(x)


def split(a, b, rho):
    d = absr(b - a)
    return tm.ite(tm.le(d / 2, 2 * rho), a + d / 2, tm.ite(tm.lt(a, b), b - 2 * rho, b + 2 * rho))


def ld(N, pad, npts, n=2):
    """the limb-darkened contour integral, for an arbitrary profile"""
    def run(seed, thorough):
        m = ig()
        M = N + pad
        z = np.array([C("z[%d]" % i) if i < N else tm.to_c(const(0)) for i in range(M)], dtype=object)
        w0, rho, u1 = C("w0"), R("rho"), R("u1")
        p = params(n)
        seen = []
        S = prof_stub(m, seen)

        def fn(z, w0, rho, u1, *v):
            with patched((m, "_brightness_profile", S)):
                return raw(m._integrate_ld)(z, N - 1, w0, rho, u1=u1, nlenses=n, npts=npts, **dict(zip(p, v)))
        tag = "limb_darkened_%d_%d_%d" % (N, M, npts)
        acc = Acc(tag, seed, lambda: fals_ld(seed))
        go = trace_then_run(fn, [z, A0(w0), A0(rho), A0(u1)] + [A0(v) for v in p.values()], [S])
        outs, ctx = go()
        acc.check("profile_calls", len(seen) >= 1, "the profile is never evaluated")
        for ar, st in seen:
            acc.eq("profile.w0", ar["w0"][()], w0)
            acc.eq("profile.rho", ar["rho"][()], rho)
            acc.eq("profile.u1", ar["u1"][()], u1)
            acc.check("profile.nlenses", st.get("nlenses") == n, str(st))
            for k in p: acc.eq("profile." + k, ar[k][()], p[k])
        z0 = sum(z[:N], const(0)) / N
        n1 = npts // 2
        P, Q = [], []
        for k in range(N):
            X, Y = x_(z[k]), y_(z[k])
            fP, fQ = (lambda t: tm.fn("prof", X, t, sort="R")), (lambda t: tm.fn("prof", t, Y, sort="R"))
            a, b = y_(z0), Y
            s = split(a, b, rho)
            P.append((gl(fP, a, s, n1) + gl(fP, s, b, npts - n1)) / -2)
            a, b = x_(z0), X
            s = split(a, b, rho)
            Q.append((gl(fQ, a, s, n1) + gl(fQ, s, b, npts - n1)) / 2)
        want = sum(((P[i] + P[i + 1]) / 2 * (x_(z[i + 1]) - x_(z[i])) + (Q[i] + Q[i + 1]) / 2 * (y_(z[i + 1]) - y_(z[i])) for i in range(N - 1)), const(0))
        acc.eq("primitives", outs[0][()], want)
        return acc.records()
    return lambda: Custom("limb_darkened_%d_%d" % (N, npts), run, functions=["caustics.integrate._integrate_ld[n=%d]" % N, "caustics.integrate._integrate_gauss_legendre"])


def ld_any(npts, n=2):
    """any number of vertices: the sums along the contour are abstracted"""
    def run(seed, thorough):
        m = ig()
        N = 4
        z = jx.symarr("z", (N + 1,), "C")
        w0, rho, u1, Sz = C("w0"), R("rho"), R("u1"), C("sum_of_vertices")
        p = params(n)
        S = prof_stub(m, [])

        def fn(z, w0, rho, u1, *v):
            with patched((m, "_brightness_profile", S)):
                return raw(m._integrate_ld)(z, N, w0, rho, u1=u1, nlenses=n, npts=npts, **dict(zip(p, v)))
        acc = Acc("limb_darkened_any_length", seed, lambda: fals_ld(seed))
        go = trace_then_run(fn, [z, A0(w0), A0(rho), A0(u1)] + [A0(v) for v in p.values()], [S])
        M = Moments([z[:-1], z[1:]], mixed=True)
        hk = M.hooks()
        red = hk["prim:reduce_sum"]

        def total(ctx, eqn, ins):
            a = jx.toT(ins[0])
            if a.shape == (N + 1,) and all(q is v for q, v in zip(a, z)): return [A0(Sz)]
            return red(ctx, eqn, ins)
        hk["prim:reduce_sum"] = total
        outs, ctx = go(hooks=hk)
        z0 = Sz / (N + 1)
        e = const(0)
        for a_, b_, s_, f in (("y", "x", -1, lambda k: lambda t: tm.fn("prof", x_(z[k]), t, sort="R")), ("x", "y", 1, lambda k: lambda t: tm.fn("prof", t, y_(z[k]), sort="R"))):
            A, B = (y_, x_) if a_ == "y" else (x_, y_)
            v = []
            for k in (0, 1):
                a, b = A(z0), A(z[k])
                s = split(a, b, rho)
                v.append((gl(f(k), a, s, npts // 2) + gl(f(k), s, b, npts - npts // 2)) * Fr(s_, 2))
            e = e + (v[0] + v[1]) / 2 * (B(z[1]) - B(z[0]))
        acc.eq("primitives", outs[0][()], M.sum(e))
        return acc.records()
    return lambda: Custom("limb_darkened_any_length", run, functions=["caustics.integrate._integrate_ld", "caustics.integrate._integrate_gauss_legendre"], note="any number of vertices")


# ---- independent numpy versions, used to replay failures ----
def np_lens(z, n, p):
    L = [(1.0, 0.0)] if n == 1 else [(p["e1"], p["a"]), (1 - p["e1"], -p["a"])] if n == 2 else \
        [(p["e1"], p["a"]), (p["e2"], -p["a"]), (1 - p["e1"] - p["e2"], p["r3"] * np.exp(1j * p["psi"]))]
    w = z
    for m_, x in L: w = w - m_ / (np.conj(z) - np.conj(x))
    return w


def np_prof(z, rho, w0, u1, n, p):
    r = np.abs(np_lens(z, n, p) - w0) / rho
    with np.errstate(invalid="ignore", divide="ignore"):
        B = np.where(r <= 1, 1 + np.sqrt(np.maximum(1 - r ** 2, 0)), 1 - np.sqrt(np.maximum(1 - 1 / r ** 2, 0)))
    return 3 / (3 - u1) * (u1 * B + 1 - 2 * u1)


def np_ld(z, w0, rho, u1, n, npts, p, prof=np_prof):
    """z: the vertices of the contour, padding removed"""
    z0 = z.sum() / len(z)
    n1 = npts // 2

    def line(f, a, b):
        s = np.where(np.abs(b - a) / 2 <= 2 * rho, a + np.abs(b - a) / 2, np.where(b > a, b - 2 * rho, b + 2 * rho))
        t = 0
        for lo, hi, k in ((a, s, n1), (s, b, npts - n1)):
            x, w = np.polynomial.legendre.leggauss(k)
            t = t + sum((hi - lo) / 2 * f((hi - lo) / 2 * xx + (hi + lo) / 2) * ww for xx, ww in zip(x, w))
        return t
    X, Y = z.real, z.imag
    P = -0.5 * line(lambda t: prof(X + 1j * t, rho, w0, u1, n, p), z0.imag, Y)
    Q = 0.5 * line(lambda t: prof(t + 1j * Y, rho, w0, u1, n, p), z0.real, X)
    return np.sum(0.5 * (P[:-1] + P[1:]) * np.diff(X)) + np.sum(0.5 * (Q[:-1] + Q[1:]) * np.diff(Y))


def rnd_params(r, n):
    if n == 1: return {}
    if n == 2: return {"a": r.uniform(.3, .8), "e1": r.uniform(.05, .5)}
    return {"a": r.uniform(.3, .8), "e1": r.uniform(.05, .4), "e2": r.uniform(.1, .4), "r3": r.uniform(.3, 1.2), "psi": r.uniform(-3, 3)}


def fals_ld(seed, k=None):
    m = ig()
    r = np.random.default_rng(seed)
    for j in range(24):
        n = 1 + j % 3
        N = int(r.integers(3, 12))
        th = np.sort(r.uniform(0, 6.28, N))
        sz = 10 ** r.uniform(-1.5, .5)
        z = r.normal() + 1j * r.normal() + sz * np.exp(1j * th) * r.uniform(.7, 1, N)
        if j % 4 == 1: z = z - z[1].real          # vertices on the axes
        if j % 4 == 2: z = z - 1j * z[1].imag
        z = np.append(z, z[0])
        p = rnd_params(r, n)
        w0 = complex(np_lens(z[0], n, p)) + .1
        rho, u1, npts = 10 ** r.uniform(-1.5, 0), r.uniform(0, 1), int(r.integers(2, 9))
        pad = int(r.integers(0, 2)) * 5
        got = float(m._integrate_ld(np.concatenate([z, np.zeros(pad, complex)]), len(z) - 1, w0, rho, u1=u1, nlenses=n, npts=npts, **p))
        want = float(np_ld(z, w0, rho, u1, n, npts, p))
        if not abs(got - want) <= 1e-8 * (1 + np.sum(np.abs(z) ** 2)):
            return {"function": "caustics.integrate._integrate_ld", "vertices": repr(z.tolist()), "padding": pad, "w0": repr(w0), "rho": rho, "u1": u1, "npts": npts, "nlenses": n, "params": p, "observed": got, "expected": want}
    return None


def fals_prof(seed, k=None):
    r = np.random.default_rng(seed)
    for j in range(200):
        n = 1 + j % 3
        p = rnd_params(r, n)
        z = complex(r.normal(), r.normal())
        rho, u1 = 10 ** r.uniform(-2, 0), r.uniform(0, 1)
        w0 = complex(np_lens(z, n, p)) + rho * r.uniform(0, 2) * np.exp(1j * r.uniform(0, 6))
        got, want = float(ig()._brightness_profile(z, rho, w0, u1=u1, nlenses=n, **p)), float(np_prof(z, rho, w0, u1, n, p))
        if not abs(got - want) <= 1e-6: return {"function": "caustics.integrate._brightness_profile", "z": repr(z), "rho": rho, "w0": repr(w0), "u1": u1, "nlenses": n, "params": p, "observed": got, "expected": want}
    return None


def profile(n):
    """linear limb darkening, continued beyond the limb as in Dominik (1998)"""
    def mk():
        p = params(n)
        z, w0, rho, u = C("z"), C("w0"), R("rho"), R("u1")
        W = C("W")
        args = [z, rho, w0, u] + list(p.values())

        def lens_eq(ctx, eqn, ins):
            # contract of lens_eq (P01): the image of z under the lens map with these parameters
            a = [jx.toT(i) for i in ins]
            got = [v[()] for v in a if v.shape == ()]
            if [v.id for v in got] == [v.id for v in [z] + [p[k] for k in sorted(p)]]: return [A0(W)]   # keyword arguments are passed in sorted order
            return None
        r = abs((W if n == 3 else lens_map(z, lenses(n, p))) - w0) / rho

        def ens(o):
            I = o[0][()]
            inside = tm.le(r, const(1))
            B1, B2 = 1 + tm.sqrt(1 - r ** 2), 1 - tm.sqrt(1 - 1 / r ** 2)
            val = lambda B: 3 / (3 - u) * (u * B + 1 - 2 * u)
            return [Goal("inside", I, val(B1), hyps=[tm.lt(r, const(1))]), Goal("outside", I, val(B2), hyps=[tm.lt(const(1), r)])]
        return Contract("profile_%d" % n, lambda z, rho, w0, u, *v: ig()._brightness_profile(z, rho, w0, u1=u, nlenses=n, **dict(zip(p, v))), [A0(v) for v in (z, rho, w0, u)] + [A0(v) for v in p.values()], ens,
                        requires=[rho > 0, u < 3], positive=[rho], gens=dict(PARAM_GENS), hooks={"lens_eq": lens_eq} if n == 3 else {}, functions=["caustics.integrate._brightness_profile[nlenses=%d]" % n], falsify=fals_prof, min_goals=2)
    return mk


# ---- contours from segments ----
def real_index(acc, what, t, want, hyp):
    from vc import smt
    if t is const(want, "I"): return acc.check(what, True)
    r, _ = smt.check(list(hyp) + [tm.not_(tm.eq(t, const(want, "I")))], 20000, want_model=False)
    return acc.check(what, r == "unsat", "index %s, expected %d" % (tm.pretty(t, 3), want))


def nz(zs):
    """symbols of vertices: the real part is not zero"""
    return [tm.not_(tm.eq(tm.real(v), const(0))) for v in zs if v.op == "var"]


def closed_segments(n_seg, N):
    def mk():
        s = jx.symarr("s", (n_seg, 2, N), "C")

        def ens(r):
            g = [Goal("shape", tm.TRUE if r[0].shape[0] == n_seg and r[1].shape == (n_seg,) else tm.FALSE)]
            for i in range(n_seg):
                g += [Goal("parity%d" % i, r[1][i], tm.real(s[i, 1, 0]))]
                for c in range(N + 1): g.append(Goal("vertex%d_%d" % (i, c), r[0][i, c], s[i, 0, c % N]))
                for c in range(N + 1, r[0].shape[1]): g.append(Goal("padding%d_%d" % (i, c), r[0][i, c], const(0)))
            return g
        return Contract("closed_segments_%d" % N, lambda s: ct()._contours_from_closed_segments(s), [s], ens, functions=["caustics.extended_source.contours._contours_from_closed_segments"])
    return mk


def open_segments(fills, L):
    """fills: number of vertices of every merged contour (0: no contour)"""
    def run(seed, thorough):
        import jax.numpy as jnp
        m = ct()
        K = len(fills)
        tag = "open_segments_" + "_".join(map(str, fills))
        acc = Acc(tag, seed, lambda: fals_open(fills, L, seed))
        seg = jx.symarr("seg", (2, 2, 3), "C")
        z = np.empty((K, 2, L), dtype=object)
        for k in range(K):
            for c in range(2):
                for i in range(L): z[k, c, i] = C("m[%d,%d,%d]" % (k, c, i)) if i < fills[k] else tm.to_c(const(0))
        S = Stub("merge", m._merge_open_segments, lambda f: jnp.zeros((K, 2, L), complex), lambda c, a, s: [z])

        def fn(seg):
            with patched((m, "_merge_open_segments", S)): return m._contours_from_open_segments(seg, max_nr_of_contours=K)
        go = trace_then_run(fn, [seg], [S])
        (c, p), _ = go(hooks=nonzero_hooks(z.ravel()))
        acc.arr("merged_segments", S.calls[0][0]["segments"], seg)
        acc.check("number_of_contours", S.calls[0][1].get("max_nr_of_contours", K) == K and c.shape[0] == K, str(S.calls[0][1]))
        hyp = []
        pr = Prover(Domain(dict(PARAM_GENS), hyp, seed=seed), budget_s=60)

        def eq(what, a, b): acc.check(what, a is b or pr.prove(Goal(what, a, b)).status == "proved", "%s, expected %s" % (tm.pretty(a, 4)[:120], tm.pretty(b, 3)))
        for k in range(K):
            eq("parity", p[k], tm.real(z[k, 1, 0]))
            for i in range(c.shape[1]):
                if i < fills[k]: eq("vertices_kept", c[k, i], z[k, 0, i])
                elif i == fills[k]: eq("closed_by_first_vertex", c[k, i], z[k, 0, 0])
                else: eq("padding", c[k, i], tm.to_c(const(0)))
        return acc.records()
    return lambda: Custom("open_segments_" + "_".join(map(str, fills)), run, functions=["caustics.extended_source.contours._contours_from_open_segments", "utils.last_nonzero"])


def fals_open(fills, L, seed):
    m = ct()
    r = np.random.default_rng(seed)
    for _ in range(10):
        z = r.normal(size=(len(fills), 2, L)) + 1j * r.normal(size=(len(fills), 2, L))
        for k, f in enumerate(fills): z[k, :, f:] = 0
        with patched((m, "_merge_open_segments", lambda *a, **k: z)): c, p = m._contours_from_open_segments(z)
        w = z[:, 0].copy()
        for k, f in enumerate(fills):
            if f: w[k, f] = w[k, 0]
        if np.shape(c) != w.shape or not np.array_equal(np.asarray(c), w) or not np.array_equal(np.asarray(p), z[:, 1, 0].real):
            return {"function": "contours._contours_from_open_segments", "merged": repr(z.tolist()), "observed": repr((np.asarray(c).tolist(), np.asarray(p).tolist())), "expected": repr((w.tolist(), z[:, 1, 0].real.tolist()))}
    return None


# ---- the public routine ----
UP = {1: [], 2: ["s", "q"], 3: ["s", "q", "q3", "r3", "psi"]}


def area_stub(name, real, table):
    import jax.numpy as jnp

    def h(c, a, st):
        z = a["z"]
        t = a["tidx"][()] if "tidx" in a else const(int(st["tidx"]), "I")
        table.append((z, t, a, st))
        return [A0(tm.fn("area", *[f(v) for v in z for f in (x_, y_)], sort="R"))]
    return Stub(name, real, lambda f: jnp.zeros(()), h, static=())


def glue(n, limb):
    def run(seed, thorough):
        import jax.numpy as jnp
        m = mg()
        tag = "%s_%d" % ("limb_dark" if limb else "uniform", n)
        acc = Acc(tag, seed, lambda: fals_glue(n, limb, seed))
        w, rho, u1 = C("w"), R("rho"), R("u1")
        P = {k: R(k) for k in UP[n]}
        a = P["s"] / 2 if n > 1 else None
        tot = 1 + P["q"] + (P["q3"] if n == 3 else const(0)) if n > 1 else None
        xcm = a * (1 - P["q"]) / (1 + P["q"]) if n > 1 else const(0)
        lens = {} if n == 1 else {"a": a, "e1": P["q"] / tot}
        if n == 3: lens.update(e2=1 / tot, r3=P["r3"], psi=P["psi"])
        NI, NP = {1: 2, 2: 2, 3: 2}[n], 3
        z, zm, zp = jx.symarr("z", (NI, NP), "C"), jx.symarr("zm", (NI, NP), "B"), jx.symarr("zp", (NI, NP), "R")
        sc, so, ac = jx.symarr("sc", (NI, 2, NP), "C"), jx.symarr("so", (4, 2, NP), "C"), tm.var("allclosed", "B")
        L = 6
        oc = np.empty((3, L), dtype=object)
        fills = [L, 4, 0]
        for k in range(3):
            for i in range(L): oc[k, i] = C("oc[%d,%d]" % (k, i)) if i < fills[k] else tm.to_c(const(0))
        op = jx.symarr("op", (3,), "R")
        areas = []
        S = {"_images_of_source_limb": Stub("limb", m._images_of_source_limb, lambda f: (jnp.zeros((NI, NP), complex), jnp.zeros((NI, NP), bool), jnp.zeros((NI, NP))), lambda c, a_, s_: [z, zm, zp], static=("npts",)),
             ("_integrate_ld" if limb else "_integrate_unif"): area_stub("area", raw(getattr(m, "_integrate_ld" if limb else "_integrate_unif")), areas)}
        if n > 1:
            S["_get_segments"] = Stub("segments", m._get_segments, lambda f: (jnp.zeros((NI, 2, NP), complex), jnp.zeros((4, 2, NP), complex), jnp.zeros((), bool)), lambda c, a_, s_: [sc, so, A0(ac)])
            S["_contours_from_open_segments"] = Stub("open", m._contours_from_open_segments, lambda f: (jnp.zeros((3, L), complex), jnp.zeros(3)), lambda c, a_, s_: [oc, op])

        def fn(w, rho, u1, *v):
            with patched(*[(m, k, x) for k, x in S.items()]):
                kw = dict(nlenses=n, npts_limb=46, **dict(zip(UP[n], v)))
                if limb: kw.update(limb_darkening=True, u1=u1, npts_ld=34)
                return raw(m.mag_extended_source)(w, rho, **kw)
        go = trace_then_run(fn, [A0(w), A0(rho), A0(u1)] + [A0(v) for v in P.values()], list(S.values()))
        outs, ctx = go(hooks=nonzero_hooks(oc.ravel()))
        call = lambda k: S[k].calls[0]
        for k in S:
            if not acc.check("calls_%s" % k.strip("_"), bool(S[k].calls), "never called"): return acc.records()
        ar, st, _ = call("_images_of_source_limb")
        acc.eq("limb.w0", ar["w0"][()], w - xcm)
        acc.eq("limb.rho", ar["rho"][()], rho)
        acc.check("limb.options", st.get("nlenses") == n and st.get("npts") == 46, str(st))
        for k in lens: acc.eq("limb." + k, ar[k][()], lens[k])
        hyp = nz(oc.ravel())
        closed = []
        if n == 1: closed = [(list(z[k]) + [z[k, 0]], zp[k, 0]) for k in range(NI)]
        else:
            ar, st, _ = call("_get_segments")
            acc.arr("segments.z", ar["z"], z)
            acc.arr("segments.mask", ar["z_mask"], zm)
            acc.arr("segments.parity", ar["z_parity"], zp)
            acc.check("segments.nlenses", st.get("nlenses") == n, str(st))
            acc.arr("open.segments", call("_contours_from_open_segments")[0]["segments"], so)
            closed = [(list(sc[k, 0]) + [sc[k, 0, 0]], tm.real(sc[k, 1, 0])) for k in range(NI)]
        opened = [(list(oc[k]), op[k]) for k in range(3)] if n > 1 else []
        area = lambda c: tm.fn("area", *[f(v) for v in c for f in (x_, y_)], sort="R")
        for zz, t, ar, st in areas:
            # which contour is this, and is the whole of it integrated?
            ids = [v.id for v in zz]
            for c, _ in closed:
                if ids == [v.id for v in c]: real_index(acc, "closed.last_vertex", t, len(c) - 1, hyp); break
            else:
                for k, (c, _) in enumerate(opened):
                    if ids == [v.id for v in c]: real_index(acc, "open.last_vertex", t, max(fills[k] - 1, 0), hyp); break
                else: acc.check("integrated_contour", False, "an unknown contour is integrated")
            if limb:
                acc.eq("profile.w0", ar["w0"][()], w - xcm)
                acc.eq("profile.rho", ar["rho"][()], rho)
                acc.eq("profile.u1", ar["u1"][()], u1)
                acc.check("profile.options", st.get("nlenses") == n and int(st.get("npts", -1)) == 34, str(st))
                for k in lens: acc.eq("profile." + k, ar[k][()], lens[k])
        tot1 = sum((area(c) * p for c, p in closed), const(0))
        if n > 1: tot1 = tot1 + tm.ite(ac, const(0), sum((area(c) * p for c, p in opened), const(0)))
        acc.eq("magnification", outs[0][()], tm.abs_(tot1) / (tm.PI * rho ** 2))
        return acc.records()
    return lambda: Custom("%s_%d" % ("limb_dark" if limb else "uniform", n), run, functions=["caustics.extended_source.mag.mag_extended_source[nlenses=%d,limb_darkening=%s]" % (n, limb), "caustics.extended_source.contours._contours_from_closed_segments"])


def spec_mag(w, rho, n, P, limb, u1, npts_limb=60, npts_ld=20):
    """the documented composition, in numpy, on the images the real tracer returns"""
    from microjax.caustics.extended_source.limb import _images_of_source_limb
    from microjax.caustics.extended_source.segments import _get_segments, _merge_open_segments
    xcm, lens = 0.0, {}
    if n > 1:
        tot = 1 + P["q"] + (P["q3"] if n == 3 else 0)
        a = P["s"] / 2
        lens = {"a": a, "e1": P["q"] / tot}
        if n == 3: lens.update(e2=1 / tot, r3=P["r3"], psi=P["psi"])
        xcm = a * (1 - P["q"]) / (1 + P["q"])
    w = w - xcm
    z, zm, zp = _images_of_source_limb(w, rho, nlenses=n, npts=npts_limb, **lens)
    area = (lambda c: np_ld(c, w, rho, u1, n, npts_ld, lens)) if limb else np_shoelace
    if n == 1: cs = [(np.asarray(z[k]), float(np.real(zp[k, 0]))) for k in range(2)]
    else:
        sc, so, ac = _get_segments(z, zm, zp, nlenses=n)
        cs = [(np.asarray(s[0]), float(np.real(s[1, 0]))) for s in sc]
        if not bool(ac):
            for s in np.asarray(_merge_open_segments(so, max_nr_of_contours=3, max_nr_of_segments_in_contour=20)):
                k = np.nonzero(np.abs(s[0]) > 0)[0]
                if len(k): cs.append((s[0][:k[-1] + 1], float(np.real(s[1, 0]))))
    t = sum(area(np.append(c, c[0])) * p for c, p in cs if np.any(c != 0))
    return abs(t) / (np.pi * rho ** 2)


def rnd_public(r, n):
    if n == 1: return {}
    P = {"s": r.uniform(.6, 1.6), "q": 10 ** r.uniform(-2, 0)}
    if n == 3: P.update(q3=10 ** r.uniform(-2, -.3), r3=r.uniform(.4, 1.3), psi=r.uniform(-3, 3))
    return P


def fals_glue(n, limb, seed, k=6):
    m = mg()
    r = np.random.default_rng(seed)
    for j in range(k):
        P = rnd_public(r, n)
        w, rho, u1 = complex(r.uniform(-.4, .4), r.uniform(-.3, .3)), 10 ** r.uniform(-3, -1), r.uniform(.2, 1)
        kw = dict(limb_darkening=True, u1=u1, npts_ld=20) if limb else {}
        got = float(m.mag_extended_source(w, rho, nlenses=n, npts_limb=60, **kw, **P))
        want = float(spec_mag(w, rho, n, P, limb, u1))
        if not abs(got - want) <= 1e-6 * (1 + abs(want)):
            return {"function": "caustics.extended_source.mag_extended_source", "w": repr(w), "rho": rho, "u1": u1, "nlenses": n, "limb_darkening": limb, "params": P, "observed": got, "expected": want}
    return None


def end_to_end(seed, k):
    for j in range(k):
        f = fals_glue(1 + j % 3, bool((j + seed) % 2), 977 * seed + j, 1)
        if f: return f
    return None


def length_independent():
    import jax, jax.numpy as jnp

    def run(seed, thorough):
        out = []
        cz = lambda n: jax.ShapeDtypeStruct((n,), jnp.complex128)
        ti = jax.ShapeDtypeStruct((), jnp.int64)
        bad = same_program(lambda n: ((lambda z, t: ig()._integrate_unif(z, t)), [cz(n), ti]), [11, 151, 1009])
        for nm, b, f in (("uniform", bad, fals_unif),):
            if not b: out.append(rec("length_independent/" + nm, True, "jaxpr-comparison"))
            else:
                v = f(seed, 100)
                out.append({"name": "length_independent/" + nm, "status": "refuted" if v else "bounded-ok", "backend": "execution", "reason": "program differs at lengths %s" % b, **({"replay": v} if v else {})})
        return out
    return Custom("length_independent", run, functions=["caustics.integrate._integrate_unif"])


def contracts():
    d = {"any_length": anylength}
    for N in (2, 3, 4, 5):
        for M in (N, N + 1, N + 3): d["prefix_%d_%d" % (N, M)] = prefix(N, M, False)
        d["prefix_%d_traced" % N] = prefix(N, N + 2, True)
    for N in (3, 4, 5, 6): d["closed_%d" % N] = lemmas(N)
    d["ld_2"] = ld(2, 0, 3)
    d["ld_2_pad"] = ld(2, 2, 2)
    d["ld_3"] = ld(3, 0, 2)
    d["ld_any"] = ld_any(3)
    for n in (1, 2, 3):
        d["profile_%d" % n] = profile(n)
        for limb in (False, True): d["%s_%d" % ("limb_dark" if limb else "uniform", n)] = glue(n, limb)
    for N in (2, 4): d["closed_segments_%d" % N] = closed_segments(2, N)
    d["open_segments_a"] = open_segments((5, 3, 0), 6)
    d["open_segments_b"] = open_segments((1, 4, 2), 6)
    d["length_independent"] = length_independent
    d["end_to_end"] = bounded_oracle("end_to_end", end_to_end, 3, ["caustics.extended_source.mag_extended_source"], "random lens systems, contour areas recomputed from the vertices")
    return d
