from vc.spec import *
from vc.contract import Contract, Custom, Goal
from vc import jx
from vc.stub import patched
import vc.term as tm
import numpy as np
from props.P02 import image_poly, same_poly

EXPLAIN = ("Image finder and point-source magnification with the polynomial solver replaced by its contract (arbitrary root values): "
           "the polynomial handed to it is the image polynomial, every returned candidate is a root in the lens frame, the validity flag is exactly "
           "the residual test, and the magnification is the flagged sum of 1/|det J|.")
TRUST = ["the root solver is abstracted to arbitrary returned values here; its own contract is property P06"]


def ps():
    import microjax.point_source as m
    return m


def roots_hook(ctx, eqn, ins):
    co = jx.toT(ins[0])
    shp = eqn.outvars[0].aval.shape
    r = ctx.freshvars("root", shp, "C")
    off = ctx.__dict__.get("root_offset")
    if off is not None: r = jx.vmap1(lambda t: t - off, r)   # arbitrary root, named by its lens-frame position
    ctx.__dict__.setdefault("requests", []).append((co, [jx.toT(i) for i in ins[1:]], r))
    return [r]


NEEDS = {1: (), 2: ("a", "e1"), 3: ("a", "e1", "e2", "psi", "r3")}
CALLEES = {}


def callee_hook(kind, n):
    def h(ctx, eqn, ins):
        z, *p = [jx.toT(i) for i in ins]
        L = lenses(n, {k: v.ravel()[0] for k, v in zip(NEEDS[n], p)})
        return [jx.vmap1(lambda t: lens_map(t, L) if kind == "lens_eq" else jac(t, L), z)]
    return h


def against_contracts(f):
    """f traced with the lens map and the Jacobian determinant replaced by their contracts (P01); concrete runs use the real ones"""
    def run(*a):
        import jax
        m = ps()
        jax.clear_caches()

        def stub(kind):
            real = getattr(m, kind)

            def call(z, nlenses=2, **params):
                def body(z, *p): return real(z, nlenses=nlenses, **dict(zip(NEEDS[nlenses], p)))
                body.__name__ = body.__qualname__ = "contract_%s_%d" % (kind, nlenses)
                return jax.jit(body)(z, *[params[k] for k in NEEDS[nlenses]])
            return (m, kind, call)
        try:
            with patched(stub("lens_eq"), stub("lens_eq_det_jac")): return f(*a)
        finally: jax.clear_caches()
    return run


HOOKS = {"poly_roots": roots_hook, **{"contract_%s_%d" % (k, n): callee_hook(k, n) for k in ("lens_eq", "lens_eq_det_jac") for n in (1, 2, 3)}}


def centre(L): return sum((m * x for m, x in L), const(0))


def hooks_for(n, L):
    """for triple lenses an arbitrary root r of the shifted polynomial is named z = r + centre of mass"""
    if n != 3: return HOOKS
    off = centre(L)

    def h(ctx, eqn, ins):
        ctx.root_offset = off
        return roots_hook(ctx, eqn, ins)
    return {**HOOKS, "poly_roots": h}


def wshape(shape): return jx.symarr("w", shape, "C")


def phys(n):
    """user-level parameters -> (arg vars, lens-frame params dict, centre-of-mass offset)"""
    # the user parameters are written as functions of (a, e1, e2): s = 2a,
    # q = e1/e2, q3 = e3/e2 is a bijection between positive mass ratios and
    # positive mass fractions, so quantifying over (a, e1, e2) covers every (s, q, q3)
    if n == 1: return {}, {}, const(0)
    a, e1 = R("a"), R("e1")
    if n == 2:
        q = e1 / (1 - e1)
        return {"s": 2 * a, "q": q}, {"a": a, "e1": e1}, a * (1 - 2 * e1)
    e2 = R("e2")
    r3, psi = R("r3"), R("psi")
    return ({"s": 2 * a, "q": e1 / e2, "q3": (1 - e1 - e2) / e2, "r3": r3, "psi": psi}, {"a": a, "e1": e1, "e2": e2, "r3": r3, "psi": psi},
            a * (e2 - e1) / (e2 + e1))


TOLS = {2: "1e-6", 3: "1e-3"}
NIM = {1: 2, 2: 5, 3: 10}


def frac(s):
    from fractions import Fraction
    return const(Fraction(s))


def img_goals(n, w, L, z, mask, ctx, shape, call=0):
    """goals for the image finder called with source array w (term array)"""
    co, extra, roots = ctx.requests[call]
    g = []
    for i in np.ndindex(*shape):
        tag = "" if not shape else str(list(i))
        wi = w[i]
        # frame in which the polynomial was posed: returned z minus raw root
        sh = tm.const(0)
        if n == 3:
            m = [x for x, _ in L]
            sh = sum((mm * x for mm, x in L), const(0))  # centre of mass
        g += [Goal(t.name + tag, t.lhs, t.rhs) for t in same_poly(co[i], image_poly(wi - sh, [(mm, x - sh) for mm, x in L]), "requested_coeff")]
        for k in range(NIM[n]):
            g.append(Goal("image%d%s" % (k, tag), z[(k,) + i], roots[i + (k,)] + sh))
            g.append(Goal("valid%d%s" % (k, tag), mask[(k,) + i], tm.lt(tm.abs_(lens_map(z[(k,) + i], L) - wi), frac(TOLS[n]))))
    return g


def images(n, shape, custom=False):
    def mk():
        p = params(n)
        w = wshape(shape)
        L = lenses(n, p)
        N = NIM[n]
        if custom:
            zi = jx.symarr("zinit", shape + (N,), "C")
            fn = lambda w, zi, *v: ps()._images_point_source(w, nlenses=n, custom_init=True, z_init=zi, **dict(zip(p, v)))
            args = [w, zi]
        else:
            fn = lambda w, *v: ps()._images_point_source(w, nlenses=n, **dict(zip(p, v)))
            args = [w]

        def ens(r, ctx):
            z, mask = r
            g = [Goal("shape", tm.TRUE if z.shape == (N,) + shape and mask.shape == z.shape else tm.FALSE),
                 Goal("one_solve", tm.TRUE if len(ctx.requests) == 1 else tm.FALSE)]
            if n == 1: return g
            if custom:
                for i in np.ndindex(*zi.shape):
                    g.append(Goal("initial_guess%s" % list(i), ctx.requests[0][1][0].reshape(zi.shape)[i] if ctx.requests[0][1] else tm.const(-77), zi[i]))
            return g + img_goals(n, w, L, z, mask, ctx, shape)
        return Contract("images_%d%s%s" % (n, "x".join(map(str, shape)), "_init" if custom else ""), against_contracts(fn), args + [A0(v) for v in p.values()], ens, hooks=hooks_for(n, L), pre_ctx=True,
                        gens=PARAM_GENS, functions=["point_source._images_point_source[nlenses=%d]" % n], trusted=TRUST, falsify=lambda seed, k: num_images(n, seed, k))
    return mk


def images_1():
    d, ph = R("d"), R("phi")
    t = 1 + d
    u = t - 1 / t
    w = u * exp(I * ph)

    def ens(r):
        z, m = r
        g = [Goal("shape", tm.TRUE if z.shape == (2,) else tm.FALSE)]
        # the two images, in either order: product -w/wbar, sum w
        g.append(Goal("sum", z[0] + z[1], w))
        g.append(Goal("product", z[0] * z[1], -(w / conj(w))))
        for k in range(2):
            g.append(Goal("lens_eq%d" % k, lens_map(z[k], lenses(1, {})), w))
            g.append(Goal("valid%d" % k, m[k], tm.TRUE))
        return g
    return Contract("images_1", lambda w: ps()._images_point_source(w, nlenses=1), [A0(w)], ens, gens={"d": lambda r: 10 ** r.uniform(-4, 2)}, requires=[d > 0], positive=[d],
                    functions=["point_source._images_point_source[nlenses=1]"])


def mag_1():
    d, ph = R("d"), R("phi")
    t = 1 + d
    u = t - 1 / t
    w = u * exp(I * ph)
    return Contract("mag_1_closed_form", lambda w: ps().mag_point_source(w, nlenses=1), [A0(w)],
                    lambda r: [Goal("paczynski", r[0][()], (u * u + 2) / (u * (t + 1 / t)))], gens={"d": lambda r: 10 ** r.uniform(-4, 2)}, requires=[d > 0], positive=[d],
                    functions=["point_source.mag_point_source[nlenses=1]"])


def mag(n, shape):
    def mk():
        up, lp, xcm = phys(n)
        w = wshape(shape)
        L = lenses(n, lp)
        fn = lambda w, *v: ps().mag_point_source(w, nlenses=n, **dict(zip(up, v)))

        def ens(r, ctx):
            A = r[0]
            g = [Goal("shape", tm.TRUE if A.shape == shape else tm.FALSE)]
            wl = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape): wl[i] = w[i] - xcm
            co, _, roots = ctx.requests[0]
            sh = sum((mm * x for mm, x in L), const(0)) if n == 3 else const(0)
            for i in np.ndindex(*shape):
                tag = "" if not shape else str(list(i))
                g += [Goal(t.name + tag, t.lhs, t.rhs) for t in same_poly(co[i], image_poly(wl[i] - sh, [(mm, x - sh) for mm, x in L]), "requested_coeff")]
                tot = const(0)
                for k in range(NIM[n]):
                    z = roots[i + (k,)] + sh
                    ok = tm.lt(tm.abs_(lens_map(z, L) - wl[i]), frac(TOLS[n]))
                    tot = tot + tm.ite(ok, 1 / tm.abs_(jac(z, L)), const(0))
                g.append(Goal("sum_over_valid_images" + tag, A[i], tot))
            return g
        return Contract("mag_%d%s" % (n, "x".join(map(str, shape))), against_contracts(fn), [w] + [A0(v) for v in up.values()], ens, hooks=hooks_for(n, L), pre_ctx=True, gens=PARAM_GENS,
                        functions=["point_source.mag_point_source[nlenses=%d]" % n, "point_source.lens_eq_det_jac", "point_source.lens_eq"], trusted=TRUST,
                        falsify=lambda seed, k: num_mag(n, seed, k), max_paths=4000)
    return mk


def sequential(n):
    def mk():
        p = params(n)
        w = wshape((3,))
        L = lenses(n, p)
        fn = lambda w, *v: ps()._images_point_source_sequential(w, nlenses=n, **dict(zip(p, v)))

        def ens(r, ctx):
            z, mask = r
            N = NIM[n]
            g = [Goal("shape", tm.TRUE if z.shape == (N, 3) and mask.shape == (N, 3) else tm.FALSE), Goal("solves", tm.TRUE if len(ctx.requests) == 3 else tm.FALSE)]
            for t in range(3):
                sub_ = img_goals(n, np.array([w[t]], dtype=object).reshape(()), L, z[:, t], mask[:, t], ctx, (), call=t)
                g += [Goal("t%d/%s" % (t, q.name), q.lhs, q.rhs) for q in sub_]
                if t and n == 2:
                    init = ctx.requests[t][1][0].reshape(-1) if ctx.requests[t][1] else [tm.const(-77)] * N
                    for k in range(N): g.append(Goal("t%d/starts_from_previous%d" % (t, k), init[k], z[k, t - 1]))
            return g
        return Contract("sequential_%d" % n, against_contracts(fn), [w] + [A0(v) for v in p.values()], ens, hooks=hooks_for(n, L), pre_ctx=True, gens=PARAM_GENS, trusted=TRUST,
                        functions=["point_source._images_point_source_sequential[nlenses=%d]" % n], falsify=lambda seed, k: num_images(n, seed, k))
    return mk


# ---- concrete oracles on the real code (replay) ------------------------------
def nL(n, p):
    if n == 2: return [(p["e1"], p["a"]), (1 - p["e1"], -p["a"])]
    return [(p["e1"], p["a"]), (p["e2"], -p["a"]), (1 - p["e1"] - p["e2"], p["r3"] * np.exp(1j * p["psi"]))]


def nmap(z, L): return z - sum(m / np.conj(z - x) for m, x in L)


def njac(z, L):
    g = sum(m / np.conj(z - x) ** 2 for m, x in L)
    return 1 - abs(g) ** 2


def num_images(n, seed, k):
    import random
    if n == 1: return None
    r = random.Random(seed)
    for _ in range(k):
        p = {x: PARAM_GENS[x](r) for x in params(n)}
        sc = 10 ** r.uniform(-2, 1.2)
        w = np.array([complex(r.gauss(0, sc), r.gauss(0, sc)) for _ in range(3)])
        L = nL(n, p)
        for nm, f in (("images", lambda: ps()._images_point_source(w, nlenses=n, **p)), ("sequential", lambda: ps()._images_point_source_sequential(w, nlenses=n, **p))):
            z, m = map(np.asarray, f())
            res = np.abs(nmap(z, L) - w)
            t = float(TOLS[n])
            bad = np.isfinite(res) & ((m & (res > t * 1.5)) | (~m & (res < t / 1.5)))
            if bad.any() or z.shape != (NIM[n], 3):
                return {"function": nm, "nlenses": n, "params": {a: float(b) for a, b in p.items()}, "w": repr(w.tolist()), "observed": "valid flags %s with residuals %s" % (m.tolist(), res.tolist())}
            if nm == "images":
                cnt = m.sum(0)
                okc = {2: (3, 5), 3: (4, 6, 8, 10)}[n]
                true = [true_images(L, wi) for wi in w]
                for j in range(3):
                    ti = true[j]
                    if ti is None: continue
                    miss = [zz for zz in ti if min(abs(zz - z[:, j][m[:, j]]), default=9) > 1e-3 * max(1, abs(zz))]
                    if miss: return {"function": nm, "nlenses": n, "params": {a: float(b) for a, b in p.items()}, "w": repr(w[j]), "observed": "image missing", "missing": repr(miss)}
    return None


def true_images(L, w):
    """independent solver: high-precision roots of the image polynomial; None if ill-conditioned"""
    import mpmath as mp
    p = np.array([1.0 + 0j])
    with mp.workdps(40):
        mul_ = lambda a, b: [sum((a[i] * b[k - i] for i in range(len(a)) if 0 <= k - i < len(b)), mp.mpc(0)) for k in range(len(a) + len(b) - 1)]
        def add_(a, b):
            n = max(len(a), len(b)); a = [mp.mpc(0)] * (n - len(a)) + a; b = [mp.mpc(0)] * (n - len(b)) + b
            return [x + y for x, y in zip(a, b)]
        def prod(l):
            r = [mp.mpc(1)]
            for q in l: r = mul_(r, q)
            return r
        L = [(mp.mpf(float(m)), mp.mpc(complex(x))) for m, x in L]
        w = mp.mpc(complex(w))
        n = len(L)
        lin = [[mp.mpc(1), -x] for _, x in L]
        Q = prod(lin)
        S = [mp.mpc(0)]
        for j in range(n): S = add_(S, [L[j][0] * c for c in prod([lin[k] for k in range(n) if k != j])])
        N = [add_([(mp.conj(w) - mp.conj(x)) * c for c in Q], S) for _, x in L]
        P = mul_([mp.mpc(1), -w], prod(N))
        for i in range(n): P = add_(P, [-(L[i][0] * c) for c in mul_(Q, prod([N[k] for k in range(n) if k != i]))])
        try: zs = mp.polyroots(P, maxsteps=200, extraprec=100)
        except Exception: return None
        out = []
        for z in zs:
            res = abs(z - sum(m / mp.conj(z - x) for m, x in L) - w)
            if res < 1e-18:
                g = sum(m / mp.conj(z - x) ** 2 for m, x in L)
                if abs(1 - abs(g) ** 2) < 1e-3 or abs(g) > 1e3: return None
                out.append(complex(z))
            elif res < 1e-2: return None
    return out


def num_mag(n, seed, k):
    import random
    r = random.Random(seed)
    up, _, _ = phys(n)
    for _ in range(min(k, 60)):
        p = {x: PARAM_GENS[x](r) for x in up}
        if p.get("s", 1) > 4: continue
        sc = 10 ** r.uniform(-1.5, 0.8)
        w = complex(r.gauss(0, sc), r.gauss(0, sc))
        a = p["s"] / 2
        if n == 2: lp = {"a": a, "e1": p["q"] / (1 + p["q"])}
        else:
            t = 1 + p["q"] + p["q3"]
            lp = {"a": a, "e1": p["q"] / t, "e2": 1 / t, "r3": p["r3"], "psi": p["psi"]}
        L = nL(n, lp)
        xcm = a * (1 - p["q"]) / (1 + p["q"])
        ti = true_images(L, w - xcm)
        if ti is None or min(m for m, _ in L) < 1e-3: continue
        exp_ = sum(1 / abs(njac(z, L)) for z in ti)
        got = float(np.asarray(ps().mag_point_source(np.array([w, w]), nlenses=n, **p))[1])
        if not abs(got - exp_) < 2e-3 * exp_:
            return {"function": "mag_point_source", "nlenses": n, "params": p, "w": repr(w), "observed": got, "expected": exp_}
    return None


def rejects():
    def run(seed, thorough):
        out = []
        m = ps()
        for nm, f in (("map", lambda k: m.lens_eq(1 + 1j, nlenses=k, a=.5, e1=.3, e2=.2, r3=.4, psi=.2)), ("det", lambda k: m.lens_eq_det_jac(1 + 1j, nlenses=k, a=.5, e1=.3, e2=.2, r3=.4, psi=.2)),
                      ("mag", lambda k: m.mag_point_source(1 + 1j, nlenses=k, s=1., q=.3, q3=.2, r3=.4, psi=.2)), ("images", lambda k: m._images_point_source(1 + 1j, nlenses=k, a=.5, e1=.3, e2=.2, r3=.4, psi=.2)),
                      ("curves", lambda k: m.critical_and_caustic_curves(npts=8, nlenses=k, s=1., q=.3, q3=.2, r3=.4, psi=.2))):
            for k in (0, 4, 5):
                try:
                    f(k)
                    out.append({"name": "rejects/%s_%d" % (nm, k), "status": "refuted", "backend": "", "reason": "unsupported number of lenses accepted", "replay": {"call": nm, "nlenses": k}})
                except ValueError:
                    out.append({"name": "rejects/%s_%d" % (nm, k), "status": "bounded-ok", "backend": "execution", "reason": ""})
                except Exception as e:
                    out.append({"name": "rejects/%s_%d" % (nm, k), "status": "refuted", "backend": "", "reason": repr(e), "replay": {"call": nm, "nlenses": k}})
        return out
    return Custom("rejects", run, bounded="unsupported lens counts: 0, 4, 5 executed")


def contracts():
    d = {"images_3x2": images(3, (2,)), "mag_3x2": mag(3, (2,)), "mag_2x2x2": mag(2, (2, 2)), "sequential_3": sequential(3), "sequential_2": sequential(2),
         "images_2": images(2, ()), "images_2x2x2": images(2, (2, 2)), "images_2_init": images(2, (2,), True), "images_3": images(3, ()),
         "mag_2": mag(2, ()), "mag_3": mag(3, ()), "mag_2x3": mag(2, (3,)), "images_1": lambda: images_1(), "mag_1_closed_form": lambda: mag_1(), "rejects": rejects}
    return d
