from vc.spec import *
from vc.contract import Contract, Custom, Goal
from vc import jx
from vc.stub import Stub, patched, raw, trace_then_run
from vc.prove import Prover, Domain
import vc.term as tm
import numpy as np
import itertools
from fractions import Fraction as Fr

EXPLAIN = ("The light-curve drivers are checked against the contracts of the routines they call (images, multipole, accuracy tests, finite-source integrators replaced by arbitrary values): "
           "arguments of every call are proved to be the documented ones, and for every outcome pattern of the tests, every budget and chunk size listed, entry i is the multipole value of epoch i "
           "or the finite-source value of epoch i exactly as documented. The accuracy tests are proved equal to their published formulas for all inputs.")


def lc():
    import microjax.inverse_ray.lightcurve as m
    return m


def cl():
    import microjax.caustics.lightcurve as m
    return m


def ce():
    import microjax.inverse_ray.cond_extended as m
    return m


def rec(name, ok, backend="", reason="", replay=None):
    r = {"name": name, "status": "proved" if ok else ("refuted" if replay else "failed"), "backend": backend, "reason": reason}
    if replay: r["replay"] = replay
    return r


class Acc:
    """accumulates equalities, proving each distinct one once"""

    def __init__(self, tag, seed, fals):
        self.tag, self.pr, self.done, self.bad, self.cnt, self.fals = tag, Prover(Domain(PARAM_GENS, [], seed=seed), budget_s=60), {}, [], {}, fals

    def tick(self, what):
        k = what.split("[")[0]
        self.cnt[k] = self.cnt.get(k, 0) + 1

    def eq(self, what, a, b):
        self.tick(what)
        if a is b: return True
        k = (a.id, b.id)
        if k not in self.done:
            res = self.pr.prove(Goal(what, a, b))
            self.done[k] = res.status == "proved"
            if not self.done[k]: self.bad.append((what, "%s: %s, expected %s" % (res.reason, tm.pretty(a, 4)[:160], tm.pretty(b, 4)[:160])))
        return self.done[k]

    def arr(self, what, a, b):
        a, b = jx.toT(a), jx.toT(b)
        if a.shape != b.shape:
            self.bad.append((what, "shape %s, expected %s" % (a.shape, b.shape)))
            return
        for i in np.ndindex(*a.shape): self.eq("%s%s" % (what, list(i)), a[i], b[i])

    def check(self, what, ok, why=""):
        self.tick(what)
        if not ok: self.bad.append((what, why))
        return ok

    def records(self):
        good = [rec(self.tag + "/" + k, True, "ring-normaliser", "%d instances" % c) for k, c in self.cnt.items()]
        if not self.bad: return good
        f = None
        try: f = self.fals()
        except Exception as e: pass
        out, seen = [], set()
        for w, why in self.bad:
            w0 = w.split("[")[0]
            if w0 in seen: continue
            seen.add(w0)
            out.append(rec("%s/%s" % (self.tag, w0), False, "", "%s: %s" % (w, why), f))
        bad = {w.split("[")[0] for w, _ in self.bad}
        return out[:4] + [g for g in good if g["name"].split("/")[1] not in bad]


def full_value(table, kind):
    def h(ctx, args, st):
        key = (kind,) + tuple((k, tuple(t.id for t in np.ravel(args[k]))) for k in sorted(args)) + tuple(sorted((k, str(v)) for k, v in st.items()))
        if key not in table: table[key] = (tm.var("full%d" % len(table), "R"), kind, args, st)
        x = np.empty((), dtype=object)
        x[()] = table[key][0]
        return [x]
    return h


CFG = dict(r_resolution=17, th_resolution=19, Nlimb=23, bins_r=29, bins_th=31, margin_r=0.3, margin_th=0.7)


def driver(n, u1, N, MAXs, chunks):
    """mag_binary / mag_triple"""
    import jax.numpy as jnp

    def run(seed, thorough):
        m = lc()
        up = ["s", "q"] if n == 2 else ["s", "q", "q3", "r3", "psi"]
        P = {k: R(k) for k in up}
        rho = R("rho")
        w = jx.symarr("w", (N,), "C")
        a = P["s"] / 2
        tot = 1 + P["q"] + (P["q3"] if n == 3 else const(0))
        e1, e2 = P["q"] / tot, 1 / tot
        xcm = a * (1 - P["q"]) / (1 + P["q"])
        wl = np.array([x - xcm for x in w], dtype=object)
        lens = {"a": a, "e1": e1}
        if n == 3: lens.update(e2=e2, r3=P["r3"], psi=P["psi"])
        acc = Acc("driver%d_u%s_N%d" % (n, u1, N), seed, lambda: fals(n, u1, seed))
        NI = 5 if n == 2 else 10
        fixed = {}

        def fix(tag, shape, sort):
            if tag not in fixed: fixed[tag] = jx.symarr(tag, shape, sort)
            return fixed[tag]
        outcome = {}
        for MAX, ck in [(x, y) for x in MAXs for y in chunks]:
            table = {}
            S = {}
            S["images"] = Stub("images", m._images_point_source, lambda f: (jnp.zeros((NI, N), complex), jnp.zeros((NI, N), bool)),
                               lambda c, a_, s_: [fix("z", (NI, N), "C"), fix("zm", (NI, N), "B")])
            S["hexa"] = Stub("hexa", m.mag_hexadecapole, lambda f: (jnp.zeros(N), jnp.zeros(N)), lambda c, a_, s_: [fix("mu", (N,), "R"), fix("delta", (N,), "R")])
            tests = {"prox": ("_caustics_proximity_test", 0), "plan": ("_planetary_caustic_test", 1)}
            for k, (nm, ix) in tests.items():
                if hasattr(m, nm): S[k] = Stub(k, getattr(m, nm), lambda f: jnp.zeros(N, bool), lambda c, a_, s_, ix=ix: [np.array([const(bool(v)) for v in outcome["t"][ix]], dtype=object)])
            S["uniform"] = Stub("uniform", m.mag_uniform, lambda f: jnp.zeros(()), full_value(table, "uniform"), static=("margin_r", "margin_th"))
            S["limb"] = Stub("limb", m.mag_limb_dark, lambda f: jnp.zeros(()), full_value(table, "limb"), static=("margin_r", "margin_th", "u1", "delta_c"))
            names = {"images": "_images_point_source", "hexa": "mag_hexadecapole", "prox": "_caustics_proximity_test", "plan": "_planetary_caustic_test", "uniform": "mag_uniform", "limb": "mag_limb_dark"}

            def fn(w, rho, *v):
                with patched(*[(m, names[k], S[k]) for k in S]):
                    f = raw(m.mag_binary if n == 2 else m.mag_triple)
                    kw = dict(CFG, u1=u1, delta_c=0.037, MAX_FULL_CALLS=MAX, chunk_size=ck)
                    return f(w, rho, **kw, **dict(zip(up, v)))
            go = trace_then_run(fn, [w, A0(rho)] + [A0(x) for x in P.values()], list(S.values()))
            pats = []
            rng = np.random.default_rng(seed)
            for b in itertools.product([False, True], repeat=N):
                if n == 3: pats.append((b, b, "eq")); break
                pats.append((b, tuple(bool(x) for x in rng.random(N) < .5), "ge"))
                pats.append((b, tuple([True] * N), "lt"))
                pats.append((tuple([True] * N), b, "lt"))
                pats.append((b, tuple(bool(x) for x in rng.random(N) < .6), "lt"))
            for t1, t2, rel in pats:
                outcome["t"] = (t1, t2)

                def cmp_hook(kind):
                    def h(ctx, eqn, ins):
                        if any(np.ndim(x) for x in ins): return None
                        x, y = jx.toT(ins[0])[()], jx.toT(ins[1])[()]
                        k = kind
                        if y is P["q"]: x, y, k = y, x, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[k]
                        if x is P["q"] and y.op == "const" and y.val == Fr(1, 100):
                            v = {"lt": rel == "lt", "le": rel == "lt", "gt": rel != "lt", "ge": rel != "lt"}[k] if rel != "ge0" else k == "ge"
                            return [np.asarray(v)]
                        return None
                    return h
                outs, ctx = go({"prim:" + k: cmp_hook(k) for k in ("lt", "gt", "le", "ge")}, max_unroll=4000)
                r = outs[0]
                if not acc.check("shape", r.shape == (N,), str(r.shape)): break
                # calls
                if acc.check("one_image_call", len(S["images"].calls) == 1) and acc.check("one_multipole_call", len(S["hexa"].calls) == 1):
                    ar, st, _ = S["images"].calls[0]
                    acc.arr("images.w", ar["w"], wl)
                    acc.check("images.nlenses", st["nlenses"] == n)
                    for k in lens: acc.eq("images." + k, ar[k][()], lens[k])
                    ar, st, _ = S["hexa"].calls[0]
                    acc.arr("multipole.z", ar["z"], fixed["z"])
                    acc.arr("multipole.z_mask", ar["z_mask"], fixed["zm"])
                    acc.eq("multipole.rho", ar["rho"][()], rho)
                    acc.eq("multipole.u1", ar["u1"][()] if "u1" in ar else const(Fr(str(st["u1"]))), const(Fr(str(u1))))
                    acc.check("multipole.nlenses", st["nlenses"] == n)
                    for k in lens: acc.eq("multipole." + k, ar[k][()], lens[k])
                if n == 2:
                    acc.check("proximity_called", len(S["prox"].calls) == 1)
                    acc.check("planetary_called", len(S["plan"].calls) == 1)
                    for ar, st, _ in S["prox"].calls:
                        acc.arr("proximity.w", ar["w"], wl)
                        acc.arr("proximity.z", ar["z"], fixed["z"])
                        acc.arr("proximity.z_mask", ar["z_mask"], fixed["zm"])
                        acc.arr("proximity.delta", ar["delta_mu_multi"], fixed["delta"])
                        acc.eq("proximity.rho", ar["rho"][()], rho)
                        acc.check("proximity.nlenses", st["nlenses"] == n)
                        for k, v in dict(c_m="0.01", gamma="0.02", c_f="4", rho_min="0.001").items(): acc.eq("proximity." + k, ar[k][()], const(Fr(v)))
                        for k in ("a", "e1"): acc.eq("proximity." + k, ar[k][()], lens[k])
                    for ar, st, _ in S["plan"].calls:
                        acc.arr("planetary.w", ar["w"], wl)
                        acc.eq("planetary.rho", ar["rho"][()], rho)
                        acc.eq("planetary.c_p", ar["c_p"][()], const(2))
                        for k in ("a", "e1"): acc.eq("planetary." + k, ar[k][()], lens[k])
                    ok = [x and (y or rel != "lt") for x, y in zip(t1, t2)]
                else: ok = [False] * N
                flagged = [i for i in range(N) if not ok[i]][:MAX]
                byvar = {v[0]: v for v in table.values()}
                for i in range(N):
                    t = r[i]
                    if i in flagged:
                        if not acc.check("refined", t in byvar, "epoch %d: tests %s/%s, q%s0.01, budget %d, chunk %d: got %s" % (i, t1, t2, "<" if rel == "lt" else ">=", MAX, ck, tm.pretty(t, 3)[:80])): continue
                        _, kind, ar, st = byvar[t]
                        acc.check("profile", kind == ("uniform" if u1 == 0.0 else "limb"), kind)
                        acc.eq("epoch", ar["w_center"][()], w[i])
                        acc.eq("full.rho", ar["rho"][()], rho)
                        acc.check("full.nlenses", st["nlenses"] == n)
                        for k in up: acc.eq("full." + k, ar[k][()], P[k])
                        for k, v in CFG.items():
                            got = st.get(k, None)
                            acc.check("full." + k, got is not None and got == v, "%s=%s" % (k, got))
                        if u1 != 0.0: acc.check("full.limb_options", st["u1"] == u1 and st["delta_c"] == 0.037)
                    else:
                        acc.check("multipole_kept", t is fixed["mu"][i], "epoch %d: tests %s/%s, q%s0.01, budget %d, chunk %d: got %s" % (i, t1, t2, "<" if rel == "lt" else ">=", MAX, ck, tm.pretty(t, 3)[:80]))
                if len(acc.bad) > 20: break
            if len(acc.bad) > 20: break
        return acc.records()
    return lambda: Custom("driver%d_u%s_N%d" % (n, u1, N), run, functions=["inverse_ray.lightcurve.mag_%s[u1=%s]" % ("binary" if n == 2 else "triple", u1)],
                          note="epoch count %d, budgets %s, chunk sizes %s, every outcome pattern" % (N, MAXs, chunks))


def fals(n, u1, seed):
    """real code, real integrators: entry-by-entry comparison on a short trajectory"""
    import jax.numpy as jnp
    m = lc()
    if n == 2:
        try: f = fals_select("inverse_ray", u1, seed)
        except Exception: f = None
        if f: return f
    P = {"s": 1.1, "q": .3} if n == 2 else {"s": 1.1, "q": .3, "q3": .1, "r3": .7, "psi": 1.1}
    rho = .05
    cfg = dict(r_resolution=40, th_resolution=40, Nlimb=60)
    a = P["s"] / 2
    t = 1 + P["q"] + P.get("q3", 0)
    ph = {"a": a, "e1": P["q"] / t}
    if n == 3: ph.update(e2=1 / t, r3=P["r3"], psi=P["psi"])
    xcm = a * (1 - P["q"]) / (1 + P["q"])
    w = jnp.array([3 + .2j, .1 + .02j, -2.5 + 1j, .2 - .1j, .05 + .01j, 4j])
    from microjax.multipole import mag_hexadecapole
    from microjax.point_source import _images_point_source
    import microjax.inverse_ray.extended_source as es
    z, zm = _images_point_source(w - xcm, nlenses=n, **ph)
    mu, _ = mag_hexadecapole(z, zm, rho, nlenses=n, u1=u1, **ph)
    full = [float(es.mag_uniform(x, rho, nlenses=n, **cfg, bins_r=50, bins_th=120, margin_r=1., margin_th=1., **P) if u1 == 0 else
                  es.mag_limb_dark(x, rho, nlenses=n, u1=u1, **cfg, bins_r=50, bins_th=120, margin_r=1., margin_th=1., delta_c=.01, **P)) for x in w]
    ok = np.asarray(ce().test_full(w - xcm, rho, nlenses=n, u1=u1, **ph)) if n == 2 else np.zeros(len(w), bool)
    fl = [i for i in range(len(w)) if not ok[i]]
    for MAX, ck in ((0, 2), (1, 1), (2, 3), (3, 2), (6, 4), (10, 100)):
        o = np.asarray((m.mag_binary if n == 2 else m.mag_triple)(w, rho, u1=u1, MAX_FULL_CALLS=MAX, chunk_size=ck, **cfg, **P))
        e = [full[i] if i in fl[:MAX] else float(mu[i]) for i in range(len(w))]
        for i in range(len(w)):
            if not abs(o[i] - e[i]) <= 1e-9 * abs(e[i]): return {"function": "mag_binary" if n == 2 else "mag_triple", "params": P, "rho": rho, "u1": u1, "w": repr(np.asarray(w).tolist()), "MAX_FULL_CALLS": MAX, "chunk_size": ck, "entry": i, "observed": float(o[i]), "expected": e[i]}
    return None


def selection(w, rho, a, e1, z, zm, delta, q):
    """which of the epochs pass the documented accuracy tests: True, False, or None next to a threshold (NumPy)"""
    L = [(e1, a), (1 - e1, -a)]
    f1 = lambda x: sum(m / (x - c) ** 2 for m, c in L)
    f2 = lambda x: sum(-2 * m / (x - c) ** 3 for m, c in L)
    out = []
    for k in range(len(w)):
        x, ok = z[:, k], zm[:, k]
        xb, xh = np.conj(x), np.conj(w[k]) + sum(m / (x - c) for m, c in L)
        J, Jh = 1 - abs(f1(x) * f1(xb)), 1 - abs(f1(x) * f1(xh))
        cusp = np.sum(np.abs(6 * np.imag(3 * f1(xb) ** 3 * f2(x) ** 2) / J ** 5 * (rho + .001) ** 2)[ok])
        ghost = .5 * np.sum(np.abs(J * Jh ** 2 / (Jh * f2(xb) * f1(x) - np.conj(Jh) * f2(x) * f1(xb) * f1(xh)))[~ok])
        vals = [(.01, .02 * cusp + delta[k])] + ([(ghost, 4 * (rho + .001))] if not ok.all() else [])
        if q < .01: vals.append((abs(a - .5 / a - w[k]) ** 2, 2 * (rho ** 2 + 9 * e1 / (1 - e1) / (4 * a * a))))
        if all(u > v * (1 + 1e-5) for u, v in vals): out.append(True)
        elif any(u < v * (1 - 1e-5) or not np.isfinite(u + v) for u, v in vals): out.append(False)
        else: out.append(None)
    return out


def fals_select(kind, u1, seed, ld=True):
    """real code with a recording stand-in for the finite-source solver: is exactly the right set of epochs sent to it?"""
    import jax.numpy as jnp
    from microjax.multipole import mag_hexadecapole
    from microjax.point_source import _images_point_source
    m = lc() if kind == "inverse_ray" else cl()
    names = [n for n in ("mag_uniform", "mag_limb_dark", "mag_extended_source") if hasattr(m, n)]
    saved = {n: getattr(m, n) for n in names}
    rng = np.random.default_rng(seed + 5)
    try:
        for n in names: setattr(m, n, lambda w, *a_, **k_: jnp.real(w) * 0. - 7.)
        for q in (.004, .0099, .0102, .05, .5):
            for s in (.75, 1.3):
                rho = float(10 ** rng.uniform(-3, -1.3))
                a, e1 = s / 2, q / (1 + q)
                xcm = a * (1 - q) / (1 + q)
                near = lambda c, r, n: c + r * np.sqrt(rng.uniform(size=n)) * np.exp(2j * np.pi * rng.uniform(size=n))
                R = np.sqrt(2 * (rho ** 2 + 9 * q / s ** 2))
                w = np.concatenate([near(a - 1 / s + xcm, 1.5 * R, 80), near(a - 1 / s, 1.5 * R, 20), near(xcm, 1., 40), near(0, 3., 40)])
                z, zm = _images_point_source(jnp.asarray(w - xcm), nlenses=2, a=a, e1=e1)
                uu = u1 if kind == "inverse_ray" or ld else 0.
                mu, dmu = mag_hexadecapole(z, zm, rho, nlenses=2, u1=uu, a=a, e1=e1)
                want = selection(w - xcm, rho, a, e1, np.asarray(z), np.asarray(zm), np.asarray(dmu), q)
                fn = m.mag_binary if kind == "inverse_ray" else m.magnifications
                kw = dict(MAX_FULL_CALLS=len(w), chunk_size=7) if kind == "inverse_ray" else dict(nlenses=2, limb_darkening=ld)
                o = np.asarray(getattr(fn, "__wrapped__", fn)(jnp.asarray(w), rho, u1=u1, s=s, q=q, **kw))
                for i in range(len(w)):
                    e = {True: [float(mu[i])], False: [-7.], None: [float(mu[i]), -7.]}[want[i]]
                    if not min(abs(o[i] - x) for x in e) <= 1e-9 * abs(e[0]):
                        return {"function": fn.__name__, "s": s, "q": q, "rho": rho, "u1": u1, "w": repr(w[i]), "observed": float(o[i]), "expected": e[0], "note": "-7 stands for the finite-source value"}
    finally:
        for n in names: setattr(m, n, saved[n])
    return None


def contour_driver(n, ld):
    """caustics.lightcurve.magnifications"""
    import jax.numpy as jnp
    N = 3

    def run(seed, thorough):
        m = cl()
        up = {1: [], 2: ["s", "q"], 3: ["s", "q", "q3", "r3", "psi"]}[n]
        P = {k: R(k) for k in up}
        rho, u1 = R("rho"), R("u1")
        w = jx.symarr("w", (N,), "C")
        lens, xcm = {}, const(0)
        if n > 1:
            a = P["s"] / 2
            tot = 1 + P["q"] + (P["q3"] if n == 3 else const(0))
            lens = {"a": a, "e1": P["q"] / tot}
            if n == 3: lens.update(e2=1 / tot, r3=P["r3"], psi=P["psi"])
            xcm = a * (1 - P["q"]) / (1 + P["q"])
        wl = np.array([x - xcm for x in w], dtype=object)
        acc = Acc("contour_driver%d_ld%d" % (n, ld), seed, lambda: fals_c(n, ld, seed))
        NI = {1: 2, 2: 5, 3: 10}[n]
        F = {"z": jx.symarr("z", (NI, N), "C"), "zm": jx.symarr("zm", (NI, N), "B"), "mu": jx.symarr("mu", (N,), "R"), "delta": jx.symarr("delta", (N,), "R")}
        outcome, table, S = {}, {}, {}
        S["images"] = Stub("images", m._images_point_source, lambda f: (jnp.zeros((NI, N), complex), jnp.zeros((NI, N), bool)), lambda c, a_, s_: [F["z"], F["zm"]])
        S["hexa"] = Stub("hexa", m.mag_hexadecapole, lambda f: (jnp.zeros(N), jnp.zeros(N)), lambda c, a_, s_: [F["mu"], F["delta"]])
        for k, nm, ix in (("prox", "_caustics_proximity_test", 0), ("plan", "_planetary_caustic_test", 1)):
            S[k] = Stub(k, getattr(m, nm), lambda f: jnp.zeros(N, bool), lambda c, a_, s_, ix=ix: [np.array([const(bool(v)) for v in outcome["t"][ix]], dtype=object)])
        S["full"] = Stub("full", m.mag_extended_source, lambda f: jnp.zeros(()), full_value(table, "full"))
        names = {"images": "_images_point_source", "hexa": "mag_hexadecapole", "prox": "_caustics_proximity_test", "plan": "_planetary_caustic_test", "full": "mag_extended_source"}

        def fn(w, rho, u1, *v):
            with patched(*[(m, names[k], S[k]) for k in S]):
                return raw(m.magnifications)(w, rho, nlenses=n, npts_limb=37, limb_darkening=ld, u1=u1, npts_ld=41, **dict(zip(up, v)))
        go = trace_then_run(fn, [w, A0(rho), A0(u1)] + [A0(x) for x in P.values()], list(S.values()))
        pats = []
        for b in itertools.product([False, True], repeat=N):
            if n != 2: pats = [(b, b, "ge")]; break
            pats += [(b, tuple(not x for x in b), "ge"), (b, (True,) * N, "lt"), ((True,) * N, b, "lt"), (b, b[1:] + b[:1], "lt")]
        for t1, t2, rel in pats:
            outcome["t"] = (t1, t2)

            def cmp_hook(kind):
                def h(ctx, eqn, ins):
                    if n == 1 or any(np.ndim(x) for x in ins): return None
                    x, y = jx.toT(ins[0])[()], jx.toT(ins[1])[()]
                    k = kind
                    if y is P["q"]: x, y, k = y, x, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[k]
                    if x is P["q"] and y.op == "const" and y.val == Fr(1, 100): return [np.asarray({"lt": rel == "lt", "le": rel == "lt", "gt": rel != "lt", "ge": rel != "lt"}[k])]
                    return None
                return h
            outs, ctx = go({"prim:" + k: cmp_hook(k) for k in ("lt", "gt", "le", "ge")})
            r = outs[0]
            acc.check("shape", r.shape == (N,))
            byvar = {v[0]: v for v in table.values()}
            for ar, st, _ in S["images"].calls:
                acc.arr("images.w", ar["w"], wl)
                acc.check("images.nlenses", st["nlenses"] == n)
                for k in lens: acc.eq("images." + k, ar[k][()], lens[k])
            for ar, st, _ in S["hexa"].calls:
                acc.arr("multipole.z", ar["z"], F["z"])
                acc.arr("multipole.z_mask", ar["z_mask"], F["zm"])
                acc.eq("multipole.rho", ar["rho"][()], rho)
                acc.eq("multipole.u1", ar["u1"][()], u1 if ld else const(0))
                acc.check("multipole.nlenses", st["nlenses"] == n)
                for k in lens: acc.eq("multipole." + k, ar[k][()], lens[k])
            for ar, st, _ in S["prox"].calls + S["plan"].calls:
                acc.arr("tests.w", ar["w"], wl)
                acc.eq("tests.rho", ar["rho"][()], rho)
                for k, v in dict(c_m="0.01", gamma="0.02", c_f="4", rho_min="0.001", c_p="2").items():
                    if k in ar: acc.eq("tests." + k, ar[k][()], const(Fr(v)))
                if "z" in ar:
                    acc.arr("tests.z", ar["z"], F["z"])
                    acc.arr("tests.z_mask", ar["z_mask"], F["zm"])
                    acc.arr("tests.delta", ar["delta_mu_multi"], F["delta"])
                for k in ("a", "e1"): acc.eq("tests." + k, ar[k][()], lens[k])

            def is_full(i, t):
                if not acc.check("full_value", t in byvar, "epoch %d: tests %s/%s q%s0.01: got %s" % (i, t1, t2, "<" if rel == "lt" else ">=", tm.pretty(t, 3)[:80])): return
                _, _, ar, st = byvar[t]
                acc.eq("full.epoch", ar["w0"][()], w[i])
                acc.eq("full.rho", ar["rho"][()], rho)
                acc.eq("full.u1", ar["u1"][()], u1)
                acc.check("full.options", st["nlenses"] == n and st["npts_limb"] == 37 and st["npts_ld"] == 41 and st["limb_darkening"] == ld, str(st))
                for k in up: acc.eq("full." + k, ar[k][()], P[k])
            for i in range(N):
                t = r[i]
                if n == 1:
                    if not acc.check("choice", t.op == "ite" and F["mu"][i] in t.args[1:], tm.pretty(t, 4)[:100]): continue
                    pos = t.args[1] is F["mu"][i]
                    is_full(i, t.args[2] if pos else t.args[1])
                    c = t.args[0] if pos else tm.not_(t.args[0])
                    res = Prover(Domain(PARAM_GENS, [rho > 0], seed=seed)).prove(Goal("far", tm.le(4 * rho * rho, tm.real(w[i]) ** 2 + tm.imag(w[i]) ** 2), None, [c]))
                    acc.check("multipole_only_when_far", res.status == "proved", res.reason)
                elif n == 2 and t1[i] and (t2[i] or rel != "lt"): acc.check("multipole_kept", t is F["mu"][i], "epoch %d: tests %s/%s: got %s" % (i, t1, t2, tm.pretty(t, 3)[:80]))
                else: is_full(i, t)
        return acc.records()
    return lambda: Custom("contour_driver%d_ld%d" % (n, ld), run, functions=["caustics.lightcurve.magnifications[nlenses=%d,limb_darkening=%s]" % (n, ld)], note="3 epochs, every outcome pattern")


def fals_c(n, ld, seed):
    import jax.numpy as jnp
    m = cl()
    if n == 2:
        try: f = fals_select("caustics", .6, seed, ld)
        except Exception: f = None
        if f: return f
    P = {1: {}, 2: {"s": 1.1, "q": .3}, 3: {"s": 1.1, "q": .3, "q3": .1, "r3": .7, "psi": 1.1}}[n]
    rho, u1 = .05, .6
    xcm, ph = 0., {}
    if n > 1:
        a = P["s"] / 2
        t = 1 + P["q"] + P.get("q3", 0)
        ph = {"a": a, "e1": P["q"] / t}
        if n == 3: ph.update(e2=1 / t, r3=P["r3"], psi=P["psi"])
        xcm = a * (1 - P["q"]) / (1 + P["q"])
    w = jnp.array([3 + .2j, .1 + .02j, -2.5 + 1j, .03j])
    from microjax.multipole import mag_hexadecapole
    from microjax.point_source import _images_point_source
    from microjax.caustics.extended_source import mag_extended_source
    z, zm = _images_point_source(w - xcm, nlenses=n, **ph)
    mu, _ = mag_hexadecapole(z, zm, rho, nlenses=n, u1=u1 if ld else 0., **ph)
    o = np.asarray(m.magnifications(w, rho, nlenses=n, limb_darkening=ld, u1=u1, npts_limb=100, npts_ld=30, **P))
    for i in range(len(w)):
        f = float(mag_extended_source(w[i], rho, nlenses=n, limb_darkening=ld, u1=u1, npts_limb=100, npts_ld=30, **P))
        e = [f] if n == 3 or abs(w[i] - xcm) < 1.5 else [float(mu[i])]
        if n == 1: e = [float(mu[i]), f]
        if not min(abs(o[i] - x) for x in e) <= 1e-9 * abs(e[0]): return {"function": "magnifications", "nlenses": n, "params": P, "rho": rho, "u1": u1, "limb_darkening": ld, "w": repr(w[i]), "observed": float(o[i]), "expected": e}
    return None


# ---- accuracy tests ----------------------------------------------------------
def prox_spec(w, zs, ms, rho, delta, a, e1, c_m, gamma, c_f, rho_min):
    L = [(e1, a), (1 - e1, -a)]
    f1 = lambda z: sum((m / (z - x) ** 2 for m, x in L), const(0))
    f2 = lambda z: sum((-2 * m / (z - x) ** 3 for m, x in L), const(0))
    cusp = const(0)
    ghost = const(0)
    for z, m in zip(zs, ms):
        zb = conj(z)
        zh = conj(w) + sum((mm / (z - x) for mm, x in L), const(0))
        J = 1 - abs(f1(z) * f1(zb))
        mc = 6 * tm.imag(3 * f1(zb) ** 3 * f2(z) ** 2) / J ** 5 * (rho + rho_min) ** 2
        cusp = cusp + abs(mc) * tm.ite(m, const(1), const(0))
        Jh = 1 - abs(f1(z) * f1(zh))
        fac = abs(J * Jh ** 2 / (Jh * f2(zb) * f1(z) - conj(Jh) * f2(z) * f1(zb) * f1(zh)))
        ghost = ghost + tm.ite(m, const(0), const(1)) * fac
    return cusp, ghost, tm.lt(gamma * cusp + delta, c_m), tm.lt(c_f * (rho + rho_min), const(Fr(1, 2)) * ghost)


def proximity(modf, K, shape):
    def mk():
        w = jx.symarr("w", shape, "C")
        z = jx.symarr("z", (K,) + shape, "C")
        zm = jx.symarr("m", (K,) + shape, "B")
        dl = jx.symarr("delta", shape, "R")
        rho, a, e1 = R("rho"), R("a"), R("e1")
        c_m, ga, c_f, rm = R("c_m"), R("gam"), R("c_f"), R("rho_min")

        def fn(w, z, zm, rho, dl, a, e1, c_m, ga, c_f, rm):
            return raw(modf()._caustics_proximity_test)(w, z, zm, rho, dl, nlenses=2, c_m=c_m, gamma=ga, c_f=c_f, rho_min=rm, a=a, e1=e1)

        def ens(r):
            g = [Goal("shape", tm.TRUE if r[0].shape == shape else tm.FALSE)]
            for i in np.ndindex(*shape):
                _, _, t1, t2 = prox_spec(w[i], [z[(k,) + i] for k in range(K)], [zm[(k,) + i] for k in range(K)], rho, dl[i], a, e1, c_m, ga, c_f, rm)
                allv = tm.and_(*[zm[(k,) + i] for k in range(K)])
                g.append(Goal("accepted%s" % list(i), r[0][i], tm.and_(t1, tm.or_(allv, t2))))
            return g
        return Contract("proximity_%s_K%d%s" % (modf().__name__.split(".")[1], K, len(shape)), fn, [w, z, zm, A0(rho), dl, A0(a), A0(e1), A0(c_m), A0(ga), A0(c_f), A0(rm)], ens,
                        gens=dict(PARAM_GENS, delta=lambda r: 10 ** r.uniform(-6, 0), c_m=lambda r: .01, gam=lambda r: .02, c_f=lambda r: 4., rho_min=lambda r: .001),
                        functions=["%s._caustics_proximity_test[nlenses=2]" % modf().__name__[9:]], budget=300)
    return mk


def planetary(modf):
    def mk():
        a, e1, rho, c_p = R("a"), R("e1"), R("rho"), R("c_p")
        w = C("w")

        def ens(r):
            s = 2 * a
            q = e1 / (1 - e1)
            # planetary caustic of the companion at +a seen from the host at -a: -a + s - 1/s
            d = w - (-a + s - 1 / s)
            return [Goal("outside", r[0][()], tm.lt(c_p * (rho ** 2 + 9 * q / s ** 2), d * conj(d) if False else tm.real(d) ** 2 + tm.imag(d) ** 2))]
        return Contract("planetary_%s" % modf().__name__.split(".")[1], lambda w, rho, c_p, a, e1: modf()._planetary_caustic_test(w, rho, c_p=c_p, a=a, e1=e1), [A0(w), A0(rho), A0(c_p), A0(a), A0(e1)], ens,
                        gens=dict(PARAM_GENS, e1=lambda r: 10 ** r.uniform(-5, -2), c_p=lambda r: 2., w=lambda r: complex(r.gauss(0, 1), r.gauss(0, .02))), requires=[a > 0, e1 > 0, e1 < 1], positive=[a, e1, 1 - e1],
                        functions=["%s._planetary_caustic_test" % modf().__name__[9:]])
    return mk


def contracts():
    d = {}
    for n in (1, 2, 3):
        for ld in (False, True): d["contour_driver%d_ld%d" % (n, ld)] = contour_driver(n, ld)
    for n in (2, 3):
        for u1 in (0.0, 0.3):
            d["driver%d_u%s" % (n, u1)] = driver(n, u1, 4, [0, 1, 2, 3, 4, 6], [1, 2, 3, 4, 7]) if u1 == 0.0 else driver(n, u1, 3, [0, 2, 5], [1, 2, 5])
    for nm, f in (("inverse_ray", ce), ("caustics", cl)):
        d["proximity_%s" % nm] = proximity(f, 2, ())
        d["proximity_%s_batch" % nm] = proximity(f, 1, (2,))
        d["planetary_%s" % nm] = planetary(f)
    return d
