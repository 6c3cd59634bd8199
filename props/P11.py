from vc.spec import *
from vc.contract import Contract, Custom, Goal
from vc import jx
from vc.stub import Stub, patched, raw, trace_then_run
from vc.prove import Prover, Domain
from vc.direct import bounded_oracle
import vc.term as tm
import numpy as np
import itertools
from fractions import Fraction as Fr
from props.P09 import Acc, rec

EXPLAIN = ("mag_uniform / mag_limb_dark are executed symbolically with the limb mapping, region construction, distance field, crossing interpolation, limb weight and profile replaced by their contracts "
           "(arbitrary values); for arbitrary regions and every inside/outside pattern of an angular row the result is proved equal to the quadrature sum of the statement, and every callee's arguments are proved to be "
           "the documented ones.  The crossing interpolation is proved equal to the guarded four-point Lagrange formula for all inputs.")


def es():
    import microjax.inverse_ray.extended_source as m
    return m


CFG = dict(Nlimb=23, bins_r=29, bins_th=31)
MARG = dict(margin_r=0.3, margin_th=0.7)


def clip01(x): return tm.min_(tm.max_(x, const(0)), const(1))


def elementwise(name, keys):
    """contract: an arbitrary function of its (elementwise) arguments"""
    table = {}

    def h(ctx, args, st):
        a = [np.broadcast_to(args[k] if k in args else jx.toT(np.asarray(st[k])), np.broadcast_shapes(*[np.shape(args[q]) for q in keys if q in args])) for k in keys]
        out = np.empty(a[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            k = tuple(x[i].id for x in a)
            if k not in table: table[k] = (tm.var("%s%d" % (name, len(table)), "R"), [x[i] for x in a])
            out[i] = table[k][0]
        return [out]
    h.table = table
    return h


def integrator(n, limb, M=2, NR=2, NT=7):
    import jax.numpy as jnp

    def run(seed, thorough):
        m = es()
        up = ["s", "q"] if n == 2 else ["s", "q", "q3", "r3", "psi"]
        P = {k: R(k) for k in up}
        rho, w = R("rho"), C("w")
        u1, dc = R("u1"), R("dc")
        a = P["s"] / 2
        tot = 1 + P["q"] + (P["q3"] if n == 3 else const(0))
        xcm = a * (1 - P["q"]) / (1 + P["q"])
        lens = {"a": a, "e1": P["q"] / tot}
        if n == 3: lens.update(e2=1 / tot, r3=P["r3"], psi=P["psi"])
        tag = "%s%d" % ("limb_dark" if limb else "uniform", n)
        acc = Acc(tag, seed, lambda: fals(n, limb, seed))
        rs, ts = jx.symarr("rs", (M, 2), "R"), jx.symarr("ts", (M, 2), "R")
        il, ml = jx.symarr("il", (5, 3), "C"), jx.symarr("ml", (5, 3), "B")
        rows = {}

        def dist(ctx, args, st):
            th = args["th_values"]
            k = (args["r0"][()].id,) + tuple(t.id for t in th)
            if k not in rows: rows[k] = (jx.symarr("D%d_" % len(rows), th.shape, "R"), args, st)
            return [rows[k][0]]
        CI = elementwise("ci", ["x", "x0", "x1", "x2", "x3", "y0", "y1", "y2", "y3"])
        FB = elementwise("fb", ["delta_B", "delta_c"])
        PR = elementwise("prof", ["d", "u1"])
        bc = lambda f, ks: jnp.zeros(jnp.broadcast_shapes(*[jnp.shape(f[k]) for k in ks]))
        S = {"limb": Stub("limb", m.calc_source_limb, lambda f: (jnp.zeros((5, 3), complex), jnp.zeros((5, 3), bool)), lambda c, a_, s_: [il, ml]),
             "regions": Stub("regions", m.define_regions, lambda f: (jnp.zeros((M, 2)), jnp.zeros((M, 2))), lambda c, a_, s_: [rs, ts], static=("margin_th",)),
             "dist": Stub("dist", m.distance_from_source, lambda f: jnp.zeros(jnp.shape(f["th_values"])), dist),
             "ci": Stub("ci", m.cubic_interp, lambda f: bc(f, ("x", "x0", "x1", "x2", "x3")), CI)}
        names = {"limb": "calc_source_limb", "regions": "define_regions", "dist": "distance_from_source", "ci": "cubic_interp"}

        class F:   # custom_jvp objects have no usable signature
            pass
        if limb:
            def facB(delta_B, delta_c): pass
            def prof(d, u1=0.0): pass
            S["fb"] = Stub("fb", facB, lambda f: bc(f, ("delta_B",)), FB)
            S["prof"] = Stub("prof", prof, lambda f: bc(f, ("d",)), PR)
            names.update(fb="calc_facB", prof="Is_limb_1st")

        def fn(w, rho, u1, dc, *v):
            with patched(*[(m, names[k], S[k]) for k in S]):
                kw = dict(CFG, **MARG, nlenses=n, r_resolution=NR, th_resolution=NT, **dict(zip(up, v)))
                if limb: return raw(m.mag_limb_dark)(w, rho, u1=u1, delta_c=dc, **kw)
                return raw(m.mag_uniform)(w, rho, **kw)
        go = trace_then_run(fn, [A0(w), A0(rho), A0(u1), A0(dc)] + [A0(x) for x in P.values()], list(S.values()))
        outs, ctx = go()
        r = outs[0][()]
        # callee arguments
        for k in ("limb", "regions"): acc.check("one_%s_call" % k, len(S[k].calls) == 1)
        ar, st, _ = S["limb"].calls[0]
        acc.eq("limb.w", ar["w_center"][()], w)
        acc.eq("limb.rho", ar["rho"][()], rho)
        acc.check("limb.nlenses", st["nlenses"] == n, str(st))
        acc.check("limb.count", st["Nlimb"] == CFG["Nlimb"])
        for k in up: acc.eq("limb." + k, ar[k][()], P[k])
        ar, st, _ = S["regions"].calls[0]
        acc.arr("regions.images", ar["image_limb"], il)
        acc.arr("regions.mask", ar["mask_limb"], ml)
        acc.eq("regions.rho", ar["rho"][()], rho)
        acc.check("regions.options", st["nlenses"] == n and st["bins_r"] == CFG["bins_r"] and st["bins_th"] == CFG["bins_th"] and st["margin_th"] == MARG["margin_th"], str(st))
        acc.eq("regions.margin_r", ar["margin_r"][()], const(Fr(3, 10)))
        lin = lambda lo, hi, k, N: lo + (hi - lo) * const(Fr(k, N - 1))
        row = {}
        for D, ar, st in rows.values():
            acc.eq("dist.w", ar["w_center_shifted"][()], w - xcm)
            acc.eq("dist.shift", ar["shifted"][()], xcm)
            acc.check("dist.nlenses", st["nlenses"] == n)
            for k in lens: acc.eq("dist." + k, ar[k][()], lens[k])
            # which (region, radius) is this row?
            hit = None
            for g in range(M):
                for i in range(NR):
                    if (g, i) not in row and acc.pr.prove(Goal("r", ar["r0"][()], lin(rs[g, 0], rs[g, 1], i, NR))).status == "proved": hit = (g, i); break
                if hit: break
            if acc.check("dist.radius", hit is not None, tm.pretty(ar["r0"][()])):
                row[hit] = D
                for k in range(NT): acc.eq("dist.angles", ar["th_values"][k], lin(ts[hit[0], 0], ts[hit[0], 1], k, NT))
        if not acc.check("all_rows", set(row) == {(g, i) for g in range(M) for i in range(NR)}, str(sorted(row))): return acc.records()
        # crossing interpolation: argument lists -> (stencil row, offset)
        cim = {}
        for v, args in CI.table.values():
            for key, D in row.items():
                for o in range(NT - 3):
                    if args[1] is D[o] and args[2] is D[o + 1] and args[3] is D[o + 2] and args[4] is D[o + 3]: cim[key + (o,)] = (v, args)
        for k, (v, args) in cim.items():
            acc.eq("crossing.target", args[0], rho)
            for q in range(4): acc.eq("crossing.abscissa", tm.mul(const(1), args[5 + q]) if args[5 + q].sort != "I" else const(int(args[5 + q].val)), const(q))
        need = {(g, i, o) for g in range(M) for i in range(NR) for o in range(NT - 3)}
        if not acc.check("crossings", set(cim) == need, "%d of %d" % (len(cim), len(need))): return acc.records()
        pr = Prover(Domain(dict(PARAM_GENS), [], seed=seed), budget_s=120, refute=False)
        fbm = list(FB.table.values())
        prm = list(PR.table.values())

        def fb(delta):
            for v, args in fbm:
                if args[0] is delta or pr.prove(Goal("d", args[0], delta)).status == "proved":
                    acc.eq("weight.threshold", args[1], dc)
                    return v
            acc.check("weight.argument", False, tm.pretty(delta, 3))
            return tm.var("nofb", "R")
        profc = {}

        def prof(d):
            if d.id in profc: return profc[d.id]
            for v, args in prm:
                if args[0] is d / rho or acc.pr.prove(Goal("d", args[0], d / rho)).status == "proved":
                    acc.eq("profile.u1", args[1], u1)
                    profc[d.id] = v
                    return v
            acc.check("profile.argument", False, tm.pretty(d, 3))
            profc[d.id] = tm.var("noprof", "R")
            return profc[d.id]
        eps = const(Fr("1e-10"))
        fbc = {}

        def weight(D, key, j, ins):
            """cell weight at angular sample / cell j of a row for the inside pattern"""
            if not limb:   # cell between samples j+1 and j+2 of a 4-point stencil starting at j
                c = cim[key + (j,)][0]
                x, y = ins[j + 1], ins[j + 2]
                if x and y: return const(1)
                if x: return clip01(c - 1)
                if y: return clip01(2 - c)
                return const(0)
            p, q, s_ = ins[j + 1], ins[j + 2], ins[j + 3]
            if not q: return const(0)
            I_ = prof(D[j + 2])
            if p and s_: return I_
            if not p and s_:
                k = key + (j, 0)
                if k not in fbc: fbc[k] = fb(clip01(2 - cim[key + (j,)][0]) + eps)
                return I_ * fbc[k]
            if p and not s_:
                k = key + (j, 1)
                if k not in fbc: fbc[k] = fb(clip01(cim[key + (j + 1,)][0] - 1) + eps)
                return I_ * fbc[k]
            return const(0)
        ncell = NT - 4 if limb else NT - 3
        keys = sorted(row)
        rng = np.random.default_rng(seed)
        pats = list(itertools.product([False, True], repeat=NT))
        lims = 2 ** NT
        # all atoms are comparisons of one distance with rho: resolved by unit propagation
        atoms = sorted({t for t in tm.topo([r]) if t.op == "lt"}, key=lambda t: t.id)
        canon = {}
        for key, D in row.items():
            for k in range(NT): canon[D[k]] = (key, k)
        amap = {}
        for t in atoms:
            fv = [v for v in tm.free_vars(t) if v in canon]
            if len(fv) == 1 and tm.free_vars(t) and set(tm.free_vars(t)) <= {fv[0], rho}:
                if pr.prove(Goal("a", t, tm.lt(fv[0], rho))).status == "proved": amap[t] = (canon[fv[0]], True)
                elif pr.prove(Goal("a", t, tm.lt(rho, fv[0]))).status == "proved": amap[t] = (canon[fv[0]], "gt")
        # clipped crossing fractions: every maximal conditional is matched with clip(c-1) / clip(2-c) of a crossing c by proof
        civ = {v: v for v, _ in CI.table.values()}
        clips = {}

        def unclip(t):
            sub = {}
            for u in tm.topo([t]):
                if u.op != "ite": continue
                if u not in clips:
                    clips[u] = None
                    fv = [v for v in tm.free_vars(u) if v in civ]
                    for c in fv[:1]:
                        for e, nme in ((c - 1, "up"), (2 - c, "dn")):
                            if pr.prove(Goal("clip", u, clip01(e))).status == "proved":
                                clips[u] = tm.var("clip_%s_%s" % (nme, tm.pretty(c)), "R")
                                break
                if clips[u] is not None: sub[u] = clips[u]
            return tm.subst(t, sub)
        nbad = 0
        for pi, pat in enumerate(pats):
            ins = {key: list(pat) if key == keys[pi % len(keys)] else [bool(x) for x in rng.random(NT) < .5] for key in keys}
            sub = {}
            for t, ((key, k), pol) in amap.items(): sub[t] = const(bool(ins[key][k])) if pol is True else const(not ins[key][k])
            got = unclip(tm.subst(r, sub))
            tot_ = const(0)
            for key in keys:
                g, i = key
                r0 = lin(rs[g, 0], rs[g, 1], i, NR)
                dr = (rs[g, 1] - rs[g, 0]) * const(Fr(1, NR - 1))
                dth = (ts[g, 1] - ts[g, 0]) * const(Fr(1, NT - 1))
                acc_ = const(0)
                for j in range(ncell): acc_ = acc_ + weight(row[key], key, j, ins[key])
                tot_ = tot_ + dr * r0 * dth * acc_
            want = unclip(tot_ / rho ** 2 if limb else tot_ / rho ** 2 / tm.PI)
            res = pr.prove(Goal("sum", got, want))
            ok = res.status == "proved"
            acc.check("quadrature_sum", ok, "inside pattern %s: %s" % (pat, res.reason))
            nbad += not ok
            if nbad > 2: break
        return acc.records()
    nm = "%s%d" % ("limb_dark" if limb else "uniform", n)
    return lambda: Custom(nm, run, functions=["extended_source.%s[nlenses=%d]" % ("mag_limb_dark" if limb else "mag_uniform", n)],
                          note="%d regions, %d radii, %d angular samples per row (array sizes are program parameters); all 2^%d inside patterns of a row" % (M, NR, NT, NT))


def interp_c():
    xs = [R("x")] + [R("x%d" % i) for i in range(4)]
    ys = [R("y%d" % i) for i in range(4)]
    # strictly ordered abscissas: x1 = x0 + d1 etc. fixes the scale; all orderings of the extremes are covered by relabelling below
    d = [R("d1"), R("d2"), R("d3")]

    def mk(order):
        x0 = R("x0")
        inc = [x0, x0 + d[0], x0 + d[0] + d[1], x0 + d[0] + d[1] + d[2]]
        xx = [None] * 4
        for pos, who in enumerate(order): xx[who] = inc[pos]
        ext = d[0] + d[1] + d[2]
        eps = const(Fr("1e-12"))

        def ens(r):
            lo, sc = x0, ext
            h = [(t - lo) / sc for t in xx]
            xh = (xs[0] - lo) / sc
            tot = const(0)
            for i in range(4):
                nu, de = const(1), const(1)
                for j in range(4):
                    if j != i: nu, de = nu * (xh - h[j]), de * (h[i] - h[j] + eps)
                tot = tot + ys[i] * nu / de
            return [Goal("guarded_lagrange", r[0][()], tot)]
        req = [d[0] > 0, d[1] > 0, d[2] > 0, tm.le(const(Fr("1e-12")), ext)]
        return Contract("cubic_interp_%s" % "".join(map(str, order)), lambda x, a, b, c, e, *y: es().cubic_interp(x, a, b, c, e, *y), [A0(xs[0])] + [A0(t) for t in xx] + [A0(t) for t in ys], ens,
                        requires=req, positive=d, gens={k: (lambda r: r.uniform(.1, 2)) for k in ("d1", "d2", "d3")}, functions=["extended_source.cubic_interp"], budget=200)
    return mk


def nodes_c():
    """with the guard at zero the interpolant reproduces the nodes"""
    def mk():
        x0, d1, d2, d3 = R("x0"), R("d1"), R("d2"), R("d3")
        ys = [R("y%d" % i) for i in range(4)]
        xx = [x0, x0 + d1, x0 + d1 + d2, x0 + d1 + d2 + d3]

        def fn(*v):
            f = es().cubic_interp
            return tuple(f(v[i], *v[:4], *v[4:], epsilon=0.0) for i in range(4))
        return Contract("cubic_interp_nodes", fn, [A0(t) for t in xx + ys], lambda r: [Goal("node%d" % i, r[i][()], ys[i]) for i in range(4)], requires=[d1 > 0, d2 > 0, d3 > 0],
                        positive=[d1, d2, d3], gens={k: (lambda r: r.uniform(.1, 2)) for k in ("d1", "d2", "d3")}, functions=["extended_source.cubic_interp"])
    return mk


def fals(n, limb, seed, res=(60, 75), cases=((.1 + .05j, .1), (.3 - .2j, .05), (-.4 + .1j, .2)), cfg=None, u1=.6, delta_c=.01):
    """real code against an independent quadrature on the same regions"""
    import jax.numpy as jnp
    from microjax.inverse_ray.merge_area import calc_source_limb, define_regions
    m = es()
    NR, NT = res
    P = {"s": 1.1, "q": .3} if n == 2 else {"s": 1.1, "q": .3, "q3": .2, "r3": .7, "psi": 1.1}
    a = P["s"] / 2
    t = 1 + P["q"] + P.get("q3", 0)
    L = [(P["q"] / t, a), (1 / t, -a)] + ([(P["q3"] / t, P["r3"] * np.exp(1j * P["psi"]))] if n == 3 else [])
    xcm = a * (1 - P["q"]) / (1 + P["q"])
    for w, rho in cases:
        cfg = cfg or dict(Nlimb=200, bins_r=50, bins_th=120, margin_r=.5, margin_th=.5)
        kw = dict(cfg, r_resolution=NR, th_resolution=NT, nlenses=n, **P)
        got = float(m.mag_limb_dark(w, rho, u1=u1, delta_c=delta_c, **kw)) if limb else float(m.mag_uniform(w, rho, **kw))
        # the documented quadrature, evaluated independently on the same regions
        il, ml = calc_source_limb(w, rho, cfg["Nlimb"], nlenses=n, **P)
        RS, TS = define_regions(il, ml, rho, bins_r=cfg["bins_r"], bins_th=cfg["bins_th"], margin_r=cfg["margin_r"], margin_th=cfg["margin_th"], nlenses=n)

        def dist(r, th):
            Z = r * np.exp(1j * th) - xcm
            return abs(Z - sum(mm / np.conj(Z - x) for mm, x in L) - (w - xcm))
        lag = lambda D: sum(k * np.prod([(rho - D[l]) / (D[k] - D[l]) for l in range(4) if l != k], axis=0) for k in range(4))
        tot = 0.
        with np.errstate(all="ignore"):
            for (r1, r2), (t1, t2) in zip(np.asarray(RS), np.asarray(TS)):
                rv, tv = np.linspace(r1, r2, NR), np.linspace(t1, t2, NT)
                for r in rv:
                    D = dist(r, tv)
                    ins = D < rho
                    w8 = (rv[1] - rv[0]) * r * (tv[1] - tv[0])
                    if limb:
                        Iv = np.where(D < rho, 3 / np.pi / (3 - u1) * (1 - u1 * (1 - np.sqrt(np.maximum(0, 1 - (D / rho) ** 2)))), 0)[2:-2]
                        p_, q_, s_ = ins[1:-3], ins[2:-2], ins[3:-1]
                        fb = lambda d: np.where(d > delta_c, (2 / 3) * np.sqrt(1 + .5 / d) * (.5 + d), (2 / 3) * d + .5)
                        c1, c2 = lag([D[k:len(D) - 4 + k] for k in range(4)]), lag([D[k:len(D) - 4 + k] for k in range(1, 5)])
                        v = np.where(p_ & q_ & s_, 1, 0) + np.where(~p_ & q_ & s_, fb(np.clip(2 - c1, 0, 1) + 1e-10), 0) + np.where(p_ & q_ & ~s_, fb(np.clip(c2 - 1, 0, 1) + 1e-10), 0)
                        tot += w8 * np.nansum(np.where(v == 0, 0, v * Iv))
                    else:
                        x, y = ins[1:-2], ins[2:-1]
                        c = lag([D[k:len(D) - 3 + k] for k in range(4)])
                        tot += w8 * (np.sum(x & y) + np.sum(np.where(x & ~y, np.clip(c - 1, 0, 1), 0)) + np.sum(np.where(~x & y, np.clip(2 - c, 0, 1), 0))) / np.pi
        ref = tot / rho ** 2
        if not abs(got - ref) < 1e-5 * ref: return {"function": "mag_limb_dark" if limb else "mag_uniform", "nlenses": n, "params": P, "w": repr(w), "rho": rho, "u1": u1 if limb else 0, "delta_c": delta_c, "resolution": [NR, NT], "observed": got, "expected": ref}
    return None


def contracts():
    d = {}
    for n in (2, 3):
        d["uniform%d" % n] = integrator(n, False)
        d["limb_dark%d" % n] = integrator(n, True)
    for o in ((0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 3, 2), (2, 0, 3, 1), (0, 2, 1, 3)): d["cubic_interp_%s" % "".join(map(str, o))] = (lambda o: lambda: interp_c()(o))(o)
    d["cubic_interp_nodes"] = nodes_c()
    # the sizes people use, which no symbolic grid reaches
    prod = dict(Nlimb=500, bins_r=60, bins_th=140, margin_r=1., margin_th=.8)
    for n in (2, 3):
        for ld in (False, True):
            nm = "execution_%s%d" % ("limb_dark" if ld else "uniform", n)
            d[nm] = bounded_oracle(nm, (lambda n, ld: lambda seed, k: fals(n, ld, seed, (450, 1000), ((.12 - .07j, .03), (-.4 + .1j, .2)), prod, .37, .05) or fals(n, ld, seed, (1000, 400), ((.3 - .2j, .4),), prod, .8, .002))(n, ld), 3, ["inverse_ray.extended_source.mag_limb_dark" if ld else "inverse_ray.extended_source.mag_uniform"], "3 sources, grids of 450 x 1000 and 1000 x 400")
    return d
