from vc.spec import *
from vc.contract import Contract, Custom, Goal
from vc import jx
from vc.stub import Stub, patched
from vc.prove import Prover, Domain
from vc.numeric import evaluate
import vc.term as tm
from vc.direct import bounded_oracle
import numpy as np

EXPLAIN = ("The sky basis is proved to be (d los/d dec, d los/d ra / cos dec), right-handed and orthonormal, the orbital rotation to take the equinox direction to the x axis; "
           "the Earth orbit routine is replaced by its contract (an arbitrary function of time) and the parallax offsets are proved to be the exact bilinear form of the displacement with the linear motion "
           "removed, to vanish at the reference time together with the symmetric difference quotient that defines the reference velocity.")


def px():
    import microjax.trajectory.parallax as m
    return m


def deg(t): return t * tm.const(np.pi) / 180


GENS = {"RA": lambda r: r.uniform(0, 360), "Dec": lambda r: r.uniform(-89, 89), "rotaxis": lambda r: r.uniform(0, 40), "psi0": lambda r: r.uniform(-7, 7),
        "ecc": lambda r: r.uniform(0, .3), "period": lambda r: r.uniform(100, 500), "t": lambda r: r.uniform(-400, 400), "tref": lambda r: r.uniform(-400, 400), "tperi": lambda r: r.uniform(-400, 400),
        "tvernal": lambda r: r.uniform(-400, 400), "dt": lambda r: r.uniform(.01, 2), "x": lambda r: r.uniform(-1, 1), "dec_tan": lambda r: r.uniform(-3, 3)}


def real_basis(seed, k):
    m = px()
    for j in range(min(k, 60)):
        r = np.random.default_rng(seed * 99 + j)
        ra, de, ob, p0 = r.uniform(0, 360), r.uniform(-88, 88), r.uniform(0, 40), r.uniform(-7, 7)
        Rm, no, ea = [np.asarray(v) for v in m.prepare_projection_basis(ob, p0, ra, de)]
        a, d, o = np.deg2rad(ra), np.deg2rad(de), np.deg2rad(ob)
        E = np.array([-np.sin(a), np.cos(a), 0])
        N = np.array([-np.cos(a) * np.sin(d), -np.sin(a) * np.sin(d), np.cos(d)])
        RR = np.array([[1, 0, 0], [0, np.cos(o), -np.sin(o)], [0, np.sin(o), np.cos(o)]]) @ np.array([[np.cos(p0), np.sin(p0), 0], [-np.sin(p0), np.cos(p0), 0], [0, 0, 1]])
        for nm, g, w in (("east", ea, E), ("north", no, N), ("R", Rm, RR)):
            if not np.allclose(g, w, atol=1e-9): return {"function": "trajectory.parallax.prepare_projection_basis", "inputs": {"rotaxis_deg": ob, "psi_offset": p0, "RA": ra, "Dec": de}, "component": nm, "observed": g.tolist(), "expected": w.tolist()}
    return None


def basis():
    m = px()
    ob, p0, ra, de = R("rotaxis"), R("psi0"), R("RA"), R("Dec")
    a, d, o = deg(ra), deg(de), deg(ob)
    # declinations in (-90, 90) deg are parametrised by their tangent k
    k = R("dec_tan")
    cd, sd = 1 / tm.sqrt(1 + k * k), k / tm.sqrt(1 + k * k)
    ca, sa = tm.cos(a), tm.sin(a)
    pr = Prover(Domain(GENS, []))

    def trig(f, c):
        def h(ctx, eqn, ins):
            x = jx.toT(ins[0])
            if x.shape != () or de not in tm.free_vars(x[()]): return None
            for sg in (1, -1):
                if pr.prove(Goal("arg", x[()], d * sg)).status == "proved": return [A0(cd if c else sd * sg)]
            return None
        return h
    hooks = {"prim:cos": trig(tm.cos, True), "prim:sin": trig(tm.sin, False)}

    def ens(r):
        Rm, no, ea = r
        g = []
        E = [-sa, ca, const(0)]
        N = [-ca * sd, -sa * sd, cd]
        for i in range(3):
            g.append(Goal("east[%d]" % i, ea[i], E[i]))
            g.append(Goal("north[%d]" % i, no[i], N[i]))
        co, so, c0, s0 = tm.cos(o), tm.sin(o), tm.cos(p0), tm.sin(p0)
        W = [[c0, s0, const(0)], [-co * s0, co * c0, -so], [-so * s0, so * c0, co]]
        for i in range(3):
            for j in range(3): g.append(Goal("R[%d,%d]" % (i, j), Rm[i, j], W[i][j]))
        return g
    return Contract("basis", lambda *v: m.prepare_projection_basis(*v), [A0(ob), A0(p0), A0(ra), A0(de)], ens, gens=GENS, hooks=hooks, functions=["trajectory.parallax.prepare_projection_basis"], min_goals=15,
                    falsify=real_basis)


def lemma():
    """the explicit vectors of the contract form a right-handed orthonormal basis with the line of sight; R is a rotation taking the equinox to x"""
    def run(seed, thorough):
        a, d, o, p0 = R("a"), R("d"), R("o"), R("p")
        ca, sa, cd, sd = tm.cos(a), tm.sin(a), tm.cos(d), tm.sin(d)
        E = [-sa, ca, const(0)]
        N = [-ca * sd, -sa * sd, cd]
        Lo = [ca * cd, sa * cd, sd]
        dot = lambda u, v: sum((x * y for x, y in zip(u, v)), const(0))
        cr = lambda u, v: [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        pr = Prover(Domain({}, [], seed=seed))
        co, so, c0, s0 = tm.cos(o), tm.sin(o), tm.cos(p0), tm.sin(p0)
        W = [[c0, s0, const(0)], [-co * s0, co * c0, -so], [-so * s0, so * c0, co]]
        g = [("east_unit", dot(E, E), 1), ("north_unit", dot(N, N), 1), ("los_unit", dot(Lo, Lo), 1), ("east_north", dot(E, N), 0), ("east_los", dot(E, Lo), 0), ("north_los", dot(N, Lo), 0)]
        for i in range(3): g.append(("right_handed[%d]" % i, cr(E, N)[i], Lo[i]))
        for i in range(3):
            for j in range(3): g.append(("rotation[%d,%d]" % (i, j), dot(W[i], W[j]), 1 if i == j else 0))
            g.append(("equinox_to_x[%d]" % i, dot(W[i], [c0, s0, const(0)]), 1 if i == 0 else 0))
        out = []
        for nm, l, r in g:
            res = pr.prove(Goal(nm, l, r))
            out.append({"name": "orthonormal/" + nm, "status": res.status if res.status == "proved" else "failed", "backend": res.backend, "reason": res.reason})
        return out
    return Custom("orthonormal", run, functions=["trajectory.parallax.prepare_projection_basis"])


def strip_2pi(t):
    """a term equal to t modulo 2 pi, without mod/rem"""
    P = 2 * np.pi
    isP = lambda u: not tm.free_vars(u) and abs(abs(complex(evaluate([u], {})[0])) - P) < 1e-12
    if t.op == "ite":
        a, b = strip_2pi(t.args[1]), strip_2pi(t.args[2])
        return a if a is b else t
    if t.op == "add":
        r = [x for x in t.args if not isP(x)]
        if len(r) == 1: return strip_2pi(r[0])
    if t.op == "fn" and t.val == "rem" and isP(t.args[1]): return strip_2pi(t.args[0])
    return t


def np_kepler(phi, e):
    x = phi
    for _ in range(200): x = x - (x - e * np.sin(x) - phi) / (1 - e * np.cos(x))
    return x


def np_orbit(t, tp, P, e, Rm, no, ea):
    psi = np_kepler(2 * np.pi * (np.atleast_1d(t) - tp) / P, e)
    r = np.array([np.cos(psi) - e, np.sqrt(1 - e * e) * np.sin(psi), 0 * psi])
    return np.array([no @ Rm @ r, ea @ Rm @ r])


def real_orbit(seed, k):
    m = px()
    import jax.numpy as jnp
    for j in range(min(k, 60)):
        r = np.random.default_rng(seed * 99 + j)
        t = r.uniform(-800, 800, int(r.integers(1, 6)))
        tp, P, e = r.uniform(-300, 300), r.uniform(100, 500), r.uniform(0, .29)
        Rm, no, ea = r.normal(size=(3, 3)), r.normal(size=3), r.normal(size=3)
        x = t if j % 3 else t[0]
        g = np.asarray(m.project_earth_position(jnp.asarray(x), tp, P, e, jnp.asarray(Rm), jnp.asarray(no), jnp.asarray(ea)))
        w = np_orbit(x, tp, P, e, Rm, no, ea)
        if g.shape != w.shape or not np.allclose(g, w, atol=1e-9): return {"function": "trajectory.parallax.project_earth_position", "inputs": {"t": np.asarray(x).tolist(), "tperi": tp, "period": P, "ecc": e}, "observed": g.tolist(), "expected": w.tolist()}
    return None


def orbit(N):
    """project_earth_position against the contract of getpsi"""
    def mk():
        m = px()
        t = jx.symarr("t", (N,)) if N else A0(R("t"))
        tp, P, e = R("tperi"), R("period"), R("ecc")
        Rm, no, ea = jx.symarr("R", (3, 3)), jx.symarr("north", (3,)), jx.symarr("east", (3,))
        psi = {}

        def h(ctx, args, st):
            out = np.empty(args["phi"].shape, dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = tm.fn("psi", args["phi"][i], args["ecc"][()])
            return [out]
        import jax.numpy as jnp
        stub = Stub("getpsi", m.getpsi, lambda a: jnp.zeros(jnp.shape(a["phi"])), h)

        def fn(*v):
            with patched((m, "getpsi", stub)): return m.project_earth_position(*v)
        from vc.stub import trace_then_run

        def run(seed, thorough):
            try:
                (q,), c = trace_then_run(fn, [t, A0(tp), A0(P), A0(e), Rm, no, ea], [stub])()
            except Exception as ex:
                f = real_orbit(seed, 60)
                r = {"name": "orbit_%d/vc-generation" % N, "status": "refuted" if f else "unknown", "backend": "", "reason": repr(ex)[:300]}
                if f: r["replay"] = f
                return [r]
            pr = Prover(Domain(GENS, [], seed=seed), positive=[])
            out, bad = [], []
            for k in range(max(N, 1)):
                tk = t[k] if N else t[()]
                s = tm.fn("psi", 2 * tm.const(np.pi) * (tk - tp) / P, e)
                x, y = tm.cos(s) - e, tm.sin(s) * tm.sqrt(1 - e * e)
                for nm, b, row in (("north", no, 0), ("east", ea, 1)):
                    w = const(0)
                    for i in range(3): w = w + b[i] * (Rm[i, 0] * x + Rm[i, 1] * y)
                    res = pr.prove(Goal(nm, q[row, k], w))
                    out.append({"name": "orbit_%d/%s[%d]" % (N, nm, k), "status": res.status if res.status == "proved" else "failed", "backend": res.backend, "reason": res.reason})
            # the position is on the ellipse with one focus at the Sun
            s = tm.fn("psi", R("phi"), e)
            x, y = tm.cos(s) - e, tm.sin(s) * tm.sqrt(1 - e * e)
            res = pr.prove(Goal("ellipse", x * x + y * y, (1 - e * tm.cos(s)) ** 2))
            out.append({"name": "orbit_%d/focal_distance" % N, "status": res.status, "backend": res.backend, "reason": res.reason})
            if q.shape != (2, max(N, 1)): out.append({"name": "orbit_%d/shape" % N, "status": "failed", "backend": "", "reason": str(q.shape)})
            if any(r["status"] != "proved" for r in out):
                f = real_orbit(seed, 60)
                for r in out:
                    if r["status"] != "proved" and f: r.update(status="refuted", replay=f)
            return out
        return Custom("orbit_%d" % N, run, functions=["trajectory.parallax.project_earth_position"])
    return mk


def real_offsets(seed, k):
    """end to end on the real code: independent computation of the offsets"""
    m = px()
    import jax.numpy as jnp
    for j in range(min(k, 60)):
        r = np.random.default_rng(seed * 17 + j)
        ra, de = r.uniform(0, 360), r.uniform(-85, 85)
        tref = r.uniform(2000, 8800)
        kw = {}
        if j % 2: kw = dict(rotaxis_deg=r.uniform(0, 40), ecc=r.uniform(0, .25), period=r.uniform(300, 400), dt=r.uniform(.01, .5))
        tp, tv = (0.0, 0.0) if j % 3 == 0 else (tref + r.uniform(-300, 300), tref + r.uniform(-300, 300))
        if j % 9 == 1: tv = 0.0
        if j % 9 == 2: tp = 0.0
        pn, pe = r.normal(size=2)
        t = tref + r.uniform(-300, 300, 5)
        t[0] = tref
        ob, e, P, dt = kw.get("rotaxis_deg", 23.44), kw.get("ecc", 0.0167), kw.get("period", 365.25636), kw.get("dt", 0.1)
        prm = m.set_parallax(tref, tp, tv, ra, de, **kw)
        g = np.array([np.asarray(v) for v in m.compute_parallax(jnp.asarray(t), pn, pe, prm)])
        if tp * tv == 0:
            tp, tv = [float(v) for v in m.peri_vernal(tref)]
        psi = np_kepler(2 * np.pi * (tv - tp) / P, e)
        nu = np.arctan2(np.sqrt(1 - e * e) * np.sin(psi), np.cos(psi) - e)
        a, d, o = np.deg2rad(ra), np.deg2rad(de), np.deg2rad(ob)
        E = np.array([-np.sin(a), np.cos(a), 0])
        N = np.array([-np.cos(a) * np.sin(d), -np.sin(a) * np.sin(d), np.cos(d)])
        RR = np.array([[1, 0, 0], [0, np.cos(o), -np.sin(o)], [0, np.sin(o), np.cos(o)]]) @ np.array([[np.cos(nu), np.sin(nu), 0], [-np.sin(nu), np.cos(nu), 0], [0, 0, 1]])
        Q = lambda x: np_orbit(x, tp, P, e, RR, N, E)
        D = Q(t) - Q(tref) - (Q(tref + dt) - Q(tref - dt)) / (2 * dt) * (t - tref)
        w = np.array([pn * D[0] + pe * D[1], pn * D[1] - pe * D[0]])
        if not np.allclose(g, w, atol=1e-7): return {"function": "trajectory.parallax.compute_parallax", "inputs": {"t": t.tolist(), "piEN": pn, "piEE": pe, "tref": tref, "tperi": tp, "tvernal": tv, "RA": ra, "Dec": de, **kw}, "observed": g.tolist(), "expected": w.tolist()}
    return None


def offsets(N, auto=None):
    """set_parallax followed by compute_parallax, orbit and basis behind contracts"""
    def mk():
        m = px()
        import jax.numpy as jnp
        from vc.stub import trace_then_run
        t = jx.symarr("t", (N,)) if N else A0(R("t"))
        nm = ("tref", "tperi", "tvernal", "RA", "Dec", "rotaxis", "ecc", "period", "dt", "piEN", "piEE")
        V = {k: R(k) for k in nm}
        if auto == "tperi": V["tperi"] = const(0.0)
        if auto == "tvernal": V["tvernal"] = const(0.0)
        TP, TV = R("table_peri"), R("table_vernal")
        Rm, no, ea = jx.symarr("R", (3, 3)), jx.symarr("north", (3,)), jx.symarr("east", (3,))
        log = {"peri": [], "psi": [], "basis": [], "orbit": []}

        def hp(ctx, args, st):
            log["peri"].append(args["tref"][()])
            return [A0(TP), A0(TV)]

        def hk(ctx, args, st):
            log["psi"].append((args["phi"][()], args["ecc"][()]))
            return [A0(R("psiV"))]

        def hb(ctx, args, st):
            log["basis"].append({k: v[()] for k, v in args.items()})
            return [Rm, no, ea]

        def ho(ctx, args, st):
            tt = args["t"]
            log["orbit"].append(args)
            flat = list(np.ravel(tt))
            rest = [args[k][()] for k in ("tperi", "period", "ecc")]
            out = np.empty((2, len(flat)), dtype=object)
            for i, x in enumerate(flat):
                for c in range(2): out[c, i] = tm.fn("q%d" % c, x, *rest)
            return [out]
        sp = Stub("peri_vernal", m.peri_vernal, lambda a: (jnp.zeros(()), jnp.zeros(())), hp)
        sk = Stub("getpsi", m.getpsi, lambda a: jnp.zeros(jnp.shape(a["phi"])), hk)
        sb = Stub("basis", m.prepare_projection_basis, lambda a: (jnp.zeros((3, 3)), jnp.zeros(3), jnp.zeros(3)), hb)
        so = Stub("orbit", m.project_earth_position, lambda a: jnp.zeros((2, max(1, int(np.size(a["t"]))))), ho)

        def fn(t, tref, tperi, tvernal, RA, Dec, rot, ecc, period, dt, pn, pe):
            with patched((m, "peri_vernal", sp), (m, "getpsi", sk), (m, "prepare_projection_basis", sb), (m, "project_earth_position", so)):
                P = m.set_parallax(tref, tperi, tvernal, RA, Dec, rot, ecc, period, dt)
                return m.compute_parallax(t, pn, pe, P), P[0], P[1]

        tag = "offsets_%d%s" % (N, "_auto_" + auto if auto else "")

        def run(seed, thorough):
            out = []

            def add(n, res=None, ok=None, why=""):
                if res is not None: out.append({"name": tag + "/" + n, "status": "proved" if res.status == "proved" else "failed", "backend": res.backend, "reason": res.reason})
                else: out.append({"name": tag + "/" + n, "status": "proved" if ok else "failed", "backend": "syntactic", "reason": why})
            at = {}
            ang = {}

            def atan2h(ctx, eqn, ins):
                y, x = jx.toT(ins[0])[()], jx.toT(ins[1])[()]
                th = R("theta%d" % len(at))
                at[th] = (y, x)
                return [A0(th)]

            try:
                args = [t] + [A0(V[k]) for k in nm]
                outs, c = trace_then_run(fn, args, [sp, sk, sb, so])(hooks={"prim:atan2": atan2h})
                dtn, dum, q0, v0 = outs
                hyp = [] if auto else [tm.not_(tm.eq(V["tperi"] * V["tvernal"], const(0)))]
                tp, tv = (TP, TV) if auto else (V["tperi"], V["tvernal"])
                pr = Prover(Domain(GENS, hyp, seed=seed))
                P, e = V["period"], V["ecc"]
                Q = lambda x, k: tm.fn("q%d" % k, x, tp, P, e)
                tr, dt = V["tref"], V["dt"]
                D = lambda x, k: Q(x, k) - Q(tr, k) - (Q(tr + dt, k) - Q(tr - dt, k)) / (2 * dt) * (x - tr)
                for i in range(max(N, 1)):
                    x = t[i] if N else t[()]
                    add("tau_offset[%d]" % i, pr.prove(Goal("a", dtn[i], V["piEN"] * D(x, 0) + V["piEE"] * D(x, 1), hyps=hyp)))
                    add("u_offset[%d]" % i, pr.prove(Goal("a", dum[i], V["piEN"] * D(x, 1) - V["piEE"] * D(x, 0), hyps=hyp)))
                    if i == 0:
                        for nmx, o in (("tau", dtn), ("u", dum)):
                            z = tm.subst(o[0], {x: tr})
                            add("%s_vanishes_at_reference" % nmx, pr.prove(Goal("z", z, const(0), hyps=hyp)))
                            s = tm.subst(o[0], {x: tr + dt}) - tm.subst(o[0], {x: tr - dt})
                            add("%s_rate_vanishes_at_reference" % nmx, pr.prove(Goal("z", s, const(0), hyps=hyp)))
                # callee arguments
                add("orientation_calls", ok=len(log["psi"]) >= 1 and len(log["basis"]) >= 1, why="no call to getpsi or prepare_projection_basis")
                for a, b in log["psi"]:
                    add("equinox_anomaly", pr.prove(Goal("a", a, 2 * tm.const(np.pi) * (tv - tp) / P, hyps=hyp)))
                    add("equinox_ecc", pr.prove(Goal("a", b, e, hyps=hyp)))
                for b in log["basis"]:
                    for k, w in (("rotaxis_deg", V["rotaxis"]), ("RA", V["RA"]), ("Dec", V["Dec"])): add("basis_" + k, pr.prove(Goal("a", b[k], w)))
                    th = strip_2pi(b["psi_offset"])
                    if th in at:
                        y, x = at[th]
                        ps_ = R("psiV")
                        r = 1 - e * tm.cos(ps_)
                        add("true_anomaly_cos", pr.prove(Goal("c", x * r, tm.cos(ps_) - e, hyps=hyp)))
                        add("true_anomaly_sin", pr.prove(Goal("s", y * r, tm.sqrt(1 - e * e) * tm.sin(ps_), hyps=hyp)))
                    else: add("true_anomaly_cos", ok=False, why="rotation angle is %s" % tm.pretty(th, 4))
                for a in log["orbit"]:
                    for k, w in (("R", Rm), ("north", no), ("east", ea)):
                        if not all(x is y for x, y in zip(np.ravel(a[k]), np.ravel(w))): add("orbit_" + k, ok=False, why="orbit evaluated with another basis")
                if auto:
                    for a in log["peri"]: add("table_lookup", pr.prove(Goal("a", a, tr)))
                    add("table_used", ok=bool(log["peri"]))
            except Exception as ex:
                import traceback
                out.append({"name": tag + "/vc-generation", "status": "unknown", "backend": "", "reason": repr(ex)[:300], "trace": traceback.format_exc()[-1500:]})
            if any(r["status"] != "proved" for r in out):
                f = None
                try: f = real_offsets(seed, 60)
                except Exception as ex: f = {"exception": repr(ex)[:300]}
                for r in out:
                    if r["status"] != "proved" and f: r.update(status="refuted", replay=f)
            return out
        return Custom(tag, run, functions=["trajectory.parallax.set_parallax", "trajectory.parallax.compute_parallax"])
    return mk


def contracts():
    return {"basis": basis, "orthonormal": lemma, "orbit_0": orbit(0), "orbit_1": orbit(1), "orbit_3": orbit(3),
            "offsets_0": offsets(0), "offsets_3": offsets(3), "offsets_auto_tperi": offsets(2, "tperi"), "offsets_auto_tvernal": offsets(2, "tvernal"),
            "end_to_end": bounded_oracle("end_to_end", real_offsets, 27, ["trajectory.parallax"], "random events, epochs and orbital constants")}
