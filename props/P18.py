from vc.spec import *
from vc.contract import Custom, Goal
from vc import jx, smt
from vc.direct import bounded_oracle, rec
from vc.prove import Prover, Domain
from vc.norm import Norm
from vc import poly as P
import vc.term as tm
from vc.perm import conj_
import numpy as np
from fractions import Fraction as Fr

EXPLAIN = ("Kepler's equation: with the mean anomaly written as x - e sin x for an arbitrary exact eccentric anomaly x, sine and cosine of every iterate are replaced by their second-order Taylor contract around x; "
           "the error of each iterate is then bounded by z3 for every e in [0, 0.3] and every x (a Newton-Kantorovich argument over the real update), down to 1e-14. "
           "Table lookup: for every reference time the perihelion returned is a nearest tabulated one and the equinox the one of the same orbit, in either time convention.")

EMAX = Fr(3, 10)


def px():
    import microjax.trajectory.parallax as m
    return m


def real_kepler(seed, k):
    m = px()
    import jax.numpy as jnp
    r = np.random.default_rng(seed)
    for j in range(k):
        e = [0.0167, 0.0, 0.3, r.uniform(0, .3)][j % 4]
        x = np.concatenate([r.uniform(-60, 60, 400), np.linspace(-np.pi, np.pi, 41), r.uniform(-1e-3, 1e-3, 20)])
        phi = x - e * np.sin(x)
        g = np.asarray(m.getpsi(jnp.asarray(phi), e))
        bad = np.abs(g - x) > 1e-12 * np.maximum(1, np.abs(x))
        if g.shape != x.shape: return {"function": "trajectory.parallax.getpsi", "inputs": {"shape": x.shape}, "observed": g.shape}
        if bad.any() or not np.all(np.isfinite(g)):
            i = int(np.argmax(np.abs(g - x)))
            return {"function": "trajectory.parallax.getpsi", "inputs": {"phi": float(phi[i]), "ecc": float(e)}, "observed": float(g[i]), "expected": float(x[i])}
    return None


def simplify(t):
    """ring normal form as (numerator, denominator) terms"""
    nm = Norm()
    r = nm.rat(t)
    idx = {nm.base[v.id]: v for v in tm.free_vars(t) if v.id in nm.base}

    def poly(p):
        s = const(0)
        for m, c in sorted(p.items()):
            x = const(c)
            for i, k in P.exps(m).items(): x = x * idx[i] ** k
            s = s + x
        return s
    d = const(1)
    for p, k in r.d.values(): d = d * poly(p) ** k
    return poly(r.n), d


LADDER = [Fr(10), Fr(2), Fr(1), Fr(6, 10), Fr(56, 100), Fr(3, 10), Fr(1, 10), Fr(7, 100), Fr(1, 50), Fr(1, 100), Fr(11, 10000)] + [Fr(1, 10 ** k) for k in range(3, 16)]


def kepler(sgn):
    """sgn: the value of sign(sin phi) used by the empirical initial guess"""
    def mk():
        m = px()
        e, X, S = R("ecc"), R("x"), R("sin_x")
        phi = X - e * S
        tag = "kepler_sign%+d" % sgn

        def run(seed, thorough):
            hyps = [tm.le(const(0), e), tm.le(e, const(EMAX)), tm.le(S, const(1)), tm.le(const(-1), S)]
            its, raws, bounds, sphi = {}, {}, [], set()

            def valid(f): return smt.check(hyps + [tm.not_(f)], 4000, want_model=False)[0] == "unsat"

            def error(t):
                n, d = simplify(tm.subst(t, raws) - X)
                return n, d

            def bound(n, d):
                if valid(tm.lt(const(0), d)): s = 1
                elif valid(tm.lt(d, const(0))): s = -1
                else: raise RuntimeError("divisor of the update may vanish")
                best = None
                for b in LADDER:
                    if not valid(tm.and_(tm.le(n * s, const(b) * d * s), tm.le(-(const(b) * d * s), n * s))): break
                    best = b
                if best is None: raise RuntimeError("no error bound for an iterate")
                return best

            def register(t):
                n, d = error(t)
                k = (n.id, d.id)
                if k in its: return its[k]
                b = bound(n, d)
                j = len(bounds)
                bounds.append(b)
                C, Q = R("cos%d" % j), R("rem%d" % j)
                E = -(e * S) if t is phi else R("eps%d" % j)
                # the iterate is x + E; sin x = sin(x+E) - E cos(x+E) - Q, |Q| <= E^2/2
                hyps.extend([tm.le(E, const(b)), tm.le(const(-b), E), tm.le(C, const(1)), tm.le(const(-1), C), tm.le(Q, E * E / 2), tm.le(-(E * E) / 2, Q)])
                if t is not phi: raws[t] = X + E
                n2, d2 = simplify(E)
                its[k] = its[(n2.id, d2.id)] = (b, S + E * C + Q, C)
                return its[k]

            def trig(which):
                def h(ctx, eqn, ins):
                    t = jx.toT(ins[0])[()]
                    it = register(t)
                    if t is phi: sphi.add(it[1])
                    return [A0(it[which])]
                return h

            def sign(ctx, eqn, ins):
                return [A0(const(float(sgn)))] if jx.toT(ins[0])[()] in sphi else None
            out = []
            try:
                outs, c, _ = jx.run(lambda p, q: m.getpsi(p, q), [A0(phi), A0(e)], jx.Ctx(hooks={"prim:sin": trig(1), "prim:cos": trig(2), "prim:sign": sign}))
                n, d = error(outs[0][()])
                b = bound(n, d)
                out.append(rec(tag + "/solves_kepler", "proved" if b <= Fr(1, 10 ** 14) else "failed", "z3", "error bounds %s, final %.1e" % (["%.1e" % float(x) for x in bounds], float(b))))
            except Exception as ex:
                import traceback
                out.append(rec(tag + "/solves_kepler", "unknown", "", repr(ex)[:300], trace=traceback.format_exc()[-1500:]))
            if any(r["status"] != "proved" for r in out):
                f = real_kepler(seed, 40)
                for r in out:
                    if r["status"] != "proved" and f: r.update(status="refuted", replay=f)
            return out
        return Custom(tag, run, functions=["trajectory.parallax.getpsi"], trusted=["second-order Taylor bound |sin x - sin y - (x-y) cos y| <= (x-y)^2/2"])
    return mk


def real_table(seed, k):
    m = px()
    import jax.numpy as jnp
    r = np.random.default_rng(seed)
    ts = np.concatenate([r.uniform(1300, 9100, 40), TABLE_P[:-1] + 182, TABLE_P[:-1] + 183, TABLE_P[:-1] + 185.5])
    found = sorted({float(m.peri_vernal(float(t))[0]) for t in TABLE_P[:-1] + 1})
    mids = np.array([(a + b) / 2 for a, b in zip(found, found[1:])])
    for t in np.concatenate([mids - .1, mids + .1, mids - .6, mids + .6]):
        for off in (0.0, 2450000.0):
            a = float(m.peri_vernal(t + off)[0])
            if abs(a - t) > min(abs(f - t) for f in found) + 1e-6: return {"function": "trajectory.parallax.peri_vernal", "inputs": {"tref": t + off}, "observed": a, "expected": min(found, key=lambda f: abs(f - t))}
    for t in ts:
        for off in (0.0, 2450000.0):
            a, b = [float(v) for v in m.peri_vernal(t + off)]
            n = TABLE_P[np.argmin(np.abs(TABLE_P - t))]
            best = np.min(np.abs(TABLE_P - t))
            if abs(abs(a - t) - best) > 2 or not 70 < b - a < 82 or abs((b - 7832.93611) / 365.24219 - round((b - 7832.93611) / 365.24219)) * 365 > 0.1:
                return {"function": "trajectory.parallax.peri_vernal", "inputs": {"tref": t + off}, "observed": [a, b], "expected": "perihelion near %.1f and the equinox 74-80 days later" % n}
    return None


# perihelion epochs from the mean anomalistic year (25.96 h scatter from the Moon); equinox epochs from the tropical year
TABLE_P = np.array([7390.95 + 365.2596 * k for k in range(-16, 5)])


def table(absolute):
    def mk():
        m = px()
        t = R("tref")
        x = t + 2450000 if absolute else t
        tag = "table_absolute" if absolute else "table_reduced"

        def run(seed, thorough):
            out = []
            dom = [tm.le(const(1400), t), tm.le(t, const(9030))]

            def valid(f, name):
                r, mod = smt.check(dom + [tm.not_(f)], 60000)
                d = rec(tag + "/" + name, "proved" if r == "unsat" else ("failed" if r == "sat" else "unknown"), "z3", "" if r == "unsat" else "model %s" % mod)
                if r != "unsat":
                    f = real_table(seed, 1)
                    if f: d.update(status="refuted", replay=f)
                out.append(d)
            try:
                outs, c, _ = jx.run(lambda q: m.peri_vernal(q), [A0(x)], jx.Ctx())
                a, b = outs[0][()], outs[1][()]
                # the returned perihelion is one of the table and no other table entry is nearer
                entries = sorted({float(tm.cv(u)) for u in tm.topo([a]) if u.op == "const" and u.sort == "R" and tm.cv(u) is not None and 1000 < float(tm.cv(u)) < 9500})
                one = tm.FALSE
                near = tm.TRUE
                for p in TABLE_P:
                    # every anomalistic year has its perihelion within 2 days of the mean epoch, and the answer is nearest
                    near = tm.and_(near, tm.le(tm.abs_(a - t), tm.abs_(const(float(p)) - t) + 4))
                    one = tm.or_(one, tm.and_(tm.le(a, const(float(p) + 2)), tm.le(const(float(p) - 2), a)))
                if len(entries) > 1: valid(conj_([tm.le(tm.abs_(a - t), tm.abs_(const(p) - t)) for p in entries]), "no_table_entry_nearer")
                valid(one, "is_a_perihelion")
                valid(near, "nearest_perihelion")
                veq = tm.FALSE
                for k in range(-17, 4):
                    v = 7832.93611 + 365.24219 * k
                    veq = tm.or_(veq, tm.and_(tm.le(b, const(v + 0.02)), tm.le(const(v - 0.02), b)))
                valid(veq, "is_an_equinox")
                valid(tm.and_(tm.le(const(72), b - a), tm.le(b - a, const(82))), "same_year")
            except Exception as ex:
                f = real_table(seed, 1)
                r = rec(tag + "/vc-generation", "refuted" if f else "unknown", "", repr(ex)[:300], f)
                out.append(r)
            return out
        return Custom(tag, run, functions=["trajectory.parallax.peri_vernal"])
    return mk


def contracts():
    d = {"kepler%+d" % s: kepler(s) for s in (-1, 0, 1)}
    d["table_reduced"], d["table_absolute"] = table(False), table(True)
    d["end_to_end"] = bounded_oracle("end_to_end", real_kepler, 8, ["trajectory.parallax.getpsi"], "mean anomalies in [-60, 60], e in [0, 0.3]")
    # the position on the orbit and its orientation, against the contract of the Kepler solver (shared with P17)
    from props import P17
    d["orbit_0"], d["orbit_3"] = P17.orbit(0), P17.orbit(3)
    d["orientation_given"], d["orientation_table"] = P17.offsets(0), P17.offsets(0, "tperi")
    d["execution_orbit"] = bounded_oracle("execution_orbit", P17.real_orbit, 30, ["trajectory.parallax.project_earth_position"], "random epochs and orbital constants")
    d["execution_orientation"] = bounded_oracle("execution_orientation", P17.real_offsets, 18, ["trajectory.parallax.set_parallax"], "random events, epochs and orbital constants")
    return d
