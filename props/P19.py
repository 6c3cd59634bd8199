"""P19: convolution-based single-lens finite-source magnification."""
from fractions import Fraction as Fr
import numpy as np
from vc.spec import *
from vc.contract import Custom
from vc.prove import Goal, Prover, Domain, evaluate_f
from vc.direct import rec, bounded_oracle
from vc import jx, npsym
from vc.jx import symarr
from vc.branch import branches, push, signs, implied
from vc.stub import patched
import vc.term as tm

EXPLAIN = ("The magnification methods of the NumPy and the JAX model are proved, branch by branch, to be the convolution formulas of the specification in terms of the contracts of the Hankel transform (P21), the interpolation and the source profile; "
           "the profiles are proved to be the unit-flux Bessel profiles and the central magnifications to be the exact disk averages of the point-lens magnification, by differentiating the code and by an integration certificate for the elliptic one.")
J = "fastlens.mag_fft_jax."
N = "fastlens.mag_fft."
PI = const(tm.PI)
half = const(Fr(1, 2))


def mj():
    import microjax.fastlens.mag_fft_jax as m
    return m


def cls(*names):
    m = mj()
    return [getattr(m, n) for n in names]


# ---------------------------------------------------------------- independent oracle: direct integration over the disk
def weight_avg(u, rho, n):
    """average of the point-lens magnification over the disk with weight (1+n/2)(1-t^2)^(n/2)"""
    xa, wa = np.polynomial.legendre.leggauss(60)
    xb, wb = np.polynomial.legendre.leggauss(120)

    def ang(s):
        if u == 0: return np.pi * (1 - (s / rho) ** 2) ** (n / 2) if s < rho else 0.0
        c = (u * u + s * s - rho * rho) / (2 * u * s)
        if c >= 1: return 0.0
        ph = np.pi if c <= -1 else np.arccos(c)
        if n == 0: return ph
        th, dth = ph * (1 - np.cos(np.pi * (xa + 1) / 2)) / 2, ph * np.sin(np.pi * (xa + 1) / 2) * np.pi / 4
        r2 = (u * u + s * s - 2 * u * s * np.cos(th)) / rho ** 2
        return np.sum(wa * dth * np.clip(1 - r2, 0, None) ** (n / 2))
    pts = sorted({max(u - rho, 0), abs(u - rho), u, u + rho})
    tot = 0.0
    for a, b in zip(pts[:-1], pts[1:]):
        t, dt = (1 - np.cos(np.pi * (xb + 1) / 2)) / 2, np.sin(np.pi * (xb + 1) / 2) * np.pi / 4
        s = a + (b - a) * t
        tot += np.sum(wb * dt * (b - a) * np.array([(q * q + 2) / np.sqrt(q * q + 4) * 2 * ang(q) for q in s]))
    return tot * (1 + n / 2) / (np.pi * rho ** 2)


_models = {}


def models():
    """name -> (evaluate(u, rho), list of (weight, n) of the profile, smallest rho)"""
    if _models: return _models
    import jax.numpy as jnp
    import microjax.fastlens.mag_fft as nf
    m = mj()
    one = lambda c: (lambda u, rho: float(np.asarray(c.A(jnp.asarray([u]), rho))[0]))
    onp = lambda c: (lambda u, rho: float(np.asarray(c.A(np.array([u]), rho))[0]))
    mix = lambda a: [((1 - a) / (1 - a / 3), 0), (2 * a / 3 / (1 - a / 3), 1)]
    d = {"mag_fft.magnification_disk": (onp(nf.magnification_disk()), [(1, 0)], 1e-6)}
    for n in (1, 2): d["mag_fft.magnification_limb(%d)" % n] = (onp(nf.magnification_limb(n)), [(1, n)], 1e-6)
    d["magnification_disk"] = (one(m.magnification_disk()), [(1, 0)], 1e-6)
    d["magnification_limb1"] = (one(m.magnification_limb1()), [(1, 1)], 1e-6)
    d["magnification_limb2"] = (one(m.magnification_limb2()), [(1, 2)], 1e-6)
    d["mag_limb1(a1=0.5)"] = (one(m.mag_limb1(a1=.5)), mix(.5), 1e-6)
    d["mag_disk"] = (one(m.mag_disk()), [(1, 0)], 1e-3)
    ml = m.mag_limb()
    d["mag_limb(a1=0.6)"] = (lambda u, rho: float(np.asarray(ml.A(jnp.asarray([u]), rho, .6))[0]), mix(.6), 1e-3)
    _models.update(d)
    return d


def real_mag(seed, k):
    r = np.random.default_rng(seed)
    pts = [(1.02e-4, .3, -1), (3e-3, .9, 1), (.3, 0, 1), (2e-5, 1.5, 1), (2e-5, .6, -1)]
    pts += [(float(10 ** r.uniform(-5.5, -.3)), float(r.choice([0, .3, .9, 1.5, 4.0, 30.0])), float(r.choice([1, -1]))) for j in range(k)]
    for lr, uf, sg in pts:
        u = lr * uf * sg
        if abs(u) > 3: continue
        for nm, (f, w, lo) in models().items():
            if lr < lo: continue
            want = sum(c * weight_avg(abs(u), lr, n) for c, n in w)
            got = f(u, lr)
            # the documented precision of the tabulation is 0.3 per cent (the edge of the source excluded)
            if not abs(got - want) <= 4e-3 * want: return {"function": "fastlens " + nm, "inputs": {"u": u, "rho": lr}, "observed": got, "expected": want}
    return None


def versions(seed, k):
    """NumPy and JAX versions against each other for several settings, over impact parameters up to and beyond the
    end of the table; the linear limb-darkening models against the combination of the profiles they consist of"""
    import microjax.fastlens.mag_fft as mn
    m, r = mj(), np.random.default_rng(seed + 19)
    cases = [dict(), dict(rho_switch=1e-3, u_switch=3), dict(rho_switch=1e-5, u_switch=20, N_fft=1000)]
    for i, kw in enumerate(cases):
        rs, us = kw.get("rho_switch", 1e-4), kw.get("u_switch", 10)
        pairs = [("disk", m.magnification_disk(**kw), mn.magnification_disk(**kw)), ("limb1", m.magnification_limb1(**kw), mn.magnification_limb(1, **kw)), ("limb2", m.magnification_limb2(**kw), mn.magnification_limb(2, **kw))]
        for j in range(k):
            rho = float(rs * 10 ** (r.uniform(-1, -.01) if j % 4 == 3 else r.uniform(0.01, 3.5)))
            u = np.concatenate([[0.], rho * 10 ** r.uniform(-2, 0, 8), rho * us * r.uniform(.5, 1.5, 4), 10 ** r.uniform(-3, 2.2, 10), r.uniform(20, 130, 6)]) * r.choice([-1, 1])
            # below rho_switch the two sample the small-source table on different grids; just above 1e-4 the
            # extrapolated spectrum is at its limit
            tol = 2e-3 if rho < rs else 1e-6
            if rho < 5e-5 and rho >= rs: tol = 1e-3
            ok = abs(np.abs(u) - us * rho) > 1e-9 * rho
            val = {}
            for nm, fj, fn in pairs:
                a, b = np.asarray(fj.A(u, rho)), np.asarray(fn.A(u, rho))
                val[nm] = a
                bad = ok & ~(np.abs(a - b) <= tol * np.abs(b))
                if bad.any(): return {"function": "fastlens magnification %s, JAX against NumPy" % nm, "inputs": {"u": float(u[bad.argmax()]), "rho": rho, "settings": kw}, "observed": float(a[bad.argmax()]), "expected": float(b[bad.argmax()])}
            if j < 2 and rho >= rs:
                a1 = float(r.uniform(0, 1))
                want = ((1 - a1) * val["disk"] + 2 / 3 * a1 * val["limb1"]) / (1 - a1 / 3)
                for nm, got in (("mag_limb1", m.mag_limb1(a1=a1, **kw).A(u, rho)), ("mag_limb", m.mag_limb(**kw).A(u, rho, a1))):
                    bad = ~(np.abs(np.asarray(got) - want) <= 1e-6 * want)
                    if bad.any(): return {"function": "fastlens " + nm, "inputs": {"u": float(u[bad.argmax()]), "rho": rho, "a1": a1, "settings": kw}, "observed": float(np.asarray(got)[bad.argmax()]), "expected": float(want[bad.argmax()])}
    return None


def with_replay(out, seed, k=12):
    if any(r["status"] not in ("proved", "bounded-ok") for r in out):
        f = real_mag(seed, k)
        if not f:
            try: f = versions(seed, k)
            except Exception: f = None
        if f:
            for r in out:
                if r["status"] not in ("proved", "bounded-ok"): r.update(status="refuted", replay=f)
    return out


# ---------------------------------------------------------------- stubs
class Calls:
    """contract of the Hankel transform at its call sites: k-th call -> opaque grid y_k and values F_k"""

    def __init__(s): s.rec = []

    def out(s, k, n): return [tm.var("y%d[%d]" % (k, i), "R") for i in range(n)], [tm.var("F%d[%d]" % (k, i), "R") for i in range(n)]


def elementwise(name, fn):
    """opaque jitted elementwise function; hook: fn(terms) -> term"""
    import jax, jax.numpy as jnp

    def body(*xs):
        r = 0.0
        for x in xs: r = r + x * 0.0
        return r
    body.__name__ = body.__qualname__ = name

    def call(*a): return jax.jit(body)(*[jnp.asarray(x, float) for x in a])

    def hook(ctx, eqn, ins):
        ins = np.broadcast_arrays(*[jx.toT(i) for i in ins])
        o = np.empty(ins[0].shape, dtype=object)
        for i in np.ndindex(*o.shape): o[i] = fn(*[x[i] for x in ins])
        return [o]
    return call, hook


def run_jax(make, use, args):
    """make(): object under the stubs; use(object, *args).  -> terms, Hankel calls, ctx"""
    import jax, jax.numpy as jnp
    m = mj()
    hooks, calls = {}, Calls()

    class H:
        def __init__(s, x, fx, nu, N_extrap_low=0, N_extrap_high=0, c_window_width=0.25, N_pad=0): s.x, s.fx, s.nu = x, fx, nu

        def hankel(s, n):
            k = len(calls.rec)
            calls.rec.append(dict(nu=s.nu, n=n))

            def body(x, fx): return x * 0.0, fx * 0.0
            body.__name__ = body.__qualname__ = "hankel#%d" % k

            def hook(ctx, eqn, ins):
                x, f = [jx.toT(i) for i in ins]
                calls.rec[k].update(x=list(x), f=list(f))
                y, F_ = calls.out(k, len(x))
                return [np.array(y, dtype=object), np.array(F_, dtype=object)]
            hooks["hankel#%d" % k] = hook
            return jax.jit(body)(jnp.asarray(s.x, float), jnp.asarray(s.fx, float))
    interps = []

    def interp(x, xp, fp, left=None, right=None, period=None):
        k = len(interps)
        interps.append(right)
        if left is not None or period is not None: raise ValueError("interp with left/period")

        def body(x, xp, fp): return x * 0.0 + jnp.sum(xp) * 0.0 + jnp.sum(fp) * 0.0
        body.__name__ = body.__qualname__ = "interp#%d" % k

        def hook(ctx, eqn, ins):
            x, xp, fp = [jx.toT(i) for i in ins]
            o = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape): o[i] = interp_term(x[i], list(xp), list(fp), right)
            return [o]
        hooks["interp#%d" % k] = hook
        return jax.jit(body)(jnp.asarray(x, float), jnp.asarray(xp, float), jnp.asarray(fp, float))

    grids = []

    def fn(g, *a):
        def logspace(lo, hi, n=50, **kw):
            grids.append((lo, hi, n))
            return g
        reps = [(m, "hankel", H), (jnp, "interp", interp), (jnp, "logspace", logspace)]
        for nm in ("j1", "j2", "j1p5", "j0", "ellipk", "ellipe", "gamma"):
            if hasattr(m, nm):
                c, h = elementwise("special_" + nm, (lambda nm: lambda x: special(nm, x))(nm))
                hooks["special_" + nm] = h
                reps.append((m, nm, c))
        with patched(*reps):
            global _hooks
            _hooks = hooks
            return use(make(), *a)
    jax.clear_caches()
    avals = [(a.shape, np.float64) for a in args]
    cj, _ = jx.trace(fn, avals)
    ctx = jx.Ctx(hooks=hooks)
    outs = jx.interp(ctx, cj.jaxpr, cj.consts, list(args))
    return [jx.toT(o) for o in outs], calls.rec, grids


def special(nm, x):
    c = tm.cv(x)
    if nm == "gamma" and isinstance(c, Fr) and c > 0 and c.denominator <= 2: return gamma_val(c)
    # the half-integer and the second Bessel function in terms of the elementary functions and of j0, j1 (P20)
    if nm == "j1p5": return tm.sqrt(const(2)) / (tm.sqrt(PI) * tm.sqrt(x)) * (tm.sin(x) / x - tm.cos(x))
    if nm == "j2": return 2 * tm.fn("j1", x, sort="R") / x - tm.fn("j0", x, sort="R")
    return tm.fn(nm, x, sort="R")


def unscaled(ts):
    """common positive constant factor of the coordinates removed (linear interpolation is invariant under it)"""
    def strip(t):
        c = const(1)
        while t.op in ("mul", "div"):
            a, b = t.args
            if not tm.free_vars(b) and (t.op == "div" or tm.free_vars(a)): c, t = (tm.div(c, b) if t.op == "div" else tm.mul(c, b)), a
            elif t.op == "mul" and not tm.free_vars(a): c, t = tm.mul(c, a), b
            else: break
        return c, t
    # constant nodes are divided by the factor of the others
    cs = [strip(t) for t in ts]
    scale = next((c for (c, u), t in zip(cs, ts) if tm.free_vars(t)), None)
    if scale is not None: cs = [(c, u) if tm.free_vars(t) else (scale, log_of_ten(tm.div(t, scale))) for (c, u), t in zip(cs, ts)]
    return [u for _, u in cs] if all(c is cs[0][0] for c, _ in cs) and float(evaluate_f([cs[0][0]], {})[0]) > 0 else list(ts)


def log_of_ten(t):
    """log(10^k) = k log(10), collected"""
    m = {}
    for n in tm.topo([t]):
        if n.op == "fn" and n.val == "log" and isinstance(tm.cv(n.args[0]), Fr):
            v, k = tm.cv(n.args[0]), 0
            while v > 1 and v % 10 == 0: v, k = v / 10, k + 1
            if v == 1 and k > 1: m[n] = const(k) * tm.fn("log", const(10), sort="R")
    t = tm.subst(t, m) if m else t
    L = tm.fn("log", const(10), sort="R")
    q = tm.div(t, L)
    v = float(evaluate_f([q], {})[0])
    return const(round(v)) * L if abs(v - round(v)) < 1e-12 and round(v) else t


def interp_term(x, xp, fp, right):
    x, *xp = unscaled([x] + list(xp))
    return tm.fn("interp_right1" if right is not None and tm.cv(npsym.lift(right)) == 1 else "interp" if right is None else "interp_other", x, *xp, *fp, sort="R")


def sk_hook():
    return elementwise("profile_sk", lambda k, rho, *a: tm.fn("sk", k, rho, *a, sort="R"))


def a0_hook():
    return elementwise("profile_A0", lambda rho, *a: tm.fn("A0", rho, *a, sort="R"))


def run_numpy(make, use, args, hyps):
    """symbolic execution of the NumPy model: [(path, terms, calls, grids)]"""
    import scipy.special as ss
    import microjax.fastlens as pkg
    import microjax.fastlens.fftlog as ff
    state = {}

    class H:
        def __init__(s, x, fx, nu, N_extrap_low=0, N_extrap_high=0, c_window_width=0.25, N_pad=0): s.x, s.fx, s.nu = x, fx, nu

        def hankel(s, n):
            k = len(state["calls"])
            state["calls"].append(dict(nu=s.nu, n=n, x=list(npsym.terms(s.x)), f=list(npsym.terms(s.fx))))
            y, F_ = Calls().out(k, len(s.x))
            return npsym.sa([npsym.V(t) for t in y]), npsym.sa([npsym.V(t) for t in F_])

    def interp(x, xp, fp, left=None, right=None, period=None):
        if left is not None or period is not None: raise ValueError("interp with left/period")
        f = lambda v: npsym.V(interp_term(npsym.lift(v), list(npsym.terms(xp)), list(npsym.terms(fp)), right))
        return npsym.sa([f(v) for v in x.ravel()], x.shape) if isinstance(x, np.ndarray) else f(x)

    def logspace(lo, hi, n=50, **k):
        state["grids"].append((lo, hi, n))
        return state["g"]

    def elem(nm, pick=lambda *a: a[-1], key=lambda nm, *a: nm):
        def f(*a):
            x = a[-1]
            n = key(nm, *a)
            g = lambda v: npsym.V(special(n, npsym.lift(v)))
            return npsym.sa([g(v) for v in x.ravel()], x.shape) if isinstance(x, np.ndarray) and x.ndim else g(x)
        return f

    def jn_key(nm, order, x):
        c = tm.cv(npsym.lift(order))
        return bessel(Fr(c))
    shim = npsym.Shim(interp=interp, logspace=logspace)

    class FF: hankel = H
    m = npsym.load("microjax.fastlens.mag_fft", [(np, shim), (ff, FF), (ff.hankel, H), (ss.gamma, elem("gamma")), (ss.j0, elem("j0")), (ss.j1, elem("j1")), (ss.jn, elem("jn", key=jn_key)), (ss.jv, elem("jn", key=jn_key)), (ss.ellipk, elem("ellipk")), (ss.ellipe, elem("ellipe"))])
    wrap = [npsym.sa([npsym.V(t) for t in np.ravel(x)]) if np.ndim(x) else npsym.V(x[()]) for x in args]
    out = []

    def go():
        state.update(calls=[], grids=[], g=wrap[0])
        r = use(make(m), *wrap[1:])
        return r, list(state["calls"]), list(state["grids"])
    P = npsym.Paths(hyps)
    for h, r in P.run(go):
        if isinstance(r, SystemExit): raise RuntimeError("exit")
        r, calls, grids = r
        out.append((h, list(np.ravel(npsym.terms(r))), calls, grids))
    return out


# ---------------------------------------------------------------- comparison
def roots(t):
    """correctly rounded square roots of small rationals (times powers of pi) that the code computed in floating point"""
    m = {}
    for n in tm.topo([t]):
        v = tm.cv(n) if n.op == "const" and n.sort == "R" else None
        if isinstance(v, Fr) and v.denominator > 10 ** 7:
            f, k = tm.nice(float(v) ** 2)
            if f.denominator <= 10 ** 7 and abs(float(v) ** 2 - float(f) * np.pi ** k) <= 2e-15 * float(v) ** 2:
                r = tm.sqrt(const(f) * tm.powi(PI, k) if k else const(f))
                m[n] = r if v > 0 else -r
    return tm.subst(t, m) if m else t


def equal_cases(key, u, want, hyp, seed, pos=()):
    how = set()
    u = roots(u)
    try:
        n = 0
        for h2, w2 in branches(want, hyp):
            for h3, u2 in branches(u, h2):
                u2, w3 = signs(u2, h3), signs(w2, h3)
                pr = Prover(Domain({}, [], seed=seed), budget_s=40, positive=list(pos))
                r = pr.prove(Goal("v", u2, w3, h3))
                if r.status != "proved": return rec(key, "failed", "", "%s on %s" % (r.reason, [tm.pretty(x) for x in h3][:8]))
                how.add(r.backend)
                n += 1
        if not n: return rec(key, "unknown", "", "no feasible branch")
        return rec(key, "proved", "branches+" + "+".join(sorted(how)), "%d branches" % n)
    except Exception as e: return rec(key, "unknown", "", repr(e)[:200])


def all_of(key, recs):
    bad = [r for r in recs if r["status"] != "proved"]
    if bad: return rec(key, bad[0]["status"], "", "%s: %s" % (bad[0]["name"], bad[0].get("reason", "")))
    return rec(key, "proved", recs[0]["backend"] if recs else "", "%d comparisons" % len(recs))


# ---------------------------------------------------------------- specification of the tabulation
def point_mag(u): return (u ** 2 + 2) / (tm.abs_(u) * tm.sqrt(u ** 2 + 4))
def log10(x): return tm.fn("log", x, sort="R") / tm.fn("log", const(10), sort="R")
def fourier_point(g): return [((u ** 2 + 2) / (tm.sqrt(u ** 2 + 4) * u) - 1) * u ** 2 for u in g]


def call_input(tag, calls, k, x, f, hyp, seed):
    """the k-th Hankel transform is of order 0 of f on the grid x, with a bias for which the transform of a bounded function converges"""
    if len(calls) <= k: return [rec(tag, "failed", "", "transform %d missing" % k)]
    c = calls[k]
    if c["n"] != 0 or not .5 < float(c["nu"]) < 2: return [rec(tag, "failed", "", "order %r bias %r" % (c["n"], c["nu"]))]
    if len(c["x"]) != len(x): return [rec(tag, "failed", "", "grid of size %d" % len(c["x"]))]
    return [equal_cases("%s[%d]" % (tag, i), a, b, hyp, seed) for i, (a, b) in enumerate(zip(list(c["x"]) + list(c["f"]), list(x) + list(f)))]


def value_spec(u, rho, rs, us, y1, f1, y2, f2, a0, trunc):
    """trunc: (y, a) -> (nodes, values) of the truncated table"""
    v = tm.abs_(u)
    xs, vs = trunc(y2, [1 + f / (2 * PI) for f in f2])
    large = tm.ite(tm.lt(const(0), v), interp_term(log10(v), [log10(x) for x in xs], vs, 1), a0)
    if rs is None: return large
    small = tm.ite(tm.lt(v, us * rho), 1 + interp_term(v / rho, y1, f1, None) / rho, point_mag(u))
    return tm.ite(tm.lt(rho, rs), small, large)


def trunc_jax(y, a):
    c = [tm.lt(v, const(100)) for v in y]
    return [tm.ite(p, v, const(100)) for p, v in zip(c, y)], [tm.ite(p, v, const(1)) for p, v in zip(c, a)]


def opaque_model(base, extra=False):
    """subclass of the code's class with opaque profile and central value"""
    sk, h1 = sk_hook()
    a0, h2 = a0_hook()

    class M(base):
        def sk(s, k, rho, *a):
            _hooks["profile_sk"] = h1
            return sk(k, rho, *a)

        def A0(s, rho, *a):
            _hooks["profile_A0"] = h2
            return a0(rho, *a)
    return M


def table_jax(base, n=3):
    def run(seed, thorough):
        g, u = symarr("g", (n,)), symarr("u", (2,))
        rho, rs, us, a1 = R("rho"), R("rho_switch"), R("u_switch"), R("a1")
        legacy = base == "mag_"
        kw = dict(fft_logumin=-5, fft_logumax=2, N_fft=n)
        if legacy:
            outs, calls, grids = run_jax(lambda: opaque_model(mj().mag_)(**kw), lambda m, u, rho, a1: m.A(u, rho, a1), [g, u, A0(rho), A0(a1)])
        else:
            outs, calls, grids = run_jax(lambda: None, lambda m, u, rho, rs, us: opaque_model(mj().magnification)(rho_switch=rs, u_switch=us, **kw).A(u, rho), [g, u, A0(rho), A0(rs), A0(us)])
        hyp = [v > 0 for v in g] + [rho > 0, us > 0] + [tm.var("y%d[%d]" % (k, i), "R") > 0 for k in range(3) for i in range(n)]
        ar = [a1] if legacy else []
        k = Calls().out(0, n)
        apk = [2 * PI * f for f in k[1]]
        out = call_input("point_source_transform", calls, 0, list(g), fourier_point(g), hyp, seed)
        j = 1
        if not legacy:
            out += call_input("small_source_transform", calls, 1, list(g), [x * tm.fn("sk", x, const(1), sort="R") * tm.exp(-(x / 100) ** 2) for x in g], hyp, seed)
            j = 2
        out += call_input("convolution_transform", calls, j, k[0], [a * x ** 2 * tm.fn("sk", x, rho, *ar, sort="R") * tm.exp(-(x * rho / (40 * PI)) ** 2) for x, a in zip(k[0], apk)], hyp, seed)
        if any(tuple(float(v) for v in q) != (-5, 2, n) for q in grids) or not grids: out.append(rec("grid", "failed", "", "grids %s" % grids))
        out.append(rec("transform_count", "proved" if len(calls) == j + 1 else "failed", "trace", "%d transforms" % len(calls)))
        y1, f1 = Calls().out(1, n)
        y2, f2 = Calls().out(j, n)
        for i in range(2):
            want = value_spec(u[i], rho, None if legacy else rs, us, y1, f1, y2, f2, tm.fn("A0", rho, *ar, sort="R"), trunc_jax)
            out.append(equal_cases("A[%d]" % i, outs[0][i], want, hyp, seed))
        return with_replay(prefixed("table_jax_" + base, out), seed)
    return lambda: Custom("table_jax_" + base, run, functions=[J + base + ".A", J + base + ".init_Apk"] + ([] if base == "mag_" else [J + base + "." + f for f in ("init_Aext0", "_A_for_small_rho", "_A_for_large_rho")] + [J + "A_point"]), trusted=["hankel (P21) and jnp.interp by contract"])


def table_numpy(n=2):
    def run(seed, thorough):
        g, u = symarr("g", (n,)), symarr("u", (1,))
        rho, rs, us = R("rho"), R("rho_switch"), R("u_switch")
        hyp = [v > 0 for v in g] + [rho > 0, us > 0] + [tm.var("y%d[%d]" % (k, i), "R") > 0 for k in range(3) for i in range(n)]

        def opq(base):
            def each(nm, k, *a):
                f = lambda v: npsym.V(tm.fn(nm, npsym.lift(v), *[npsym.lift(x) for x in a], sort="R"))
                return npsym.sa([f(v) for v in k.ravel()], k.shape) if isinstance(k, np.ndarray) else f(k)

            class M(base):
                def sk(s, k, rho): return each("sk", k, rho)
                def A0(s, rho): return each("A0", rho)
            return M
        res = run_numpy(lambda m: m, lambda m, u, rho, rs, us: opq(m.magnification)(fft_logumin=-5, fft_logumax=2, N_fft=n, rho_switch=rs, u_switch=us).A(u, rho), [g, u, A0(rho), A0(rs), A0(us)], hyp)
        out, k = [], Calls().out(0, n)
        apk = [2 * PI * f for f in k[1]]
        kinds = set()
        for pn, (h, outs, calls, grids) in enumerate(res):
            small = len(calls) == 2
            kinds.add(small)
            if tuple(float(v) for v in grids[0]) != (-5, 2, n): out.append(rec("grid", "failed", "", "grids %s" % grids))
            o = call_input("point_source_transform", calls, 0, list(g), fourier_point(g), h, seed)
            o += call_input("small_source_transform", calls, 1, list(g), [x * tm.fn("sk", x, const(1), sort="R") * tm.exp(-(x / 100) ** 2) for x in g], h, seed)
            if not small: o += call_input("convolution_transform", calls, 2, k[0], [a * x ** 2 * tm.fn("sk", x, rho, sort="R") * tm.exp(-(x * rho / (40 * PI)) ** 2) for x, a in zip(k[0], apk)], h, seed)
            y1, f1 = Calls().out(1, n)
            y2, f2 = Calls().out(2, n)

            def trunc(y, a):
                kept = [i for i in range(n) if implied(h, tm.lt(y[i], const(100)))]
                if [i for i in range(n) if i not in kept and not implied(h, tm.not_(tm.lt(y[i], const(100))))]: raise ValueError("undecided truncation")
                return [y[i] for i in kept] + [const(100)], [a[i] for i in kept] + [const(1)]
            # the nodes are only compared where the table is read
            read = not implied(h, tm.lt(rho, rs)) and not implied(h, tm.eq(u[0], const(0)))
            want = value_spec(u[0], rho, rs, us, y1, f1, y2, f2, tm.fn("A0", rho, sort="R"), trunc if read else trunc_jax)
            o.append(equal_cases("A", outs[0], want, h, seed))
            out.append(all_of("path_%d" % pn, o))
        out.append(rec("both_regimes", "proved" if kinds == {True, False} else "failed", "paths", "%d paths" % len(res)))
        return with_replay(prefixed("table_numpy", out), seed)
    return Custom("table_numpy", run, functions=[N + "magnification." + f for f in ("A", "init_Apk", "init_Aext0", "_A_for_small_rho", "_A_for_large_rho")] + [N + "A_point"], trusted=["hankel (P21) and np.interp by contract"])


def prefixed(tag, rs):
    for r in rs: r["name"] = "%s/%s" % (tag, r["name"])
    return rs


# ---------------------------------------------------------------- source profiles and central magnifications
def bessel(nu): return {Fr(1): "j1", Fr(2): "j2", Fr(3, 2): "j1p5", Fr(0): "j0"}.get(Fr(nu), "j%s" % nu)


def gamma_val(nu):
    """Gamma at positive integers and half-integers"""
    nu = Fr(nu)
    if nu == 1: return const(1)
    if nu == Fr(1, 2): return tm.sqrt(PI)
    return const(nu - 1) * gamma_val(nu - 1)


def profile(n, x):
    """Fourier transform of the unit-flux profile (1+n/2)/(pi rho^2) (1-t^2)^(n/2): nu 2^nu Gamma(nu) J_nu(x)/x^nu, nu = 1+n/2"""
    nu = 1 + Fr(n, 2)
    p2 = const(2 ** int(nu)) * (const(1) if nu.denominator == 1 else tm.sqrt(const(2)))
    px = tm.powi(x, int(nu)) if nu.denominator == 1 else tm.pow_(x, const(nu))
    return tm.ite(tm.lt(const(0), x), const(nu) * p2 * gamma_val(nu) * special(bessel(nu), x) / px, const(1))


def mixed(a1, v0, v1): return ((1 - a1) * v0 + Fr(2, 3) * a1 * v1) / (1 - a1 / 3)


def central(n, r):
    if n == 0: return tm.sqrt(r ** 2 + 4) / r
    if n == 1: return (2 * (r ** 2 + 2) * tm.fn("ellipe", -r ** 2 / 4, sort="R") - (r ** 2 + 4) * tm.fn("ellipk", -r ** 2 / 4, sort="R")) / r ** 3
    if n == 2: return (r * (r ** 2 + 2) * tm.sqrt(r ** 2 + 4) - 8 * tm.fn("asinh", r / 2, sort="R")) / r ** 4


JAX_MODELS = {"magnification_disk": 0, "magnification_limb1": 1, "magnification_limb2": 2, "mag_disk": 0, "mag_limb1": "mix", "mag_limb": "mix"}


def weights_jax(name):
    def run(seed, thorough):
        kind = JAX_MODELS[name]
        kk, rho, a1 = symarr("k", (2,)), R("rho"), R("a1")
        hyp = [v >= 0 for v in kk] + [rho > 0, a1 >= 0, a1 <= 1]

        def make(a1):
            c = getattr(mj(), name)
            o = c.__new__(c)
            if name == "mag_limb1": o.a1 = a1
            return o
        ex = name in ("mag_disk", "mag_limb")
        outs, calls, grids = run_jax(lambda: None, lambda m, k, rho, a1: (make(a1).sk(k, rho, *([a1] if ex else [])), make(a1).A0(rho, *([a1] if ex else []))), [symarr("g", (1,)), kk, A0(rho), A0(a1)])
        out = []
        for i in range(2):
            x = kk[i] * rho
            want = profile(kind, x) if kind != "mix" else tm.ite(tm.lt(const(0), x), mixed(a1, profile(0, x), profile(1, x)), const(1))
            out.append(equal_cases("sk[%d]" % i, outs[0][i], want, hyp, seed))
        want = central(kind, rho) if kind != "mix" else mixed(a1, central(0, rho), central(1, rho))
        out.append(equal_cases("A0", outs[1].ravel()[0], want, hyp, seed))
        return with_replay(prefixed("weights_" + name, out), seed)
    return lambda: Custom("weights_" + name, run, functions=[J + name + ".sk", J + name + ".A0"], trusted=["Bessel functions, Gamma and elliptic integrals by the contracts of P20"])


def weights_numpy(name, n):
    tag = "weights_numpy_%s%s" % (name, n or "")

    def run(seed, thorough):
        kk, rho = symarr("k", (2,)), R("rho")
        hyp = [v >= 0 for v in kk] + [rho > 0]
        out = []

        def make(m):
            c = getattr(m, name)
            o = c.__new__(c)
            if n: o.n_limb = n
            return o
        res = run_numpy(make, lambda m, k, rho: m.sk(k, rho), [symarr("g", (1,)), kk, A0(rho)], hyp)
        for pn, (h, outs, _, _) in enumerate(res):
            out.append(all_of("sk_path_%d" % pn, [equal_cases("sk[%d]" % i, outs[i], profile(n, kk[i] * rho), h, seed) for i in range(2)]))
        if n < 3:
            res = run_numpy(make, lambda m, rho: m.A0(rho), [symarr("g", (1,)), A0(rho)], hyp)
            out.append(all_of("A0", [equal_cases("A0", outs[0], central(n, rho), h, seed) for h, outs, _, _ in res]))
        return with_replay(prefixed(tag, out), seed)
    return lambda: Custom(tag, run, functions=[N + name + ".sk", N + name + ".A0"], trusted=["SciPy Bessel functions, Gamma and elliptic integrals as external functions"])


def surface():
    """mag_limb.su is the linear limb-darkening law, whose unit-flux mixture has the weights used by sk and A0"""
    def run(seed, thorough):
        u, rho, a1 = symarr("u", (2,)), R("rho"), R("a1")
        hyp = [v >= 0 for v in u] + [rho > 0, a1 >= 0, a1 <= 1]
        c = mj().mag_limb
        outs, _, _ = run_jax(lambda: c.__new__(c), lambda m, u, rho, a1: m.su(u, rho, a1), [symarr("g", (1,)), u, A0(rho), A0(a1)])
        law = lambda mu: 1 - a1 * (1 - mu)
        out = [equal_cases("su[%d]" % i, outs[0][i], tm.ite(tm.lt(u[i], rho), law(tm.sqrt(1 - (u[i] / rho) ** 2)), const(0)), hyp, seed) for i in range(2)]
        mu = R("mu")
        # unit-flux profiles on the unit disk: 1/pi and 3 mu/(2 pi)
        out.append(equal_cases("mixture", mixed(a1, const(1), const(Fr(3, 2)) * mu) * (1 - a1 / 3), law(mu), hyp, seed))
        return with_replay(prefixed("surface_brightness", out), seed)
    return Custom("surface_brightness", run, functions=[J + "mag_limb.su"])


def derivative(f, x, others=()):
    """d f / d x of a JAX function by forward differentiation, as a term"""
    import jax
    g = lambda v, *o: jax.jvp(lambda w: f(w, *o), (v,), (v * 0 + 1.0,))
    cj, _ = jx.trace(g, [((), np.float64)] * (1 + len(others)))
    ctx = jx.Ctx(hooks={})
    v, d = jx.interp(ctx, cj.jaxpr, cj.consts, [A0(x)] + [A0(o) for o in others])
    return jx.toT(v).ravel()[0], jx.toT(d).ravel()[0]


def central_lemmas():
    """the closed forms are the disk averages of the point-lens magnification"""
    def run(seed, thorough):
        import jax.numpy as jnp
        r, th = R("r"), R("theta")
        hyp = [r > 0]
        out = []
        # uniform: A0 = (2/rho^2) int_0^rho (s^2+2)/sqrt(s^2+4) ds
        v, d = derivative(lambda s: s * jnp.sqrt(s * s + 4), r)
        out += [equal_cases("disk_form", central(0, r) * r ** 2, v, hyp, seed), equal_cases("disk_derivative", d, 2 * (r ** 2 + 2) / tm.sqrt(r ** 2 + 4), hyp, seed)]
        # 2(1-t^2): A0 = (4/rho^4) int (rho^2-s^2)(s^2+2)/sqrt(s^2+4) ds, whose derivative in rho is 8 rho int (s^2+2)/sqrt(s^2+4) ds = 4 rho^2 sqrt(rho^2+4)
        v, d = derivative(lambda s: s * (s * s + 2) * jnp.sqrt(s * s + 4) - 8 * jnp.arcsinh(s / 2), r)
        out += [equal_cases("limb2_form", central(2, r) * r ** 4, v, hyp, seed), equal_cases("limb2_derivative", d, 4 * r ** 2 * tm.sqrt(r ** 2 + 4), hyp, seed)]
        # (3/2) sqrt(1-t^2), s = rho sin theta: integrand = that of 2(rho^2+2) E - (rho^2+4) K plus the derivative of a function vanishing at 0 and pi/2
        S, Cc = tm.sin(th), tm.cos(th)
        W = tm.sqrt(1 + r ** 2 / 4 * S ** 2)
        lhs = 3 * r ** 2 * Cc ** 2 * (r ** 2 * S ** 2 + 2) / (2 * W)
        _, d = derivative(lambda t, r: 2 * r * r * jnp.sin(t) * jnp.cos(t) * jnp.sqrt(1 + r * r / 4 * jnp.sin(t) ** 2), th, [r])
        sub = {tm.cos(th): R("c"), tm.sin(th): R("s")}
        c2 = lambda t: tm.subst(t, sub)
        # polynomial in c after clearing W: c^2 = 1 - s^2
        diff = (lhs - (2 * (r ** 2 + 2) * W - (r ** 2 + 4) / W) - d) * W
        out.append(equal_cases("limb1_integrand", even_c(c2(diff), c2(W)), const(0), hyp, seed))
        return prefixed("central_average", out)
    return Custom("central_average", run, functions=[], trusted=["E(m) and K(m) are the integrals of sqrt(1-m sin^2) and of its reciprocal over [0, pi/2]"])


def even_c(t, w):
    """t with c = sqrt(1-s^2) (the sign of cos is positive on [0, pi/2])"""
    return tm.subst(t, {tm.var("c", "R"): tm.sqrt(1 - R("s") ** 2)})


def contracts():
    d = {"table_jax_magnification": table_jax("magnification"), "table_jax_mag_": table_jax("mag_"), "table_numpy": table_numpy}
    for n in JAX_MODELS: d["weights_" + n] = weights_jax(n)
    d["weights_numpy_magnification_disk"] = weights_numpy("magnification_disk", 0)
    for n in (1, 2, 3, 4): d["weights_numpy_magnification_limb%d" % n] = weights_numpy("magnification_limb", n)
    d["surface_brightness"] = surface
    d["central_average"] = central_lemmas
    d["execution_magnification"] = bounded_oracle("execution_magnification", real_mag, 12, [J + "magnification.A", N + "magnification.A", J + "mag_.A"], "fixed corner points and random impact parameters and source sizes against direct integration over the source, tolerance 0.4 per cent")
    d["execution_versions"] = bounded_oracle("execution_versions", versions, 8, [J + "magnification.A", N + "magnification.A", J + "mag_limb.A", J + "mag_limb1.A"], "JAX against NumPy for three settings, radii from a tenth of rho_switch to 3000 times it, impact parameters up to 130; linear limb darkening against the combination of its two profiles")
    return d
