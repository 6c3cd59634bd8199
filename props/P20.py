"""P20: special functions.  Defining identities exactly; accuracy of the Bessel functions rigorously for all reals."""
from fractions import Fraction as Fr
from math import factorial
import mpmath as mp
import numpy as np
from vc.spec import *
from vc.contract import Contract, Custom
from vc.prove import Goal, Prover, Domain
from vc.direct import rec, bounded_oracle
from vc import jx, bound as bd
from vc.branch import branches, signs, formal
from vc.numeric import evaluate
import vc.term as tm

EXPLAIN = ("Gamma and digamma are proved equal to the shifted Stirling series (whose remainder is a textbook bound), the reflection formulas and the poles included, and the derivative of gamma to be gamma times digamma. "
           "The elliptic integrals are proved to be the Gauss arithmetic-geometric-mean formulas with their imaginary-modulus transforms and the derivatives to be the textbook ones, with the number of steps proved sufficient. "
           "J0 and J1 are proved within 1e-13 of the Bessel functions for every real argument: against the power series (Bernstein bounds in rational arithmetic) on the small branch, through the residual of Bessel's equation on the large one; parity, derivatives, J2 and J3/2 are exact identities.")
S = "fastlens.special."
D = lambda v: Fr(v) if not isinstance(v, float) else Fr(v)


def sp():
    import microjax.fastlens.special as m
    return m


def vec(n, s): return jx.symarr(n, (1,), s)


BERN = [Fr(1, 6), Fr(-1, 30), Fr(1, 42), Fr(-1, 30), Fr(5, 66), Fr(-691, 2730), Fr(7, 6), Fr(-3617, 510)]
HALFLOG2PI = float(mp.log(2 * mp.pi) / 2)


def canon(t):
    """constants within 1e-14 of log(2 pi)/2 are read as that number, constants within an ulp of B_2k/(2k), B_2k/(2k(2k-1)) as those"""
    m = {}
    for u in tm.topo([t]):
        c = tm.cv(u)
        if c is None or u.sort == "B" or isinstance(c, tm.G): continue
        if abs(float(c) - HALFLOG2PI) < 1e-14: m[u] = tm.var("half_log_2pi", "R")
        for k in range(1, 9):
            for b in (BERN[k - 1] / (2 * k), BERN[k - 1] / (2 * k * (2 * k - 1))):
                if abs(abs(float(c)) - abs(float(b))) < 3e-16 * abs(float(b)) and c != b: m[u] = const(abs(b) if c > 0 else -abs(b))
    return tm.subst(t, m) if m else t


def log_gamma_stirling(z, N, K):
    """(w - 1/2) log w - w + log(2 pi)/2 + sum B_2k/(2k(2k-1) w^(2k-1)) - log z(z+1)...(z+N-1),  w = z + N"""
    w = z + N
    s = tm.var("half_log_2pi", "R") - w + (w - const(Fr(1, 2))) * tm.fn("log", w, sort="C")
    for k in range(1, K + 1): s = s + const(BERN[k - 1] / (2 * k * (2 * k - 1))) / w ** (2 * k - 1)
    u = const(1)
    for k in range(N): u = u * (z + k)
    return s - tm.fn("log", u, sort="C")


def real_gamma(seed, k):
    import jax.numpy as jnp
    m, r = sp(), np.random.default_rng(seed)
    for j in range(k):
        z = complex(r.uniform(-60, 60), r.uniform(-60, 60)) if j % 3 else complex(r.uniform(-8, 8), r.choice([0.0, r.uniform(-3, 3)]))
        if j % 7 == 0: z = complex(round(z.real), z.imag)
        if z.imag == 0 and z.real <= 0 and z.real == round(z.real):
            got = complex(m.gamma(jnp.asarray([z]))[0])
            if not np.isnan(got): return {"function": S + "gamma", "inputs": repr(z), "observed": repr(got), "expected": "nan at a pole"}
            continue
        want = mp.gamma(mp.mpc(z))
        got = complex(m.gamma(jnp.asarray([z]))[0])
        if abs(want) < mp.mpf(10) ** -290 or abs(want) > mp.mpf(10) ** 290: continue
        if not abs(got - complex(want)) <= 1e-9 * abs(complex(want)): return {"function": S + "gamma", "inputs": repr(z), "observed": repr(got), "expected": repr(complex(want))}
        want = mp.digamma(mp.mpc(z))
        got = complex(m.digamma_(jnp.asarray([z]))[0])
        if abs(z.imag) < 60 and not abs(got - complex(want)) <= 1e-9 * (1 + abs(complex(want))): return {"function": S + "digamma_", "inputs": repr(z), "observed": repr(got), "expected": repr(complex(want))}
    return None


def formal_cases(name, t, Z, cases, seed):
    """cases: (name, hypotheses over x = re z, y = im z, specified value); every feasible branch of the code inside a case must be the specified value"""
    x, y = R("x"), R("y")
    at = {tm.real(Z): x, tm.imag(Z): y}
    out = []
    for nm, hyp, want in cases:
        key = "%s/%s" % (name, nm)
        try:
            bs = branches(t, hyp, at)
            if not bs: out.append(rec(key, "unknown", "", "no feasible branch"))
            ok, how, why = True, set(), ""
            for h, u in bs:
                if u.op in ("nan", "inf", "ninf"): ok, why = False, "not a finite value on %s" % [tm.pretty(v) for v in h]; break
                pr = Prover(Domain({}, [], seed=seed), budget_s=60)
                r = pr.prove(Goal(nm, formal(u), formal(want)))
                if r.status != "proved": ok, why = False, r.reason + " on %s" % [tm.pretty(v) for v in h]; break
                how.add(r.backend)
            if bs: out.append(rec(key, "proved" if ok else "failed", "z3 (branches)+" + "+".join(sorted(how)), why or "%d branches" % len(bs)))
        except Exception as e:
            out.append(rec(key, "unknown", "", repr(e)[:200]))
    return out


def with_replay(out, falsify, seed, k):
    if any(r["status"] not in ("proved", "bounded-ok") for r in out):
        f = falsify(seed, k)
        if f:
            for r in out:
                if r["status"] not in ("proved", "bounded-ok"): r.update(status="refuted", replay=f)
    return out


def gamma_value():
    def run(seed, thorough):
        Z = C("z")
        x, y = R("x"), R("y")
        z0 = const(0)
        G = lambda q: tm.exp(log_gamma_stirling(q, 16, 5))
        try:
            (o,), _, _ = jx.run(lambda z: sp().gamma(z), [np.array([Z], dtype=object)], jx.Ctx())
            t = canon(o[0])
        except Exception as e: return with_replay([rec("gamma_value/vc-generation", "unknown", "", repr(e)[:300])], real_gamma, seed, 200)
        nonint = tm.not_(tm.and_(tm.eq(y, z0), tm.eq(x, tm.fn("floor", x))))
        out = formal_cases("gamma_value", t, Z, [("stirling_right_half_plane", [tm.lt(z0, x)], G(Z)), ("reflection", [tm.le(x, z0), nonint], const(tm.PI) / (tm.sin(const(tm.PI) * Z) * G(1 - Z)))], seed)
        bs = branches(t, [tm.le(x, z0), tm.eq(y, z0), tm.eq(x, tm.fn("floor", x))], {tm.real(Z): x, tm.imag(Z): y})
        ok = bs and all(u.op == "nan" for _, u in bs)
        out.append(rec("gamma_value/undefined_at_poles", "proved" if ok else "failed", "z3 (branches)", ""))
        return with_replay(out, real_gamma, seed, 200)
    return Custom("gamma_value", run, functions=[S + "gamma_"],
                  trusted=["Stirling series remainder: with |w| >= 16, Re w > 0 the five-term series is within 1e-10 of log Gamma (DLMF 5.11)", "recurrence and reflection formulas of Gamma and digamma"])


def digamma_value():
    def run(seed, thorough):
        Z = C("z")
        x = R("x")

        def asym(w):
            s = tm.fn("log", w, sort="C") - const(Fr(1, 2)) / w
            for k in range(1, 9): s = s - const(BERN[k - 1] / (2 * k)) / w ** (2 * k)
            return s
        shifted = lambda w: asym(w + 8) - sum((1 / (w + k) for k in range(8)), const(0))
        try:
            (o,), _, _ = jx.run(lambda z: sp().digamma_(z), [np.array([Z], dtype=object)], jx.Ctx())
            t = canon(o[0])
        except Exception as e: return with_replay([rec("digamma_value/vc-generation", "unknown", "", repr(e)[:300])], real_gamma, seed, 200)
        refl = const(tm.PI) / tm.fn("tan", const(tm.PI) * Z, sort="C")
        z0 = const(0)
        out = formal_cases("digamma_value", t, Z, [("asymptotic", [tm.le(const(8), x)], asym(Z)), ("recurrence", [tm.le(z0, x), tm.lt(x, const(8))], shifted(Z)),
                                                   ("reflection_near", [tm.lt(x, z0), tm.lt(const(-7), x)], shifted(1 - Z) - refl), ("reflection_far", [tm.le(x, const(-7))], asym(1 - Z) - refl)], seed)
        return with_replay(out, real_gamma, seed, 200)
    return Custom("digamma_value", run, functions=[S + "digamma_"])


def gamma_derivative():
    z, d = vec("z", "C"), vec("d", "C")

    def fn(z, d):
        import jax
        p, t = jax.jvp(sp().gamma, (z,), (d,))
        return p, t, sp().gamma(z), sp().digamma_(z)

    def falsify(seed, k):
        import jax, jax.numpy as jnp
        r = np.random.default_rng(seed)
        for _ in range(k):
            z = complex(r.uniform(-5, 8), r.uniform(-4, 4))
            with np.errstate(all="ignore"): t = complex(jax.jvp(sp().gamma, (jnp.asarray([z]),), (jnp.asarray([1 + 0j]),))[1][0])
            w = complex(mp.gamma(z) * mp.digamma(z))
            if not abs(t - w) <= 1e-8 * abs(w): return {"function": "jax.jvp(gamma)", "inputs": repr(z), "observed": repr(t), "expected": repr(w)}
        return None
    fin = lambda t: tm.subst(t, {})

    def ens(r):
        p, t, g, s = [x[0] for x in r]
        G, P = tm.var("gamma_of_z", "C"), tm.var("psi_of_z", "C")
        m = {g: G, s: P}
        return [Goal("value_under_jvp", tm.subst(p, m), G), Goal("gamma_times_digamma", tm.subst(t, m), G * P * d[0])]
    return Contract("gamma_derivative", fn, [z, d], ens, functions=[S + "gamma_jvp"], falsify=falsify, min_goals=2)


# ---------------------------------------------------------------- elliptic
def agm_terms(m, steps):
    a, b = const(1), tm.sqrt(1 - m)
    s = m / 2
    for n in range(1, steps + 1):
        c = (a - b) / 2
        s = s + const(Fr(2) ** (n - 1)) * c * c
        a, b = (a + b) / 2, tm.sqrt(a * b)
    return a, s


def real_elliptic(seed, k):
    import jax, jax.numpy as jnp
    m, r = sp(), np.random.default_rng(seed)
    xs = np.concatenate([[0.0], r.uniform(0, .999, k // 2), -10 ** r.uniform(-4, 3, k // 2)])
    dK = lambda x: (mp.ellipe(x) - (1 - x) * mp.ellipk(x)) / (2 * x * (1 - x)) if x else mp.pi / 8
    dE = lambda x: (mp.ellipe(x) - mp.ellipk(x)) / (2 * x) if x else -mp.pi / 8
    for nm, f, g, dg in (("ellipk", m.ellipk, mp.ellipk, dK), ("ellipe", m.ellipe, mp.ellipe, dE)):
        V, T = [np.asarray(q) for q in jax.jit(jax.vmap(lambda x: jax.jvp(f, (x,), (1.0,))))(jnp.asarray(xs))]
        for x, v, t in zip(xs, V, T):
            x, v, t = float(x), float(v), float(t)
            w, dw = float(g(x)), float(dg(x))
            if not abs(v - w) <= 1e-9 * abs(w): return {"function": S + nm, "inputs": x, "observed": v, "expected": w}
            if not abs(t - dw) <= 1e-6 * abs(dw) + 1e-12 / max(abs(x), 1e-6): return {"function": "jax.jvp(%s)" % nm, "inputs": x, "observed": t, "expected": dw}
    return None


def real_cases(name, cases, seed, pos=()):
    """cases: (name, code term, hypotheses, specified term); every feasible branch inside the hypotheses is the specified term"""
    out = []
    for nm, t, hyp, want in cases:
        key = "%s/%s" % (name, nm)
        try:
            bs = branches(t, hyp)
            ok, how, why = bool(bs), set(), ""
            for h, u in bs:
                u, w = signs(u, h), signs(want, h)
                pr = Prover(Domain({}, [], seed=seed), budget_s=60)
                r = pr.prove(Goal(nm, u, w, h))
                if r.status != "proved": ok, why = False, r.reason + " on %s" % [tm.pretty(v) for v in h]; break
                how.add(r.backend)
            out.append(rec(key, "proved" if ok else "failed", "z3 (branches)+" + "+".join(sorted(how)), why or "%d branches" % len(bs)))
        except Exception as e:
            out.append(rec(key, "unknown", "", repr(e)[:200]))
    return out


def generate(name, fn, args, falsify, seed, k):
    try:
        o, _, _ = jx.run(fn, args, jx.Ctx())
        return o, None
    except Exception as e: return None, with_replay([rec(name + "/vc-generation", "unknown", "", repr(e)[:300])], falsify, seed, k)


def elliptic():
    def run(seed, thorough):
        x = R("m")
        m = sp()
        o, bad = generate("elliptic", lambda x: (m.ellipk_(x), m.ellipe_(x), m.ellipk(x), m.ellipe(x)), [A0(x)], real_elliptic, seed, 80)
        if bad: return bad
        k, e, K, E = [v[()] for v in o]
        a, s = agm_terms(x, 5)
        pi = const(tm.PI)
        h = [x >= 0, x < 1]
        g = [("K_is_pi_over_2_agm", k, h, pi / (2 * a)), ("E_is_agm_sum", e, h, pi / (2 * a) * (1 - s)), ("K_positive", K, [x > 0, x < 1], pi / (2 * a)), ("E_positive", E, [x > 0, x < 1], pi / (2 * a) * (1 - s))]
        y = x / (x - 1)
        a, s = agm_terms(y, 5)
        g += [("K_imaginary_modulus", K, [x < 0], pi / (2 * a) / tm.sqrt(1 - x)), ("E_imaginary_modulus", E, [x < 0], pi / (2 * a) * (1 - s) * tm.sqrt(1 - x))]
        out = real_cases("elliptic", g, seed)
        pr = Prover(Domain({}, []), budget_s=20)
        for nm, t in (("K", K), ("E", E)):
            r = pr.prove(Goal(nm, tm.subst(t, {x: const(0)}), pi / 2))
            out.append(rec("elliptic/%s_at_zero" % nm, r.status, r.backend, r.reason))
        return with_replay(out, real_elliptic, seed, 80)
    return Custom("elliptic", run, functions=[S + f for f in ("agm", "agm2", "ellipk_", "ellipe_", "ellipk", "ellipe")],
                  trusted=["Gauss: K(m) = pi/(2 AGM(1, sqrt(1-m))), E = K (1 - sum 2^(n-1) c_n^2); imaginary-modulus transforms (DLMF 19.7, 19.8)"])


def elliptic_steps():
    """five steps are enough: with r = b/a the ratio after a step is 2 sqrt(r)/(1+r), increasing in r; so the worst case is the smallest start"""
    def run(seed, thorough):
        pr = Prover(Domain({"u": lambda r: r.uniform(.01, 1), "v": lambda r: r.uniform(.01, 1)}, [], seed=seed))
        u, v = R("u"), R("v")
        out = []
        # monotone: 2u/(1+u^2) increasing on (0,1]   (u = sqrt r): difference has the sign of v - u
        d = 2 * v / (1 + v * v) - 2 * u / (1 + u * u)
        res = pr.prove(Goal("ratio_step_monotone", d, 2 * (v - u) * (1 - u * v) / ((1 + u * u) * (1 + v * v))))
        out.append(rec("elliptic_steps/ratio_step_monotone", res.status, res.backend, "2u/(1+u^2) increases on (0,1]"))
        for nm, lim, tol in (("1e-3", "1e-3", "1e-13"), ("1e-6", "1e-6", "1e-7")):
            r = mp.sqrt(mp.mpf(lim))          # b/a at the start: sqrt(1-m), or 1/sqrt(1-m) for m < 0
            for _ in range(5): r = 2 * mp.sqrt(r) / (1 + r)
            out.append(rec("elliptic_steps/converged_from_" + nm, "proved" if 1 - r < mp.mpf(tol) else "failed", "50-digit evaluation", "1-m between %s and its inverse: relative gap after five steps %s" % (lim, mp.nstr(1 - r, 3))))
        return out
    return Custom("elliptic_steps", run, functions=[S + "agm"])


def elliptic_derivatives():
    """derivative rules (the values K, E proved above are named)"""
    def run(seed, thorough):
        import jax
        x, d = R("m"), R("dm")
        m = sp()

        def fn(x, d):
            a, b = jax.jvp(m.ellipk, (x,), (d,))
            c, e = jax.jvp(m.ellipe, (x,), (d,))
            return a, b, c, e, m.ellipk(x), m.ellipe(x)
        o, bad = generate("elliptic_derivatives", fn, [A0(x), A0(d)], real_elliptic, seed, 80)
        if bad: return bad
        vk, tk, ve, te, K0, E0 = [v[()] for v in o]
        pos, neg, s = [x > 0, x < 1], [x < 0], tm.sqrt(1 - x)
        K, E = tm.var("K", "R"), tm.var("E", "R")
        # code values of K and E on each side of 0, as the code computes them (their meaning is the contract `elliptic')
        out = []
        for side, h in (("positive", pos), ("negative", neg)):
            try:
                bk, be = branches(K0, h), branches(E0, h)
                if len(bk) != 1 or len(be) != 1: raise ValueError("branches")
                kc, ec = signs(bk[0][1], h), signs(be[0][1], h)
                kk, ee = (K, E) if side == "positive" else (K / s, E * s)
                dk = d * (ec - (1 - x) * kc) / (2 * x * (1 - x))
                de = d * (ec - kc) / (2 * x)
                out += real_cases("elliptic_derivatives", [("K_value_" + side, vk, h, kc), ("E_value_" + side, ve, h, ec), ("dK_" + side, tk, h, dk), ("dE_" + side, te, h, de)], seed)
                if side == "negative": out += real_cases("elliptic_derivatives", [("dK_at_zero", tk, [tm.eq(x, const(0))], d * const(tm.PI) / 8), ("dE_at_zero", te, [tm.eq(x, const(0))], -d * const(tm.PI) / 8)], seed)
            except Exception as e: out.append(rec("elliptic_derivatives/" + side, "unknown", "", repr(e)[:200]))
        return with_replay(out, real_elliptic, seed, 80)
    return Custom("elliptic_derivatives", run, functions=[S + f for f in ("ellipk_jvp", "ellipe_jvp")])


# ---------------------------------------------------------------- Bessel
TOL = Fr(1, 10 ** 13)


def real_bessel(seed, k):
    import jax, jax.numpy as jnp
    m, r = sp(), np.random.default_rng(seed)
    x = np.concatenate([r.uniform(-5.2, 5.2, k), r.uniform(-60, 60, k), [5.0, -5.0, 1e-6, 1e-5, -1e-5, 9.9e-6]])
    for nm, f, g in (("j0", m.j0, lambda t: mp.besselj(0, t)), ("j1", m.j1, lambda t: mp.besselj(1, t)), ("j2", m.j2, lambda t: mp.besselj(2, t))):
        got = np.asarray(f(jnp.asarray(x)))
        for a, b in zip(x, got):
            w = float(g(mp.mpf(float(a))))
            if not abs(b - w) <= 1e-12 + (1e-15 / abs(a) if nm == "j2" else 0): return {"function": S + nm, "inputs": float(a), "observed": float(b), "expected": w}
    for nm, f, g in (("j0", m.j0_, lambda t: -mp.besselj(1, t)), ("j1", m.j1_, lambda t: (mp.besselj(0, t) - mp.besselj(2, t)) / 2)):
        for a in list(x[:12]) + list(x[k:k + 12]) + [0.0]:
            t = float(jax.jvp(f, (jnp.asarray(float(a)),), (jnp.asarray(1.0),))[1])
            w = float(g(mp.mpf(float(a))))
            if not abs(t - w) <= 1e-10: return {"function": "jax.jvp(%s)" % nm, "inputs": float(a), "observed": t, "expected": w}
    xp = np.abs(x[np.abs(x) > 1e-3])
    got = np.asarray(m.j1p5(jnp.asarray(xp)))
    for a, b in zip(xp, got):
        w = float(mp.besselj(1.5, float(a)))
        if not abs(b - w) <= 1e-11: return {"function": S + "j1p5", "inputs": float(a), "observed": float(b), "expected": w}
    return None


def pieces(t, x):
    """t as a function of x > 0: [(lo, hi or None, term without conditions)]"""
    ax = tm.abs_(x)
    t = tm.subst(t, {ax: x})
    cuts = set()
    for u in tm.topo([t]):
        if u.op == "ite":
            for v in tm.topo([u.args[0]]):
                if v.op in ("lt", "le", "eq"):
                    c = [tm.cv(a) for a in v.args if tm.cv(a) is not None]
                    if len(c) != 1 or x not in v.args: return None
                    if c[0] > 0: cuts.add(Fr(c[0]))
    cuts = [Fr(0)] + sorted(cuts)
    out = []
    for i, lo in enumerate(cuts):
        hi = cuts[i + 1] if i + 1 < len(cuts) else None
        mid = (lo + hi) / 2 if hi is not None else lo * 2 + 1
        memo = {}
        for u in tm.topo([t]):
            if u.op == "ite":
                b = evaluate([u.args[0]], {x: mp.mpf(mid.numerator) / mid.denominator})[0]
                memo[u.id] = memo[u.args[1 if bool(b) else 2].id]
            elif u.args and all(a.id in memo for a in u.args):
                na = [memo[a.id] for a in u.args]
                memo[u.id] = u if all(p is q for p, q in zip(na, u.args)) else tm.rebuild(u, na)
            else: memo[u.id] = u
        out.append((lo, hi, memo[t.id]))
    return out


def maclaurin(nu, K=40):
    """power series of J_nu in x (lists of coefficients) and its remainder bound coefficient list, valid for x <= 12"""
    p = [Fr(0)] * (2 * K + nu + 1)
    for k in range(K + 1): p[2 * k + nu] = Fr((-1) ** k, factorial(k) * factorial(k + nu) * 2 ** (2 * k + nu))
    return p


def bessel_bound(nu, t, x, lo, hi):
    """(ok, what) : |t - J_nu| <= 1e-13 on [lo, hi] by the power series, or on [lo, inf) by the differential equation"""
    if hi is not None:
        f = bd.ratfun(t, x)
        if f is None: return False, "not a rational function on [%s, %s]" % (float(lo), float(hi))
        if hi > 12: return False, "series not used beyond 12"
        K = 40
        series = maclaurin(nu, K)
        # alternating and decreasing for x^2/4 < (K+1)(K+1+nu): the remainder is below the first omitted term
        last = Fr(hi) ** (2 * K + 2 + nu) / (factorial(K + 1) * factorial(K + 1 + nu) * 2 ** (2 * K + 2 + nu))
        if not (Fr(hi) ** 2 / 4 < (K + 1) and last < TOL / 1000): return False, "series"
        n = bd.padd(f.n, bd.pscale(bd.pmul(series, f.d), Fr(-1)))
        return bd.rat_bound(n, f.d, TOL * Fr(9, 10), lo, hi), "power series, remainder %.1e" % float(last)
    # u = sqrt(x) t = A cos(x - phi) - B sin(x - phi)
    th = x - const(Fr(2 * nu + 1, 4)) * const(tm.PI)
    c, s, q = tm.cos(th), tm.sin(th), tm.sqrt(x)
    Cv, Sv, Qv = R("cos"), R("sin"), R("sqrtx")
    v = tm.subst(t, {c: Cv, s: Sv, q: Qv})
    A = tm.subst(v, {Cv: const(1), Sv: const(0), Qv: const(1)})
    B = tm.neg(tm.subst(v, {Cv: const(0), Sv: const(1), Qv: const(1)}))
    if [u for u in tm.free_vars(A, B) if u is not x] or [u for u in tm.topo([A, B]) if u.op in ("fn", "sqrt", "ite", "exp", "sin", "cos")]: return False, "unexpected form"
    pr = Prover(Domain({}, []), positive=[x])
    res = pr.prove(Goal("phase_amplitude", v, (A * Cv - B * Sv) / Qv))
    if res.status != "proved": return False, "not of the form (A cos(x-phi) - B sin(x-phi))/sqrt(x): " + res.reason
    w5 = bd.RF([Fr(5)], [Fr(0), Fr(1)])           # x = 5/w
    if lo < 5: return False, "asymptotic branch below 5"
    a, b = bd.ratfun(A, x, w5), bd.ratfun(B, x, w5)
    dx = lambda f: bd.RF([Fr(0), Fr(0), Fr(-1, 5)]) * f.der()
    kap = Fr(1, 4) - Fr(nu) ** 2                       # u'' + (1 + kap/x^2) u = 0
    ix2 = bd.RF([Fr(0), Fr(0), Fr(1, 25)])
    top = Fr(5) / Fr(lo)
    tot = Fr(0)
    for f in (dx(dx(a)) - bd.RF([Fr(2)]) * dx(b) + bd.RF([kap]) * ix2 * a, dx(dx(b)) + bd.RF([Fr(2)]) * dx(a) + bd.RF([kap]) * ix2 * b):
        # |rho| <= delta w^2 (so that its integral over x, dx = -5 dw/w^2, is at most 5 delta)
        g = f * bd.RF([Fr(1)], [Fr(0), Fr(0), Fr(1)])
        for e in (Fr(1, 10 ** 15), Fr(1, 2 * 10 ** 15), Fr(1, 10 ** 14)):
            if bd.rat_bound(g.n, g.d, e, 0, top): break
        else: return False, "residual of Bessel's equation not below 1e-14"
        tot += 5 * e * top
    # value at infinity
    a0, b0 = [mp.mpf(r.n[0].numerator) / r.n[0].denominator / (mp.mpf(r.d[0].numerator) / r.d[0].denominator) if r.n and r.n[0] else mp.mpf(0) for r in (a, b)]
    inf_ = abs(a0 - mp.sqrt(2 / mp.pi)) + abs(b0)
    err = mp.exp(mp.mpf(abs(kap).numerator) / abs(kap).denominator / (mp.mpf(lo.numerator) / lo.denominator)) * (mp.mpf(tot.numerator) / tot.denominator + inf_) / mp.sqrt(mp.mpf(lo.numerator) / lo.denominator)
    return err <= mp.mpf("1e-13"), "residual of Bessel's equation; error below %s" % mp.nstr(err, 3)


def bessel(nu):
    def run(seed, thorough):
        x = R("x")
        m = sp()
        f = m.j0_ if nu == 0 else m.j1_
        nm = "bessel_j%d" % nu
        out = []
        try:
            (o,), ctx, _ = jx.run(lambda x: f(x), [A0(x)], jx.Ctx())
            t = o[()]
            tn = tm.subst(t, {x: -x})
            pr = Prover(Domain({"x": lambda r: r.uniform(-30, 30)}, [], seed=seed), budget_s=60)
            res = pr.prove(Goal("parity", tn, t if nu == 0 else -t))
            out.append(rec(nm + "/parity", res.status, res.backend, res.reason))
            pos = tm.subst(t, {tm.abs_(x): x})
            ps = pieces(pos, x)
            if ps is None: out.append(rec(nm + "/branches", "unknown", "", "conditions are not thresholds on |x|"))
            else:
                for lo, hi, u in ps:
                    ok, why = bessel_bound(nu, u, x, lo, hi)
                    out.append(rec("%s/within_1e-13_on_%g_%s" % (nm, float(lo), "inf" if hi is None else "%g" % float(hi)), "proved" if ok else "failed", "bernstein" if ok else "", why))
            if nu == 1: out.append(rec(nm + "/zero", "proved" if tm.cv(tm.subst(t, {x: const(0)})) == 0 else "unknown", "evaluation", ""))
        except Exception as e:
            out.append(rec(nm + "/vc-generation", "unknown", "", repr(e)[:300]))
        if any(r["status"] != "proved" for r in out):
            f_ = real_bessel(seed, 120)
            if f_:
                for r in out:
                    if r["status"] != "proved": r.update(status="refuted", replay=f_)
        return out
    return lambda: Custom("bessel_j%d" % nu, run, functions=[S + "j%d_" % nu, S + "j%d_small" % nu, S + "j%d_large" % nu],
                          trusted=["Maclaurin series of J_nu; Bessel's equation, leading asymptotics at infinity and Gronwall's inequality (a solution u of u'' + (1+k/x^2)u = rho with given data at infinity differs by at most exp(|k|/x) times the integral of |rho| plus the difference at infinity)"])


def bessel_relations():
    def run(seed, thorough):
        import jax, jax.numpy as jnp
        x, d = R("x"), R("d")
        m = sp()

        def fn(x, d):
            one = lambda f, a: f(jnp.stack([a, 2 * a]))
            p0, t0 = jax.jvp(m.j0_, (x,), (d,))
            p1, t1 = jax.jvp(m.j1_, (x,), (d,))
            return m.j0_(x), m.j1_(x), m.j2_(x), m.j1p5_(x), p0, t0, p1, t1, one(m.j0, x), one(m.j1, x), one(m.j2, x), one(m.j1p5, x), m.j0_(2 * x), m.j1_(2 * x)
        r, bad = generate("bessel_relations", fn, [A0(x), A0(d)], real_bessel, seed, 100)
        if bad: return bad
        a = [v if v.shape else v[()] for v in r]
        j0, j1 = a[0], a[1]
        J0, J1, K0, K1 = R("J0"), R("J1"), R("J0b"), R("J1b")
        mpp = {j0: J0, j1: J1, a[12]: K0, a[13]: K1}
        s = lambda t: tm.subst(t, mpp)
        zero = [tm.eq(x, const(0))]
        nz = [tm.not_(zero[0])]
        h = lambda x: tm.sqrt(2 / (const(tm.PI) * x)) * (tm.sin(x) / x - tm.cos(x))
        cases = [("j2_recurrence", s(a[2]), nz, 2 * J1 / x - J0), ("j1p5_closed_form", a[3], [x > 0], h(x)),
                 ("j0_value_under_jvp", s(a[4]), [], J0), ("dj0", s(a[5]), [], -d * J1), ("j1_value_under_jvp", s(a[6]), [], J1), ("dj1", s(a[7]), nz, d * (J0 - J1 / x)), ("dj1_at_zero", s(a[7]), zero, d * (J0 - const(Fr(1, 2)))),
                 ("j0_array[0]", s(a[8][0]), [], J0), ("j0_array[1]", s(a[8][1]), [], K0), ("j1_array[0]", s(a[9][0]), [], J1), ("j1_array[1]", s(a[9][1]), [], K1),
                 ("j2_array[1]", s(a[10][1]), nz, 2 * K1 / (2 * x) - K0), ("j1p5_array[1]", a[11][1], [x > 0], h(2 * x))]
        return with_replay(real_cases("bessel_relations", cases, seed), real_bessel, seed, 100)
    return Custom("bessel_relations", run, functions=[S + f for f in ("j0_jvp", "j1_jvp", "j2_", "j1p5_", "j0", "j1", "j2", "j1p5")],
                  trusted=["recurrences and derivatives of Bessel functions (DLMF 10.6), J1(x)/x -> 1/2 at 0"])


def contracts():
    d = {"gamma_value": gamma_value, "digamma_value": digamma_value, "gamma_derivative": gamma_derivative, "elliptic": elliptic, "elliptic_steps": elliptic_steps,
         "elliptic_derivatives": elliptic_derivatives, "bessel_j0": bessel(0), "bessel_j1": bessel(1), "bessel_relations": bessel_relations}
    d["execution_gamma"] = bounded_oracle("execution_gamma", real_gamma, 150, [S + "gamma", S + "digamma_"], "random complex arguments")
    d["execution_bessel"] = bounded_oracle("execution_bessel", real_bessel, 300, [S + "j0", S + "j1", S + "j2", S + "j1p5"], "random arguments up to 60")
    d["execution_elliptic"] = bounded_oracle("execution_elliptic", real_elliptic, 80, [S + "ellipk", S + "ellipe"], "random parameters below 1")
    return d
