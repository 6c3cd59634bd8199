"""P21: log-FFT Hankel transform."""
from fractions import Fraction as Fr
import mpmath as mp
import numpy as np
from vc.spec import *
from vc.contract import Contract, Custom
from vc.prove import Goal, Prover, Domain
from vc.direct import rec, bounded_oracle
from vc import jx, npsym
from vc.branch import branches, push, formal, implied
from vc.stub import raw
import vc.term as tm

EXPLAIN = ("The kernels g_m, g_l, g_l', g_l'' and h_l are proved to be the Gamma-function ratios of the Mellin transforms of j_l, j_l', j_l'' and j_l^2 on every branch (the asymptotic one term by term the Stirling difference), the window, the extrapolation and the "
           "whole transform (bias, FFT coefficients, phases, slices) to be the formulas of the specification, for the JAX code and, path by path, for the NumPy code executed symbolically; the FFTs and the NumPy Gamma function are external contracts.")
F = "fastlens.fftlog_jax."
FN = "fastlens.fftlog."


def fj():
    import microjax.fastlens.fftlog_jax as m
    return m


def opaque_gamma(z): return tm.fn("gamma", z, sort="C")


def gamma_np(x):
    if isinstance(x, np.ndarray): return npsym.sa([npsym.V(opaque_gamma(npsym.lift(v))) for v in x.ravel()], x.shape)
    return npsym.V(opaque_gamma(npsym.lift(x)))


def dft_terms(name, xs, n, sort): return [tm.fn("%s_%d" % (name, k), *xs, sort=sort) for k in range(n)]


def rfft_np(a, *r, **k):
    if r or k: raise ValueError("unexpected FFT arguments")
    return npsym.sa([npsym.V(t) for t in dft_terms("rfft", [npsym.lift(v) for v in a], len(a) // 2 + 1, "C")])


def irfft_np(a, *r, **k):
    if r or k: raise ValueError("unexpected FFT arguments")
    return npsym.sa([npsym.V(t) for t in dft_terms("irfft", [npsym.lift(v) for v in a], 2 * (len(a) - 1), "R")])


def np_module():
    import scipy.special as ss
    import numpy.fft as nf
    sh = npsym.Shim()
    return npsym.load("microjax.fastlens.fftlog", [(np, sh), (ss.gamma, gamma_np), (nf.rfft, rfft_np), (nf.irfft, irfft_np), (ss, npsym.Shim(gamma=gamma_np)), (nf, npsym.Shim(rfft=rfft_np, irfft=irfft_np))])


def hook_fft(ctx, eqn, ins):
    kind = str(eqn.params["fft_type"])
    a = jx.toT(ins[0])
    n = eqn.outvars[0].aval.shape
    if a.ndim != 1: raise jx.Unsupported("batched FFT")
    nm = "irfft" if "IRFFT" in kind or kind.endswith("3") else "rfft" if "RFFT" in kind or kind.endswith("2") else None
    if nm is None: raise jx.Unsupported("fft type " + kind)
    if list(eqn.params["fft_lengths"]) != [n[0] if nm == "irfft" else a.shape[0]]: raise jx.Unsupported("fft length")
    o = np.empty(n, dtype=object)
    o[:] = dft_terms(nm, list(a), n[0], "R" if nm == "irfft" else "C")
    return [o]


def hook_gamma(ctx, eqn, ins):
    a = jx.toT(ins[0])
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape): o[i] = opaque_gamma(a[i])
    return [o]


HOOKS = {"prim:fft": hook_fft, "gamma_": hook_gamma, "gamma": hook_gamma}


def stirling_log(z):
    """(z - 1/2) log z - z + 1/(12 z) - 1/(360 z^3) + 1/(1260 z^5)   (the constant log(2 pi)/2 cancels in ratios)"""
    return (z - const(Fr(1, 2))) * tm.fn("log", z, sort="C") - z + const(Fr(1, 12)) / z - const(Fr(1, 360)) / z ** 3 + const(Fr(1, 1260)) / z ** 5


# ---------------------------------------------------------------- kernels
l, z, mu, q, a_ = R("l"), C("z"), R("mu"), C("q"), C("a")
half = const(Fr(1, 2))


class Ratio:
    """Gamma(p)/Gamma(m); the asymptotic form is admitted where `far' holds, the direct one where `near' holds"""

    def __init__(s, p, m, size, near, far): s.p, s.m, s.near, s.far = p, m, tm.le(size, const(near)), tm.le(const(far), size)

    def forms(s): return [("gamma", opaque_gamma(s.p) / opaque_gamma(s.m), s.near), ("stirling", tm.exp(stirling_log(s.p) - stirling_log(s.m)), s.far)]


def gm_ratio(mu, q): return Ratio((mu + 1 + q) / 2, (mu + 1 - q) / 2, tm.abs_(tm.imag(q)) + tm.abs_(mu), 200, 100)
def half_ratio(a): return Ratio(a, a + half, tm.abs_(tm.imag(a)), 100, 50)


def two(z): return tm.pow_(const(2), z)


def kernels():
    """name -> (function name, arguments, prefactor, ratios)"""
    return {"g_m_vals": ([mu, q], const(1), [gm_ratio(mu, q)]), "g_m_ratio": ([a_], const(1), [half_ratio(a_)]),
            "g_l": ([l, z], two(z), [Ratio((l + z) / 2, (3 + l - z) / 2, tm.abs_(tm.imag(z)) + tm.abs_(l + half), 200, 100)]),
            "g_l_1": ([l, z], -two(z - 1) * (z - 1), [Ratio((l + z - 1) / 2, (4 + l - z) / 2, tm.abs_(tm.imag(z)) + tm.abs_(l + half), 200, 100)]),
            "g_l_2": ([l, z], two(z - 2) * (z - 1) * (z - 2), [Ratio((l + z - 2) / 2, (5 + l - z) / 2, tm.abs_(tm.imag(z)) + tm.abs_(l + half), 200, 100)]),
            "h_l": ([l, z], const(1), [Ratio(l + z / 2, 2 + l - z / 2, tm.abs_(tm.imag(z)) + tm.abs_(2 * l + 1), 200, 100), Ratio((2 - z) / 2, (3 - z) / 2, tm.abs_(tm.imag(z)) / 2, 100, 50)])}


def holo_equal(u, w, seed):
    pr = Prover(Domain({}, [], seed=seed), budget_s=40)
    return pr.prove(Goal("v", formal(u), formal(w)))


def forms(ratios):
    out = [((), const(1), [])]
    for r in ratios: out = [(n + (k,), v * f, c + [cond]) for n, v, c in out for k, f, cond in r.forms()]
    return out


def match_kernel(key, bs, pref, ratios, seed):
    """bs: feasible (path condition, value) pairs of the code"""
    used = set()
    for h, u in bs:
        h = [push(x) for x in h]
        if tm.cv(u) == 0:
            if not any(all_implied(h, r.m) for r in ratios): return rec(key, "failed", "", "zero where no Gamma(0) stands in the denominator: %s" % [tm.pretty(x) for x in h])
            used.add("zero")
            continue
        if tm.is_special(u): return rec(key, "failed", "", "not finite on %s" % [tm.pretty(x) for x in h])
        why = "no admissible form"
        for nm, v, cond in forms(ratios):
            if not all(implied(h, c) for c in cond): continue
            r = holo_equal(u, pref * v, seed)
            if r.status == "proved":
                used.add("*".join(nm) + ":" + r.backend)
                break
            why = r.reason
        else: return rec(key, "failed", "", "%s on %s" % (why, [tm.pretty(x) for x in h]))
    if not bs: return rec(key, "unknown", "", "no feasible path")
    return rec(key, "proved", "z3 (paths)+" + ",".join(sorted(used)), "%d paths" % len(bs))


def all_implied(h, m): return implied(h, tm.eq(m, const(0)))


def real_kernels(seed, k):
    import jax.numpy as jnp
    import microjax.fastlens.fftlog as fn
    r = np.random.default_rng(seed)
    G = mp.gamma
    want = {"g_l": lambda l, z: 2 ** z * G((l + z) / 2) / G((3 + l - z) / 2), "g_l_1": lambda l, z: -2 ** (z - 1) * (z - 1) * G((l + z - 1) / 2) / G((4 + l - z) / 2),
            "g_l_2": lambda l, z: 2 ** (z - 2) * (z - 1) * (z - 2) * G((l + z - 2) / 2) / G((5 + l - z) / 2),
            "h_l": lambda l, z: G(l + z / 2) * G((2 - z) / 2) / G((3 - z) / 2) / G(2 + l - z / 2)}
    for j in range(k):
        for nm, f in want.items():
            lv = float(r.choice([-0.5, 0.0, 0.5, 1.0, 2.0, 3.0, 7.0]))
            zv = complex(r.uniform(.2, 1.9) if nm != "g_l_1" else r.uniform(1.1, 1.9), r.choice([r.uniform(-5, 5), r.uniform(-190, 190), r.uniform(-500, 500)]))
            w = complex(f(mp.mpf(lv), mp.mpc(zv)))
            for m, arr in ((fj(), jnp.asarray), (fn, np.asarray)):
                got = complex(np.asarray(getattr(m, nm)(lv, arr([zv])))[0])
                if not abs(got - w) <= 1e-10 * abs(w): return {"function": m.__name__ + "." + nm, "inputs": {"l": lv, "z": repr(zv)}, "observed": repr(got), "expected": repr(w)}
    return None


def with_replay(out, falsify, seed, k):
    if any(r["status"] not in ("proved", "bounded-ok") for r in out):
        f = falsify(seed, k)
        if f:
            for r in out:
                if r["status"] not in ("proved", "bounded-ok"): r.update(status="refuted", replay=f)
    return out


def arr1(t):
    a = np.empty(1, dtype=object)
    a[0] = t
    return a


def kernel_contract(nm):
    def run(seed, thorough):
        args, pref, ratios = kernels()[nm]
        out = []
        # the poles of the numerator belong to no transform that exists
        hyp = [tm.not_(tm.eq(push(tm.real(x.p)) if x.p.sort == "C" else x.p, const(0))) for x in ratios]
        try:
            f = getattr(fj(), nm)
            ins = [A0(x) if x.sort == "R" else arr1(x) for x in args]
            (o,), _, _ = jx.run(lambda *v: f(*v), ins, jx.Ctx(hooks=HOOKS))
            out.append(match_kernel("kernel_%s/jax" % nm, branches(o[0], hyp), pref, ratios, seed))
        except Exception as e: out.append(rec("kernel_%s/jax" % nm, "unknown", "", repr(e)[:300]))
        try:
            m = np_module()
            f = getattr(m, nm)
            P = npsym.Paths(hyp)
            bs = []
            for h, r in P.run(lambda: f(*[npsym.V(x) if x.sort == "R" else npsym.sa([npsym.V(x)]) for x in args])):
                if isinstance(r, SystemExit): bs.append((h, tm.mk("nan")))
                else: bs.append((h, push(npsym.terms(r)[0])))
            out.append(match_kernel("kernel_%s/numpy" % nm, bs, pref, ratios, seed))
        except Exception as e: out.append(rec("kernel_%s/numpy" % nm, "unknown", "", repr(e)[:300]))
        return with_replay(out, real_kernels, seed, 60)
    return lambda: Custom("kernel_" + nm, run, functions=[F + nm, FN + nm],
                          trusted=["NumPy path: scipy.special.gamma is the Gamma function", "Stirling: the three-term series is within 1e-10 of log Gamma where it is used", "Mellin transforms of spherical Bessel functions (M[j_l](z) = 2^(z-2) sqrt(pi) Gamma((l+z)/2)/Gamma((3+l-z)/2)) and of their squares"])


# ---------------------------------------------------------------- window, extrapolation
def window_spec(n, M, cut):
    th = (M - n) / (cut - 1)
    return tm.ite(tm.lt(M - cut, n), th - tm.sin(2 * const(tm.PI) * th) / (2 * const(tm.PI)), const(1))


def compare(key, bs, want, seed, pos=()):
    """bs: (path, [terms]); want: [terms] possibly with conditionals; equal on every path"""
    how = set()
    for h, us in bs:
        if len(us) != len(want): return rec(key, "failed", "", "%d values where %d are specified" % (len(us), len(want)))
        for i, (u, w) in enumerate(zip(us, want)):
            for h2, w2 in branches(w, h):
                for h3, u2 in branches(u, h2):
                    pr = Prover(Domain({}, [], seed=seed), budget_s=40, positive=list(pos))
                    r = pr.prove(Goal("v", u2, w2))
                    if r.status != "proved": return rec(key, "failed", "", "[%d] %s on %s" % (i, r.reason, [tm.pretty(x) for x in h3][:6]))
                    how.add(r.backend)
    if not bs: return rec(key, "unknown", "", "no feasible path")
    return rec(key, "proved", "paths+" + "+".join(sorted(how)), "%d paths, %d values" % (len(bs), len(want)))


def both(name, fname, jaxfn, npfn, ins, want, hyp, seed, pos=()):
    out = []
    try:
        o, _, _ = jx.run(jaxfn, ins, jx.Ctx(hooks=HOOKS))
        out.append(compare(name + "/jax", [(list(hyp), [t for v in o for t in np.ravel(v)])], want, seed, pos))
    except Exception as e: out.append(rec(name + "/jax", "unknown", "", repr(e)[:300]))
    try:
        m = np_module()
        P = npsym.Paths(hyp)
        wrap = [npsym.sa([npsym.V(t) for t in np.ravel(x)]) if np.ndim(x) else npsym.V(x[()]) for x in ins]
        bs = []
        for h, r in P.run(lambda: npfn(m, *wrap)):
            if isinstance(r, SystemExit): raise RuntimeError("exit() on %s" % h)
            r = r if isinstance(r, tuple) else (r,)
            bs.append((h, [t for v in r for t in np.ravel(npsym.terms(v))]))
        out.append(compare(name + "/numpy", bs, want, seed, pos))
    except Exception as e: out.append(rec(name + "/numpy", "unknown", "", repr(e)[:300]))
    return out


def window():
    def run(seed, thorough):
        n = symarr("n", 3)
        M, cut = n[2], R("cut")
        hyp = [cut >= 2, tm.le(n[0], n[2]), tm.le(n[1], n[2])]
        out = both("window", "c_window", lambda n, c: raw(fj().c_window)(n, c), lambda m, n, c: m.c_window(n, c), [n, A0(cut)], [window_spec(v, M, cut) for v in n], hyp, seed)
        # what the formula means: the taper runs from theta = 1 (value 1, sin 2 pi = 0) at the cut to theta = 0 (value 0) at the last mode
        pr = Prover(Domain({}, [], seed=seed), budget_s=20)
        th = lambda v: (M - v) / (cut - 1)
        for nm, v, val in (("theta_0_at_last_mode", M, const(0)), ("theta_1_where_the_taper_starts", M - cut + 1, const(1))):
            r = pr.prove(Goal(nm, th(v), val))
            out.append(rec("window/" + nm, r.status, r.backend, r.reason))
        return with_replay(out, falsify_transform, seed, 4)
    return Custom("window", run, functions=[F + "c_window", FN + "c_window"])


def symarr(name, n): return jx.symarr(name, (n,), "R")


def extrap_spec(x, lo, hi):
    a, b = tm.log(x[1] / x[0]), tm.log(x[-1] / x[-2])
    return [x[0] * tm.exp(a * (k - lo)) for k in range(lo)] + list(x) + [x[-1] * tm.exp(b * (k + 1)) for k in range(hi)]


SIZES = ((0, 0), (1, 0), (0, 2), (3, 2))


def extrap():
    def run(seed, thorough):
        out = []
        x = symarr("x", 4)
        for lo, hi in SIZES:
            out += both("log_extrap_%d_%d" % (lo, hi), "log_extrap", lambda x: fj().log_extrap(x, lo, hi), lambda m, x: m.log_extrap(x, lo, hi), [x], extrap_spec(list(x), lo, hi), [v > 0 for v in x], seed, list(x))
        return with_replay(out, falsify_transform, seed, 4)
    return Custom("log_extrap", run, functions=[F + "log_extrap", FN + "log_extrap"])


# ---------------------------------------------------------------- the transform
KINDS = {"fftlog": "g_l", "fftlog_dj": "g_l_1", "fftlog_ddj": "g_l_2", "fftlog_jsqr": "h_l"}


def transform_spec(x, f, nu, lo, hi, width, pad, ell, kernel):
    """grid, output values; kernel(ell, z) -> term"""
    x, f = extrap_spec(x, lo, hi), extrap_spec(f, lo, hi)
    n0, lo0 = len(x) - lo - hi, lo
    dln = tm.log(x[lo + 1] / x[lo])
    if pad: x, f, lo = extrap_spec(x, pad, pad), [const(0)] * pad + f + [const(0)] * pad, lo + pad
    if len(x) % 2: x, f = x[:-1], f[:-1]
    N = len(x)
    cut = int(width * N // 2)
    c = dft_terms("rfft", [v * tm.pow_(u, -nu) for u, v in zip(x, f)], N // 2 + 1, "C")
    y = [(ell + 1) / u for u in x[::-1]]
    h = []
    for m in range(N // 2 + 1):
        eta = 2 * const(tm.PI) * m / (N * dln)
        w = const(1) if m <= N // 2 - cut else const(0) if cut == 1 else window_spec(const(m), const(N // 2), const(cut))
        h.append(tm.conj(c[m] * w * tm.pow_(x[0] * y[0], -(const(tm.I) * eta)) * kernel(ell, nu + const(tm.I) * eta)))
    F_ = dft_terms("irfft", h, N, "R")
    F_ = [v * tm.pow_(u, -nu) * tm.sqrt(const(tm.PI)) / 4 for u, v in zip(y, F_)]
    return x, y, F_


def reference_transform(kind, x, f, nu, lo, hi, width, pad, ell):
    """the discretised transform in floating point: log Gamma from SciPy, windows and extrapolations from their formulas"""
    from scipy.special import loggamma as lg
    ext = lambda v, a, b: np.concatenate([v[0] * (v[1] / v[0]) ** np.arange(-a, 0.), v, v[-1] * (v[-1] / v[-2]) ** np.arange(1., b + 1)])
    X, Fv = ext(x, lo, hi), ext(f, lo, hi)
    dln = np.log(x[1] / x[0])
    if pad: X, Fv = ext(X, pad, pad), np.concatenate([np.zeros(pad), Fv, np.zeros(pad)])
    drop = len(X) % 2
    if drop: X, Fv = X[:-1], Fv[:-1]
    N = len(X)
    cut = int(width * N // 2)
    m = np.arange(N // 2 + 1.)
    th = (N // 2 - m) / max(cut - 1, 1)
    W = np.where(m > N // 2 - cut, th - np.sin(2 * np.pi * th) / (2 * np.pi), 1.)
    eta = 2 * np.pi * m / (N * dln)
    z = nu + 1j * eta
    K = {"fftlog": lambda z: np.exp(z * np.log(2) + lg((ell + z) / 2) - lg((3 + ell - z) / 2)),
         "fftlog_dj": lambda z: -(z - 1) * np.exp((z - 1) * np.log(2) + lg((ell + z - 1) / 2) - lg((4 + ell - z) / 2)),
         "fftlog_ddj": lambda z: (z - 1) * (z - 2) * np.exp((z - 2) * np.log(2) + lg((ell + z - 2) / 2) - lg((5 + ell - z) / 2)),
         "fftlog_jsqr": lambda z: np.exp(lg(ell + z / 2) - lg(2 + ell - z / 2) + lg((2 - z) / 2) - lg((3 - z) / 2))}[kind](z)
    y = (ell + 1) / X[::-1]
    h = np.fft.rfft(Fv * X ** -nu) * W * (X[0] * y[0]) ** (-1j * eta) * K
    v = np.fft.irfft(np.conj(h)) * y ** -nu * np.sqrt(np.pi) / 4
    sl = slice(hi + pad - (drop if pad else 0), N - lo - pad)
    return y[sl], v[sl]


def real_reference(seed, k):
    """the code against the reference, for every kind of transform, over random grids, paddings, extrapolations (of irregular end samples too) and windows"""
    import jax.numpy as jnp
    import microjax.fastlens.fftlog as fn
    r = np.random.default_rng(seed)
    kinds = list(KINDS)
    for j in range(k):
        n = int(r.choice([12, 13, 17, 24, 31]))
        d = float(r.choice([.05, .1, .3]))                # a fine grid reaches large imaginary exponents (the Stirling branch)
        x = .03 * np.exp(d * np.arange(n) + (0 if j % 2 else .02 * d * r.uniform(-1, 1, n)))
        f = x ** 1.2 * np.exp(-x) * r.uniform(.5, 2, n)
        lo, hi, pad = [int(v) for v in (r.choice([0, 1, 4]), r.choice([0, 2, 5]), r.choice([0, 3, 6]))]
        width, nu, ell, kind = float(r.choice([.25, .5, .8])), float(r.choice([1.1, 1.3, 1.05])), float(r.choice([0., 1., 2.5, 4.])), kinds[j % 4]
        for m, arr in ((fj(), jnp.asarray), (fn, np.asarray)):
            for cls in ("fftlog", "hankel") if kind == "fftlog" else ("fftlog",):
                g = f if cls == "fftlog" else f * np.sqrt(x)
                wy, wv = reference_transform(kind, x, g, nu, lo, hi, width, pad, ell if cls == "fftlog" else ell - .5)
                if cls == "hankel": wv = wv * np.sqrt(2 * wy / np.pi)
                kw = dict(nu=nu, N_extrap_low=lo, N_extrap_high=hi, c_window_width=width, N_pad=pad)
                o = getattr(m, cls)(arr(x), arr(f), **kw)
                y, v = [np.asarray(a) for a in getattr(o, "hankel" if cls == "hankel" else kind)(ell)]
                inp = {"x": x.tolist(), "f": f.tolist(), "ell": ell, **kw}
                nm = m.__name__ + "." + cls + "." + kind
                if y.shape != wy.shape or not np.allclose(y, wy, rtol=1e-11, atol=0): return {"function": nm, "inputs": inp, "observed": "grid " + repr(y[:3]) + repr(y.shape), "expected": "grid " + repr(wy[:3]) + repr(wy.shape)}
                e = np.abs(v - wv) / np.max(np.abs(wv * wy ** nu)) * wy ** nu
                if not np.all(e <= 1e-10): return {"function": nm, "inputs": inp, "observed": v[int(np.argmax(np.where(np.isnan(e), np.inf, e)))], "expected": wv[int(np.argmax(np.where(np.isnan(e), np.inf, e)))]}
    return None


def falsify_transform(seed, k): return real_reference(seed, 10 * k) or real_transform(seed, k)


def real_transform(seed, k):
    """known pairs: Hankel transform of x^2 exp(-x^2/2) and integrals of j_l, their derivatives and squares of a Gaussian"""
    import jax.numpy as jnp
    import microjax.fastlens.fftlog as fn
    r = np.random.default_rng(seed)
    x = np.logspace(-4, 4, 512)
    t = np.logspace(-1, 1, int(r.choice([8, 10, 14])))        # a one-sample taper
    for m, arr in ((fj(), jnp.asarray), (fn, np.asarray)):
        v = np.asarray(m.fftlog(arr(t), arr(t * np.exp(-t))).fftlog(0)[1])
        if not np.all(np.isfinite(v)): return {"function": m.__name__ + ".fftlog", "inputs": {"N": len(t)}, "observed": "nan", "expected": "finite"}
    for j in range(k):
        s = float(r.uniform(.5, 2))
        for m, arr in ((fj(), jnp.asarray), (fn, np.asarray)):
            kw = dict(nu=1.1, N_pad=int(r.choice([0, 100, 101])), N_extrap_low=int(r.choice([0, 7])), N_extrap_high=0)
            y, v = m.hankel(arr(x), arr(x ** 2 * np.exp(-(s * x) ** 2 / 2)), **kw).hankel(0)
            y, v = np.asarray(y), np.asarray(v)
            i = (y > .02) & (y < 4 * s)
            w = np.exp(-(y / s) ** 2 / 2) / s ** 2
            if not np.all(np.abs(v - w)[i] <= 2e-4 * np.max(w)): return {"function": m.__name__ + ".hankel", "inputs": {"f": "x^2 exp(-(s x)^2/2)", "s": s, **kw}, "observed": float(np.max(np.abs(v - w)[i])), "expected": "error below 2e-4"}
            # int dx/x x^2 e^{-s^2x^2/2} j_0(xy)  and the derivative with respect to y
            f = fn.fftlog if m is fn else m.fftlog
            o = f(arr(x), arr(x ** 2 * np.exp(-(s * x) ** 2 / 2)), nu=1.1)
            from scipy.special import dawsn
            tr = lambda y: np.sqrt(2) / (s * y) * dawsn(y / (s * np.sqrt(2)))       # int x exp(-s^2 x^2/2) sin(xy)/(xy) dx
            y, v = [np.asarray(a) for a in o.fftlog(0)]
            i = (y > .05) & (y < 3 * s)
            if not np.all(np.abs(v - tr(y))[i] <= 1e-3): return {"function": m.__name__ + ".fftlog", "inputs": {"s": s, "ell": 0}, "observed": float(np.max(np.abs(v - tr(y))[i])), "expected": "Dawson"}
    return None


def with_kernel(name, go):
    """go(module, ...) under the contract of the kernel function (an opaque function of order and exponent), for JAX and for NumPy"""
    K = lambda l, z: tm.fn("kernel_" + name, l, z, sort="C")

    def stub_j(ctx, eqn, ins):
        l_, z_ = [jx.toT(v) for v in ins]
        o = np.empty(z_.shape, dtype=object)
        l_ = np.broadcast_to(l_, z_.shape)
        for i in np.ndindex(*z_.shape): o[i] = K(l_[i], z_[i])
        return [o]

    def jf(*a):
        import jax, jax.numpy as jnp
        from vc.stub import patched
        m = fj()

        def opaque(l, z): return (l + z) * 0
        opaque.__name__ = opaque.__qualname__ = "kernel_stub"
        with patched((m, name, lambda l, z: jax.jit(opaque)(jnp.asarray(l, float), z))): return go(m, *a)

    def nf(m, *a):
        setattr(m, name, lambda l, z: npsym.sa([npsym.V(K(npsym.lift(l), npsym.lift(v))) for v in z]))
        return go(m, *a)
    HOOKS["kernel_stub"] = stub_j
    return jf, nf


def transform(kind, n, lo, hi, pad, width):
    tag = "transform_%s_n%d_low%d_high%d_pad%d_window%g" % (kind, n, lo, hi, pad, width)

    def run(seed, thorough):
        x, f = symarr("x", n), symarr("f", n)
        nu, ell = R("nu"), R("l")
        K = lambda l, z: tm.fn("kernel_" + KINDS[kind], l, z, sort="C")
        xs, y, Fy = transform_spec(list(x), list(f), nu, lo, hi, width, pad, ell, K)
        N = len(xs)
        a = lo + pad
        # the output belongs to the points of the input grid that are kept (an odd total drops the last one)
        n_kept = n if N == n + lo + hi + 2 * pad or hi + pad > 0 and pad else None
        hi2 = hi + pad - (1 if N != n + lo + hi + 2 * pad and pad else 0)
        sl = slice(hi2, N - a)
        want = y[sl] + Fy[sl]
        hyp = [v > 0 for v in x] + [v > 0 for v in f]

        def go(m, x, f, nu, ell):
            o = m.fftlog(x, f, nu=nu, N_extrap_low=lo, N_extrap_high=hi, c_window_width=width, N_pad=pad)
            return getattr(o, kind)(ell)
        jf, nf = with_kernel(KINDS[kind], go)
        out = both(tag, kind, jf, nf, [x, f, A0(nu), A0(ell)], want, hyp, seed, list(x) + list(f))
        return with_replay(out, falsify_transform, seed, 3)
    return lambda: Custom(tag, run, functions=[F + "fftlog." + kind, FN + "fftlog." + kind, F + "fftlog.__init__", F + "fftlog.get_c_m"], trusted=["rfft and irfft are external: the same opaque function of their inputs in the code and in the specification"])


def hankel():
    """hankel(x, f).hankel(n): the transform of sqrt(x) f of order n - 1/2, times sqrt(2 y / pi)"""
    def run(seed, thorough):
        n, pad = 4, 1
        x, f = symarr("x", n), symarr("f", n)
        nu, ell = R("nu"), R("n")
        K = lambda l, z: tm.fn("kernel_g_l", l, z, sort="C")
        xs, y, Fy = transform_spec(list(x), [tm.sqrt(u) * v for u, v in zip(x, f)], nu, 0, 0, .75, pad, ell - half, K)
        sl = slice(pad, len(xs) - pad)
        want = y[sl] + [v * tm.sqrt(2 * u / const(tm.PI)) for u, v in zip(y[sl], Fy[sl])]
        jf, nf = with_kernel("g_l", lambda m, x, f, nu, n: m.hankel(x, f, nu, c_window_width=.75, N_pad=pad).hankel(n))
        out = both("hankel", "hankel", jf, nf, [x, f, A0(nu), A0(ell)], want, [v > 0 for v in x] + [v > 0 for v in f], seed, list(x) + list(f))
        return with_replay(out, falsify_transform, seed, 3)
    return Custom("hankel", run, functions=[F + "hankel", FN + "hankel"])


CONFIGS = (("fftlog", 8, 0, 0, 0, .25), ("fftlog", 4, 0, 0, 0, .25), ("fftlog", 8, 0, 0, 0, .5), ("fftlog", 5, 1, 2, 0, .75), ("fftlog", 5, 0, 0, 2, .75), ("fftlog", 4, 2, 1, 1, .75), ("fftlog", 5, 0, 0, 0, .25), ("fftlog_dj", 6, 0, 0, 1, .75), ("fftlog_ddj", 6, 0, 0, 1, .75), ("fftlog_jsqr", 6, 0, 0, 1, .75))


def contracts():
    d = {"kernel_" + n: kernel_contract(n) for n in kernels()}
    d["execution_kernels"] = bounded_oracle("execution_kernels", real_kernels, 60, [F + n for n in ("g_l", "g_l_1", "g_l_2", "h_l")], "random orders and complex exponents")
    d["window"] = window
    d["log_extrap"] = extrap
    d["hankel"] = hankel
    for c in CONFIGS: d["transform_%s_n%d_low%d_high%d_pad%d_window%g" % c] = transform(*c)
    d["execution_transform"] = bounded_oracle("execution_transform", falsify_transform, 6, [F + "hankel", FN + "hankel", F + "fftlog.fftlog"], "60 random grids with paddings, extrapolations and windows against a NumPy reference of the discretised transform; Gaussian pairs with random widths")
    return d
