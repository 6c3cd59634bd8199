from vc.spec import *
from vc.contract import Contract, Custom, Goal
from vc import jx
from vc.perm import conj_, disj
import vc.term as tm
import numpy as np
from vc.direct import bounded_oracle
from fractions import Fraction

EXPLAIN = ("The solver's while loop is verified by invariant: initial state, one arbitrary iteration from an arbitrary state (Ehrlich-Aberth step, frozen converged roots, counter), the guard, and the exit; "
           "the derivative rule is compared with implicit differentiation at arbitrary returned roots; batching is proved element by element for representative batch shapes.")
TOL, MAXIT = const(Fraction("1e-12")), 100


def M():
    import microjax.poly_solver as m
    return m


def loop_handler(ctx, eqn, cc, bc, carry):
    p = eqn.params
    kinds = {}
    for i, v in enumerate(p["body_jaxpr"].out_avals):
        k = v.dtype.kind
        k = {"u": "i"}.get(k, k)
        if k in kinds: return None
        kinds[k] = i
    if set(kinds) != {"i", "c", "b"}: return None
    fresh = []
    for i, v in enumerate(p["body_jaxpr"].out_avals):
        nm = {"i": "it", "c": "root", "b": "done", "u": "it"}[v.dtype.kind]
        fresh.append(ctx.freshvars(nm, v.shape, {"i": "I", "u": "I", "c": "C", "b": "B"}[v.dtype.kind]))
    g, b = jx.while_step(ctx, eqn, cc, bc, fresh)
    ex = [ctx.freshvars("x" + {"i": "it", "c": "root", "b": "done", "u": "it"}[v.dtype.kind], v.shape, {"i": "I", "u": "I", "c": "C", "b": "B"}[v.dtype.kind]) for v in p["body_jaxpr"].out_avals]
    pick = lambda l: {k: jx.toT(l[kinds[k]]) for k in kinds}
    ctx.__dict__.setdefault("loops", []).append(dict(init=pick(carry), state=pick(fresh), guard=g, next=pick(b), exit=pick(ex)))
    return ex


def polyval(c, z):
    r = const(0)
    for x in c: r = r * z + x
    return r


def deriv(c):
    n = len(c) - 1
    return [(n - k) * c[k] for k in range(n)]


def radius(c):
    mx = tm.abs_(c[1])
    for x in c[2:]: mx = tm.max_(mx, tm.abs_(x))
    return mx


def loop_goals(L, c, B, shape_c, n, init=None, maxit=MAXIT):
    """c: coefficients per batch index (dict) in the flattened batch B"""
    g = []
    st, nx, ini = L["state"], L["next"], L["init"]
    bs = [()] if B is None else [(b,) for b in range(B)]
    rt = lambda d, b, k: d["c"][b + (k,)]
    dn = lambda d, b, k: d["b"][b + (k,)]
    iti = lambda d, b: d["i"][b] if d["i"].ndim == len(b) else d["i"][()]
    act = {b: tm.and_(tm.lt(iti(st, b), tm.const(maxit, "I")), disj([tm.not_(dn(st, b, k)) for k in range(n)])) for b in bs}
    g.append(Goal("guard", L["guard"], disj(list(act.values()))))
    for b in bs:
        t = "" if B is None else str(list(b))
        co = c[b]
        # --- initial state
        g.append(Goal("init_counter" + t, tm.eq(iti(ini, b), tm.const(0, "I"))))
        for k in range(n):
            g.append(Goal("init_not_done%d%s" % (k, t), tm.not_(dn(ini, b, k))))
            if init is not None: g.append(Goal("init_root%d%s" % (k, t), rt(ini, b, k), init[b][k]))
        # --- one iteration from an arbitrary state
        zs = [rt(st, b, k) for k in range(n)]
        f = [polyval(co, z) for z in zs]
        fp = [polyval(deriv(co), z) for z in zs]
        hy = [act[b]]
        g.append(Goal("counter_step" + t, tm.eq(iti(nx, b), tm.add(iti(st, b), tm.const(1, "I"))), None, hy))
        for k in range(n):
            s = const(0)
            for j in range(n):
                if j != k: s = s + tm.ite(tm.eq(zs[k], zs[j]), const(0), 1 / (zs[k] - zs[j]))
            den = fp[k] - f[k] * s
            upd = f[k] / den
            d = dn(st, b, k)
            # a converged root is frozen, whatever else happens
            g.append(Goal("frozen_root%d%s" % (k, t), rt(nx, b, k), zs[k], hy + [d]))
            g.append(Goal("stays_done%d%s" % (k, t), dn(nx, b, k), None, hy + [d]))
            dis = [tm.not_(tm.eq(zs[k], zs[j])) for j in range(n) if j != k]
            ok = [tm.lt(const(Fraction("1e-12")), tm.abs_(den))] + (dis if n > 4 else [])
            g.append(Goal("ea_step%d%s" % (k, t), rt(nx, b, k), zs[k] - upd, hy + [tm.not_(d)] + ok))
            g.append(Goal("done_test%d%s" % (k, t), dn(nx, b, k), tm.le(tm.abs_(upd), TOL), hy + [tm.not_(d)] + ok))
            if B is not None:
                ina = [tm.not_(act[b]), disj([act[x] for x in bs if x != b])]
                g.append(Goal("idle_root%d%s" % (k, t), rt(nx, b, k), zs[k], ina))
                g.append(Goal("idle_done%d%s" % (k, t), tm.eq(dn(nx, b, k), d), None, ina))
        if B is not None: g.append(Goal("idle_counter" + t, tm.eq(iti(nx, b), iti(st, b)), None, [tm.not_(act[b]), disj([act[x] for x in bs if x != b])]))
    return g


def exit_goals(L, c, out, B, n):
    g = []
    bs = [()] if B is None else [(b,) for b in range(B)]
    tt = 10 * TOL
    for b in bs:
        t = "" if B is None else str(list(b))
        allreal = conj_([tm.lt(tm.abs_(tm.imag(x)), tt) for x in c[b]])
        for k in range(n):
            r = L["exit"]["c"][b + (k,)]
            tiny = tm.lt(tm.abs_(tm.imag(r)), tt)
            g.append(Goal("result%d%s" % (k, t), out[b + (k,)], tm.ite(tm.and_(allreal, tiny), tm.real(r), r)))
    return g


def circle_goals(L, c, B, n):
    """start points: R * (fixed directions on the unit circle, pairwise distinct)"""
    from vc.prove import Domain, mpenv
    from vc.numeric import evaluate
    import mpmath as mp
    g = []
    bs = [()] if B is None else [(b,) for b in range(B)]
    for b in bs:
        t = "" if B is None else str(list(b))
        ini = [L["init"]["c"][b + (k,)] for k in range(n)]
        eps = const(Fraction(2) ** -52)
        den = tm.max_(tm.abs_(c[b][0]), eps)
        mx = tm.abs_(c[b][1]) / den
        for x in c[b][2:]: mx = tm.max_(mx, tm.abs_(x) / den)
        Rr = 1 + mx
        # directions: the start points for z^n (bound 1 + 0): exact constants of the code
        m = {x: const(1 if i == 0 else 0) for i, x in enumerate(c[b])}
        dt = [tm.subst(t0, m, {}) for t0 in ini]
        dirs = [complex(x) for x in evaluate(dt, {})]
        ok = all(abs(abs(d) - 1) < 1e-12 for d in dirs) and all(abs(dirs[i] - dirs[j]) > 1e-3 for i in range(n) for j in range(i))
        g.append(Goal("start_directions_distinct_unit" + t, tm.TRUE if ok else tm.FALSE))
        for k in range(n):
            g.append(Goal("start_on_cauchy_circle%d%s" % (k, t), ini[k], Rr * dt[k]))
    return g


def HOT(n):
    # iteration guards and tolerances are drawn around their thresholds
    def derived(byname, env, rng):
        for nm, t in byname.items():
            if nm.startswith("it!"): env[t] = rng.choice([0, 1, 50, 99, 99, 100, 101])
            if nm.startswith("root") and rng.random() < .15: env[t] = complex(env[t]) * 1e-3
            if nm.startswith("xroot") and rng.random() < .6: env[t] = complex(complex(env[t]).real, rng.choice([0, 1, -1]) * 10 ** rng.uniform(-13, -10))
        if rng.random() < .5:
            for nm, t in byname.items():
                if nm.startswith("c["): env[t] = complex(complex(env[t]).real, rng.choice([0, 1]) * 10 ** rng.uniform(-13, -10))
    return derived


TRUST = ["Cauchy's bound (every root has modulus at most 1 + max|c_i/c_0|) is a textbook lemma"]


def single(n, custom=False, sort="C"):
    def mk():
        c = jx.symarr("c", (n + 1,), sort)
        z0 = jx.symarr("z0", (n,), "C")
        tolv = 1e-12
        if custom:
            fn, args = (lambda c, z: M().poly_roots(c, custom_init=True, roots_init=z)), [c, z0]
        else:
            fn, args = (lambda c: M().poly_roots(c)), [c]

        def ens(r, ctx):
            L, = ctx.loops
            B = 1 if L["state"]["c"].ndim == 2 else None
            cc = {(0,) if B else (): list(c)}
            g = [Goal("shape", tm.TRUE if r[0].shape == (n,) else tm.FALSE)]
            init = {k: list(z0) for k in cc} if custom else None
            g += loop_goals(L, cc, B, None, n, init)
            if not custom: g += circle_goals(L, cc, B, n)
            out = r[0].reshape((1, n)) if B else r[0]
            return g + exit_goals(L, cc, out, B, n)
        return Contract("solver_%d%s%s" % (n, "_init" if custom else "", "_real" if sort == "R" else ""), fn, args, ens, while_handler=loop_handler, pre_ctx=True, derived=HOT(n), trusted=TRUST,
                        functions=["poly_solver.poly_roots[degree %d]" % n, "poly_solver.poly_roots_EA", "poly_solver._ea_step", "poly_solver._cauchy_radius", "poly_solver._polyder_coeffs"],
                        falsify=lambda seed, k: num_solver(n, seed, k), samples=30)
    return mk


def single_ea(n):
    """the single-polynomial entry point, every tolerance and iteration limit"""
    def mk():
        c = jx.symarr("c", (n + 1,), "C")
        fn = lambda c: M().poly_roots_EA(c, None, 1e-9, 7)

        def ens(r, ctx):
            global TOL
            L, = ctx.loops
            old = TOL
            TOL = const(Fraction("1e-9"))
            try: g = loop_goals(L, {(): list(c)}, None, None, n, None, 7) + exit_goals(L, {(): list(c)}, r[0], None, n)
            finally: TOL = old
            return g
        return Contract("solver_ea_tol_maxit_%d" % n, fn, [c], ens, while_handler=loop_handler, pre_ctx=True, derived=HOT(n), functions=["poly_solver.poly_roots_EA[tol, max_iter]"],
                        falsify=lambda seed, k: num_solver(n, seed, k), samples=30)
    return mk


def batch(n, shape, custom=False):
    def mk():
        c = jx.symarr("c", shape + (n + 1,), "C")
        B = int(np.prod(shape))
        z0 = jx.symarr("z0", shape + (n,), "C")
        if custom: fn, args = (lambda c, z: M().poly_roots(c, custom_init=True, roots_init=z)), [c, z0]
        else: fn, args = (lambda c: M().poly_roots(c)), [c]

        def ens(r, ctx):
            L, = ctx.loops
            cf, zf = c.reshape(B, n + 1), z0.reshape(B, n)
            cc = {(b,): list(cf[b]) for b in range(B)}
            g = [Goal("shape", tm.TRUE if r[0].shape == shape + (n,) else tm.FALSE)]
            g += loop_goals(L, cc, B, None, n, {(b,): list(zf[b]) for b in range(B)} if custom else None)
            if not custom: g += circle_goals(L, cc, B, n)
            return g + exit_goals(L, cc, r[0].reshape(B, n), B, n)
        return Contract("batch_%d_%s%s" % (n, "x".join(map(str, shape)), "_init" if custom else ""), fn, args, ens, while_handler=loop_handler, pre_ctx=True, derived=HOT(n),
                        functions=["poly_solver.poly_roots[batched]", "poly_solver.poly_roots_EA_multi"], falsify=lambda seed, k: num_solver(n, seed, k), samples=30)
    return mk


def gradient(n, mode):
    """jvp of the solver: implicit-function derivative at the returned roots"""
    def mk():
        import jax
        c, dc = jx.symarr("c", (n + 1,), "C"), jx.symarr("dc", (n + 1,), "C")
        z0, dz0 = jx.symarr("z0", (n,), "C"), jx.symarr("dz0", (n,), "C")
        if mode == "init":
            fn = lambda c, dc, z0, dz0: jax.jvp(lambda c, z: M().poly_roots(c, custom_init=True, roots_init=z), (c, z0), (dc, dz0))
            args = [c, dc, z0, dz0]
        else:
            fn = lambda c, dc: jax.jvp(lambda c: M().poly_roots(c), (c,), (dc,))
            args = [c, dc]

        def ens(r, ctx):
            z, dz = r
            L = ctx.loops[-1]
            B = 1 if L["state"]["c"].ndim == 2 else None
            cc = {(0,) if B else (): list(c)}
            g = exit_goals(L, cc, z.reshape((1, n)) if B else z, B, n) + [Goal("one_loop", tm.TRUE if len(ctx.loops) == 1 else tm.FALSE)]
            for k in range(n):
                zz = z[k]
                num = polyval(list(dc), zz)
                g.append(Goal("implicit_derivative%d" % k, dz[k], -(num / polyval(deriv(list(c)), zz))))
            return g
        return Contract("gradient_%s_%d" % (mode, n), fn, args, ens, while_handler=loop_handler, pre_ctx=True, derived=HOT(n), functions=["poly_solver._poly_roots_EA_jvp"], trusted=["implicit function theorem at simple roots"],
                        falsify=lambda seed, k: num_solver(n, seed, k))
    return mk


def num_solver(n, seed, k): return num_grid(n, seed) or num_roots(n, seed, k) or num_steps(seed, 400)


def num_grid(n, seed):
    """polynomials arranged in a grid get the roots of their own single call"""
    r = np.random.default_rng(seed + 3)
    for shape in ((2, 3), (3, 2), (1, 2, 2)):
        c = r.normal(size=shape + (n + 1,)) + 1j * r.normal(size=shape + (n + 1,))
        z0 = r.normal(size=shape + (n,)) + 1j * r.normal(size=shape + (n,))
        for init in (False, True):
            kw = lambda z: dict(custom_init=True, roots_init=z) if init else {}
            got = np.asarray(M().poly_roots(c, **kw(z0)))
            if got.shape != shape + (n,): return {"function": "poly_roots", "coeffs": repr(c.tolist()), "observed": "shape %s" % (got.shape,)}
            for i in np.ndindex(*shape):
                one = np.asarray(M().poly_roots(c[i], **kw(z0[i])))
                if max(np.abs(one - x).min() for x in got[i]) > 1e-5: return {"function": "poly_roots", "coeffs": repr(c.tolist()), "custom_init": init, "start": repr(z0.tolist()) if init else None, "index": list(i), "observed": repr(got[i].tolist()), "expected": repr(one.tolist())}
    return None


def num_roots(n, seed, k):
    import random, jax
    r = random.Random(seed)
    for _ in range(min(k, 120)):
        zs = np.array([[complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(n)] for _ in range(3)])
        if min(abs(zs[b, i] - zs[b, j]) for b in range(3) for i in range(n) for j in range(i)) < .05: continue
        lead = complex(r.gauss(0, 1), r.gauss(0, 1)) * 10 ** r.uniform(-3, 3)
        c = np.array([np.poly(z) * lead for z in zs])
        got = np.asarray(M().poly_roots(c))
        info = {"function": "poly_roots", "coeffs": repr(c.tolist())}
        if got.shape != zs.shape: return dict(info, observed="shape %s" % (got.shape,))
        for b in range(3):
            cond = max(1, np.abs(np.poly(zs[b])).max())
            d = [np.abs(got[b] - z).min() for z in zs[b]]
            if not max(d) < 1e-5 * cond: return dict(info, observed=repr(got[b].tolist()), expected=repr(zs[b].tolist()))
        alone = np.asarray(M().poly_roots(c[1]))
        if not np.allclose(alone, got[1], atol=1e-7 * cond): return dict(info, observed="batched result differs from single", single=repr(alone.tolist()), batched=repr(got[1].tolist()))
        dc = np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(n + 1)])
        z, dz = jax.jvp(lambda x: M().poly_roots(x), (c[0],), (dc,))
        z, dz = np.asarray(z), np.asarray(dz)
        want = -np.polyval(dc, z) / np.polyval(np.polyder(c[0]), z)
        if not np.allclose(dz, want, rtol=1e-6): return dict(info, observed="derivative %r" % dz.tolist(), expected=repr(want.tolist()), direction=repr(dc.tolist()))
        pert = z + 1e-3 * np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(n)])
        zi = np.asarray(M().poly_roots(c[0], custom_init=True, roots_init=pert))
        if not np.allclose(zi, z, atol=1e-6 * cond): return dict(info, observed="custom starting points do not converge in place", start=repr(pert.tolist()), got=repr(zi.tolist()))
    return None


def num_steps(seed, k):
    """a few iterations from chosen start points (some of them nearly equal), for random tolerances, against the documented iteration"""
    import jax
    r = np.random.default_rng(seed)
    f_ = jax.jit(lambda c, z, tol, it: M().poly_roots_EA(c, z, tol, it))
    for n in (3, 4, 5, 6):      # the Aberth denominator of the first root vanishes exactly: a Newton step
        z = np.array([0, 1, -2, 4j, -4, 8.])[:n].astype(complex)
        for _ in range(3):
            c = r.integers(1, 5, n + 1).astype(complex)
            c[-2] = c[-1] * np.sum(-1 / z[1:])
            w = z[0] - c[-1] / c[-2]
            g = np.asarray(f_(c, z, 1e-12, 1))
            if not abs(g[0] - w) < 1e-9: return {"function": "poly_roots_EA", "coeffs": repr(c.tolist()), "start": repr(z.tolist()), "tol": 1e-12, "max_iter": 1, "observed": repr(g[0]), "expected": repr(w)}
    for j in range(k):
        n = 3 + j % 4
        c = r.normal(size=n + 1) + 1j * r.normal(size=n + 1) * (j % 3 > 0)
        z = r.normal(size=n) + 1j * r.normal(size=n)
        if j % 2: z[1] = z[0] + 10 ** r.uniform(-9, -3) * np.exp(1j * r.uniform(0, 6.28))
        if j % 5 == 0: z[2] = z[0]
        if j % 4 == 3:                       # some start points already converged, some not
            c = np.poly(z)
            z[0] += r.choice([.3, 1e-4])
        tol, it = float(10 ** r.uniform(-12, -1)), int(r.integers(1, 7))
        w, done, sure = z.astype(complex), np.zeros(n, bool), True
        for _ in range(it):
            if done.all(): break
            f, fp = np.polyval(c, w), np.polyval(np.polyder(c), w)
            with np.errstate(all="ignore"):
                d = w[:, None] - w[None]
                den = fp - f * np.sum(np.where(d == 0, 0, 1 / np.where(d == 0, 1, d)), axis=1)
                u = f / den
            if not np.all(np.abs(den) > 1e-6) or not np.all(np.abs(u) < 1e6): sure = False; break
            # rounding of the step, so that a decision in doubt is not judged
            if np.any(np.abs(np.abs(u) - tol) < 1e-3 * tol + 1e-13): sure = False; break
            e = np.abs(u) <= tol
            w, done = np.where(done, w, w - u), done | e
        if not sure or np.any(np.abs(np.abs(w.imag) - 10 * tol) < 1e-3 * tol + 1e-13): continue
        if np.all(np.abs(c.imag) < 10 * tol): w = w.real + 1j * np.where(np.abs(w.imag) < 10 * tol, 0, w.imag)
        elif np.any(np.abs(np.abs(c.imag) - 10 * tol) < 1e-3 * tol): continue
        g = np.asarray(f_(c + 0j, z + 0j, tol, it))
        if not np.allclose(g, w, rtol=1e-7, atol=1e-9): return {"function": "poly_roots_EA", "coeffs": repr(c.tolist()), "start": repr(z.tolist()), "tol": tol, "max_iter": it, "observed": repr(g.tolist()), "expected": repr(w.tolist())}
    return None


def contracts():
    d = {}
    for n in (10, 6, 5, 4): d["solver_%d" % n] = single(n)
    for n in (10, 5): d["solver_%d_init" % n] = single(n, True)
    d["solver_4_real"] = single(4, sort="R")
    d["batch_5_2"] = batch(5, (2,))
    d["batch_3_2x2"] = batch(3, (2, 2))
    d["batch_3_3_init"] = batch(3, (3,), True)
    d["solver_ea_tol_maxit_4"] = single_ea(4)
    for n in (10, 6, 5, 4): d["gradient_plain_%d" % n] = gradient(n, "plain")
    d["gradient_init_5"] = gradient(5, "init")
    d["execution_steps"] = bounded_oracle("execution_steps", num_steps, 400, ["poly_solver.poly_roots_EA"], "400 runs of 1 to 6 iterations, degrees 3 to 6, nearly equal and converged start points, random tolerances")
    return d
