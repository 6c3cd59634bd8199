from vc.spec import *
from vc.contract import Contract, Custom, Goal
from vc import jx
from vc.perm import *
import vc.term as tm
import numpy as np
from unittest import mock
from props.P02 import critical_poly, same_poly
from props.P03 import phys, roots_hook, nL, nmap, njac, ps
from props import P05

EXPLAIN = ("Critical-curve sampler with the polynomial solver abstracted to arbitrary roots and the matcher to an arbitrary permutation (their contracts: P06, P05); "
           "sample phases symbolic.")
NC = {2: 4, 3: 6}


def match_hook(ctx, eqn, ins):
    n = ins[1].shape[-1]
    p = ctx.freshvars("match", (n,), "I")
    ctx.__dict__.setdefault("matches", []).append((ins, p))
    ctx.assumed += perm_hyps(p)
    return [p]


def match_points(a, b):
    raise NotImplementedError


def curves(n, npts):
    def mk():
        import jax, jax.numpy as jnp
        up, lp, xcm = phys(n)
        L = lenses(n, lp)
        phi = jx.symarr("phi", (npts,), "R")
        m = ps()
        real_match = m.match_points
        mp_ = jax.jit(lambda a, b: real_match(a, b))
        mp_.__wrapped__.__name__ = "match_points"

        def fn(ph, *v):
            cnt = []

            def lin(*a, **k):
                cnt.append((a, k))
                return ph

            def match_points(a, b): return real_match(a, b)
            with mock.patch.object(m, "match_points", jax.jit(match_points)), mock.patch.object(jnp, "linspace", lin):
                out = m.critical_and_caustic_curves(npts=npts, nlenses=n, **dict(zip(up, v)))
            (a, k), = cnt
            assert tuple(float(x) for x in a[:2]) == (-np.pi, np.pi) and int((tuple(a[2:]) + (k.get("num"),))[0]) == npts, (a, k)
            return out

        def ens(r, ctx):
            N = NC[n]
            zc, za = r
            g = [Goal("shape", tm.TRUE if zc.shape == (N, npts) and za.shape == (N, npts) else tm.FALSE),
                 Goal("one_solve", tm.TRUE if len(ctx.requests) == 1 else tm.FALSE)]
            co, _, roots = ctx.requests[0]
            Lc = L
            for t in range(npts):
                g += [Goal(q.name + "[%d]" % t, q.lhs, q.rhs) for q in same_poly(co[t], critical_poly(phi[t], Lc), "requested_coeff")]
            ms = [p for _, p in ctx.__dict__.get("matches", [])]
            g.append(Goal("one_match_per_sample", tm.TRUE if len(ms) in (npts, npts - 1) else tm.FALSE))
            if len(ms) == npts - 1: ms = [np.array([IC(k) for k in range(N)], dtype=object)] + ms
            for t in range(npts):
                for k in range(N):
                    g.append(Goal("critical[%d,%d]" % (k, t), zc[k, t], select(list(roots[t]), ms[t][k]) + xcm))
                    g.append(Goal("caustic[%d,%d]" % (k, t), za[k, t], lens_map(zc[k, t] - xcm, L) + xcm))
            return g
        return Contract("curves_%d" % n, fn, [phi] + [A0(v) for v in up.values()], ens, hooks={"poly_roots": roots_hook, "match_points": match_hook}, pre_ctx=True,
                        gens=PARAM_GENS, functions=["point_source.critical_and_caustic_curves[nlenses=%d]" % n],
                        trusted=["the root solver and the matcher are replaced by their contracts (P06, P05)", "jnp.linspace returns the evenly spaced phases it documents"],
                        falsify=lambda seed, k: num_curves(n, seed, k), max_paths=4000)
    return mk


def track(N):
    """the matcher is started on, and carried as, the previous sample's points: argument check"""
    def mk():
        c = curves({4: 2, 6: 3}[N], 3)()
        n = {4: 2, 6: 3}[N]
        up, lp, xcm = phys(n)

        def ens(r, ctx):
            g = []
            zc, _ = r
            ms = ctx.__dict__.get("matches", [])
            roots = ctx.requests[0][2]
            off = 3 - len(ms)
            for i, (ins, p) in enumerate(ms):
                t = i + off
                if t == 0: continue
                prev, cur = [jx.toT(x) for x in ins]
                for k in range(N):
                    g.append(Goal("match_from_previous[%d,%d]" % (k, t), prev[k], zc[k, t - 1] - xcm))
                    g.append(Goal("match_to_current[%d,%d]" % (k, t), cur[k], roots[t][k]))
            return g
        c.name = "tracking_%d" % n
        c.ensures = ens
        return c
    return mk


def num_curves(n, seed, k):
    import random
    r = random.Random(seed)
    up, _, _ = phys(n)
    for _ in range(min(k, 25)):
        p = {x: PARAM_GENS[x](r) for x in up}
        if p["s"] > 5 or p["s"] < .1 or p["q"] < 1e-3 or p.get("q3", 1) < 1e-3: continue
        a = p["s"] / 2
        t = 1 + p["q"] + p.get("q3", 0)
        lp = {"a": a, "e1": p["q"] / t, "e2": 1 / t}
        lp.update({x: p[x] for x in ("r3", "psi") if x in p})
        L = nL(n, lp)
        xcm = a * (1 - p["q"]) / (1 + p["q"])
        zc, za = map(np.asarray, ps().critical_and_caustic_curves(npts=41, nlenses=n, **p))
        z = zc - xcm
        g = sum(m / np.conj(z - x) ** 2 for m, x in L)
        sens = sum(2 * abs(m) / abs(z - x) ** 3 for m, x in L)
        bad = np.abs(np.abs(g) - 1) > 1e-4 * (1 + sens)
        e = np.abs(nmap(z, L) + xcm - za)
        info = {"function": "critical_and_caustic_curves", "nlenses": n, "params": p, "npts": 41}
        if zc.shape != (NC[n], 41): return dict(info, observed="shape %s" % (zc.shape,))
        if bad.mean() > .02: return dict(info, observed="points with |det| != 0: %d of %d" % (bad.sum(), bad.size))
        if (e > 1e-8 * (1 + np.abs(za))).any(): return dict(info, observed="caustic is not the lens image of the critical curve, off by %.3g" % e.max())
        ph = np.angle(g)
        want = np.linspace(-np.pi, np.pi, 41)
        off = np.abs(np.exp(1j * ph) - np.exp(-1j * want)[None]).min(0)
        off2 = np.abs(np.exp(1j * ph) - np.exp(1j * want)[None]).min(0)
        d = [min(abs(z[i, j] - z[l, j]) for i in range(NC[n]) for l in range(i)) for j in range(41)]
        if min(d) < 1e-9: return dict(info, observed="a critical point is duplicated at sample %d" % int(np.argmin(d)))
        if min(off.max(), off2.max()) > 1e-2 : return dict(info, observed="phases do not match the samples")
    return None


def single():
    def run(seed, thorough):
        out = []
        for npts in (1, 2, 7, 200):
            zc, za = map(np.asarray, ps().critical_and_caustic_curves(npts=npts, nlenses=1))
            ok = zc.shape == za.shape == (npts,) and np.allclose(np.abs(zc), 1, atol=1e-14) and np.all(za == 0) and (npts < 3 or len(set(np.round(zc, 9).tolist())) == npts - 1)
            out.append({"name": "single_lens/npts_%d" % npts, "status": "bounded-ok" if ok else "refuted", "backend": "execution", "reason": "", "replay": {"zc": repr(zc[:5].tolist())}})
        return out
    return Custom("single_lens", run, bounded="single-lens ring executed at npts 1, 2, 7, 200 (it has no other input)")


def contracts():
    d = {"curves_3": curves(3, 3), "curves_2": curves(2, 3), "tracking_2": track(4), "tracking_3": track(6), "single_lens": single}
    return d
