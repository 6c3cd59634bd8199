from vc.spec import *
from vc.contract import Custom, Contract, Goal
from vc import jx, smt
from vc.stub import Stub, patched, raw, trace_then_run
from vc.direct import prove_case, merge, rec, bounded_oracle, closed_hooks
import vc.term as tm
import numpy as np
import z3
from vc import anylen as al
import itertools
from fractions import Fraction as Fr
from props.P09 import Acc

EXPLAIN = ("Region construction is proved stage by stage (clusters, radial merge, occupancy of product cells, wrap-around merge, final refinement, glue) for arbitrary sample values; "
           "the stage contracts compose to: every positive-radius sample off the angular bin edges lies in a returned cell, as long as no stage overflows its capacity.")


def ma():
    import microjax.inverse_ray.merge_area as m
    return m


def disj(fs):
    r = tm.FALSE
    for f in fs: r = tm.or_(r, f)
    return r


def conj_(fs):
    r = tm.TRUE
    for f in fs: r = tm.and_(r, f)
    return r


def imp(a, b): return tm.or_(tm.not_(a), b)
def col(a, j): return [a[i, j] for i in range(a.shape[0])]
Z = const(0)
TWOPI = const(2 * np.pi)


# ---------------------------------------------------------------- cluster_1d
def np_cluster(x, B, mc, mode_r):
    """independent re-statement on concrete data: maximal runs of occupied bins"""
    if mode_r: lo, hi = x[x != 0].min(), x.max()
    else: lo, hi = 0.0, 2 * np.pi
    d = (hi - lo) / B
    k = np.clip(np.floor((x - lo) / d + 1e-12).astype(int), 0, B - 1)
    occ = set(k.tolist())
    runs = []
    for b in range(B):
        if b in occ:
            if b - 1 in occ: runs[-1][1] = lo + (b + 1) * d
            else: runs.append([lo + b * d, lo + (b + 1) * d])
    return runs


def cluster_oracle(mode_r, B, mc):
    def o(x):
        import jax.numpy as jnp
        x = np.abs(np.asarray(x, float))
        if not mode_r: x = np.mod(x, 2 * np.pi)
        if not (x > 0).any() or len(set(x[x > 0])) < 2: return None
        s, e = map(np.asarray, ma().cluster_1d(jnp.asarray(x), bins=B, max_cluster=mc, mode_r=mode_r))
        runs = np_cluster(x, B, mc, mode_r)
        if len(runs) > mc: return None
        lo = np.diff(np.r_[s[:1], s]).min() < 0
        for v in x[x > 0]:
            if not ((s <= v + 1e-9) & (v <= e + 1e-9)).any(): return {"observed": [s.tolist(), e.tolist()], "expected": "sample %r inside an interval" % v}
        return {"observed": [s.tolist(), e.tolist()], "expected": "ascending intervals"} if lo or (s > e).any() else None
    return o


def closed_side(eqn, xa, ea):
    """whether a sample on an edge belongs to the bin below it, observed on the traced program itself; None: not a bin search"""
    import jax
    cj = eqn.params["jaxpr"]
    xv, ev = cj.in_avals[xa], cj.in_avals[ea]
    n = ev.shape[0] if ev.ndim == 1 else 0
    if n < 2 or cj.out_avals[0].shape != xv.shape: return None
    e = np.arange(n, dtype=ev.dtype)

    def ev_(v):
        args = [None, None]
        args[xa], args[ea] = np.full(xv.shape, v, xv.dtype), e
        return set(np.ravel(np.asarray(jax.core.eval_jaxpr(cj.jaxpr, cj.consts, *args)[0])).tolist())
    for left in (False, True):
        if all(ev_(v) == {int(np.searchsorted(e, v, "left" if left else "right"))} for v in [-1.0] + [x for k in range(n) for x in (k, k + .5)]): return left
    return None


def digitize_hook(store, xa=0, ea=1):
    def h(ctx, eqn, ins):
        left = closed_side(eqn, xa, ea)
        if left is None: return None
        x, e = jx.toT(ins[xa]), jx.toT(ins[ea])
        k = ctx.freshvars("bin", x.shape, "I")
        below, above = (tm.le, tm.lt) if left else (tm.lt, tm.le)
        for i in np.ndindex(*x.shape):
            n = len(e)
            ctx.assumed += [tm.le(const(0, "I"), k[i]), tm.le(k[i], const(n, "I"))]
            for j in range(n):
                ctx.assumed += [imp(tm.eq(k[i], const(j, "I")), below(x[i], e[j])), imp(tm.eq(k[i], const(j + 1, "I")), above(e[j], x[i]))]
        store["x"], store["edges"], store["k"] = x, e, k
        return [k]
    return h


def bin_search(store): return {"digitize": digitize_hook(store), "searchsorted": digitize_hook(store, 1, 0)}


def clusters(mode_r, N, B, mc):
    """the intervals are the maximal runs of occupied bins; every non-zero sample lies in one"""
    def mk():
        m = ma()
        name = "cluster_%s_N%d_B%d" % ("r" if mode_r else "theta", N, B)

        def run(seed, thorough):
            x = jx.symarr("x", (N,), "R")
            pre = [tm.le(Z, t) for t in x]
            if not mode_r: pre += [tm.lt(t, TWOPI) for t in x]
            else: pre += [tm.lt(Z, x[0]), tm.lt(Z, x[1]), tm.not_(tm.eq(x[0], x[1]))]
            st = {}

            def post(outs):
                s, e = outs
                K = len(s)
                g = []
                for i in range(N):
                    g.append(("sample_covered", imp(tm.lt(Z, x[i]), disj([tm.and_(tm.le(s[k], x[i]), tm.le(x[i], e[k])) for k in range(K)]))))
                g.append(("intervals_ordered", conj_([tm.le(s[k], e[k]) for k in range(K)] + [tm.or_(tm.eq(e[k], Z), tm.lt(e[k], s[k + 1])) for k in range(K - 1)])))
                # an interval that is not padding holds a sample
                g.append(("no_empty_interval", conj_([imp(tm.lt(Z, e[k]), disj([tm.and_(tm.le(s[k], x[i]), tm.le(x[i], e[k])) for i in range(N)])) for k in range(K)])))
                if not mode_r:
                    grid = [const(0)] + [TWOPI * const(Fr(j, B)) for j in range(1, B + 1)]
                    g.append(("edges_on_bin_grid", conj_([disj([tm.eq(v, w) for w in grid]) for v in list(s) + list(e)])))
                return g
            o = cluster_oracle(mode_r, B, mc)
            return merge(name, prove_case(name, lambda a: m.cluster_1d(a, bins=B, max_cluster=mc, mode_r=mode_r), [x], post, pre, o, 60000, hooks=bin_search(st), seed=seed, vacuity=True, function="merge_area.cluster_1d"))
        return Custom(name, run, functions=["inverse_ray.merge_area.cluster_1d"])
    return mk



# ------------------------------------------------- _refine_addmargin_merge_r
def refine_oracle(x, rows, m):
    import jax.numpy as jnp
    x, m = np.abs(np.asarray(x, float)), abs(float(m)) + 1e-6
    # rebuild admissible rows from the samples: groups of sorted positive samples
    v = np.sort(x[x > 0])
    if len(v) == 0: return None
    R_ = rows.shape[0]
    rng = np.random.default_rng(int(v.sum() * 1e6) % 2 ** 31)
    k = int(rng.integers(1, min(R_, len(v)) + 1))
    cut = np.sort(rng.choice(np.arange(1, len(v)), k - 1, replace=False)) if k > 1 else []
    g = [t for t in np.split(v, cut)]
    if any(a[-1] >= b[0] for a, b in zip(g, g[1:])): return None
    rows = np.r_[np.zeros((R_ - k, 2)), [[t[0] - 1e-9, t[-1] + 1e-9] for t in g]]
    out = np.asarray(ma()._refine_addmargin_merge_r(jnp.asarray(x), jnp.asarray(rows), margin=m))
    for t in v:
        if not ((out[:, 0] <= max(0.0, t - m) + 1e-12) & (out[:, 1] >= t + m - 1e-12)).any():
            return {"inputs": [x.tolist(), rows.tolist(), m], "observed": out.tolist(), "expected": "sample %r covered with its margin" % t}
    o = out[out[:, 1] > 0]
    if (o[:-1, 1] > o[1:, 0] + 1e-12).any(): return {"inputs": [x.tolist(), rows.tolist(), m], "observed": out.tolist(), "expected": "disjoint ascending intervals"}
    return None


def refine_r(M, N):
    def mk():
        m = ma()
        name = "radial_merge_M%d_N%d" % (M, N)

        def run(seed, thorough):
            out = []
            for k in range(M + 1):          # k padding rows first (cluster_1d contract)
                x = jx.symarr("x", (N,), "R")
                mg = R("margin")
                rows = np.empty((M, 2), dtype=object)
                for i in range(M):
                    for j in range(2): rows[i, j] = Z if i < k else R("row[%d,%d]" % (i, j))
                pre = [tm.le(Z, t) for t in x] + [tm.lt(Z, mg)]
                inn = lambda i, t: tm.and_(tm.le(rows[i, 0], t), tm.le(t, rows[i, 1]))
                for i in range(k, M):
                    pre += [tm.lt(Z, rows[i, 0]), tm.le(rows[i, 0], rows[i, 1]), disj([tm.and_(tm.lt(Z, t), inn(i, t)) for t in x])]
                    if i > k: pre.append(tm.lt(rows[i - 1, 1], rows[i, 0]))

                def post(r):
                    o = r[0]
                    g = []
                    for t in x:
                        some = disj([inn(i, t) for i in range(k, M)])
                        cov = disj([conj_([tm.le(o[i, 0], tm.max_(Z, t - mg)), tm.le(t + mg, o[i, 1])]) for i in range(M)])
                        g.append(("covers_with_margin", imp(tm.and_(tm.lt(Z, t), some), cov)))
                    g.append(("disjoint_ascending", conj_([imp(tm.and_(tm.lt(Z, o[i, 1]), tm.lt(Z, o[j, 1])), tm.le(o[i, 1], o[j, 0])) for i in range(M) for j in range(i + 1, M)])))
                    g.append(("non_negative", conj_([tm.and_(tm.le(Z, o[i, 0]), tm.le(o[i, 0], o[i, 1])) for i in range(M)])))
                    # nothing beyond the margin of a sample
                    g.append(("tight", conj_([imp(tm.lt(Z, o[i, 1]), tm.and_(disj([tm.and_(tm.lt(Z, t), tm.eq(o[i, 0], tm.max_(Z, t - mg))) for t in x]), disj([tm.and_(tm.lt(Z, t), tm.eq(o[i, 1], t + mg)) for t in x]))) for i in range(M)])))
                    return g
                out += prove_case("pad%d" % k, lambda a, b, c: m._refine_addmargin_merge_r(a, b, margin=c), [x, rows, A0(mg)], post, pre, refine_oracle, 60000, seed=seed, draws=200, vacuity=True, function="merge_area._refine_addmargin_merge_r")
            return merge(name, out)
        return Custom(name, run, functions=["inverse_ray.merge_area._refine_addmargin_merge_r"])
    return mk


# ------------------------------------------------------------ _compute_in_mask
def in_mask(M, K, N):
    def mk():
        m = ma()
        name = "in_mask_%d_%d_%d" % (M, K, N)

        def run(seed, thorough):
            r, t = jx.symarr("r", (N,), "R"), jx.symarr("t", (N,), "R")
            A, B = jx.symarr("A", (M, 2), "R"), jx.symarr("B", (K, 2), "R")
            def post(o):
                g = []
                for i in range(M):
                    for j in range(K):
                        w = disj([conj_([tm.lt(A[i, 0], r[n]), tm.lt(r[n], A[i, 1]), tm.lt(B[j, 0], t[n]), tm.lt(t[n], B[j, 1])]) for n in range(N)])
                        g.append(("occupied_%d_%d" % (i, j), tm.eq(o[0][i, j], w)))
                return g
            def ora(r_, t_, a, b):
                import jax.numpy as jnp
                o = np.asarray(m._compute_in_mask(*map(jnp.asarray, (r_, t_, a, b))))
                w = np.array([[((a[i, 0] < r_) & (r_ < a[i, 1]) & (b[j, 0] < t_) & (t_ < b[j, 1])).any() for j in range(K)] for i in range(M)])
                return None if (o == w).all() else {"observed": o.tolist(), "expected": w.tolist()}
            return merge(name, prove_case(name, m._compute_in_mask, [r, t, A, B], post, (), ora, 30000, seed=seed, draws=300, function="merge_area._compute_in_mask"))
        return Custom(name, run, functions=["inverse_ray.merge_area._compute_in_mask"])
    return mk


# --------------------------------------------------------------- _merge_final
def cells_pre(r, t, N):
    """pairwise distinct product cells of disjoint radial rows and separated angular clusters; padding rows are zero"""
    pre = []
    zero = [conj_([tm.eq(v, Z) for v in (r[i, 0], r[i, 1], t[i, 0], t[i, 1])]) for i in range(N)]
    for i in range(N):
        pre.append(tm.or_(zero[i], conj_([tm.le(Z, r[i, 0]), tm.lt(r[i, 0], r[i, 1]), tm.le(Z, t[i, 0]), tm.lt(t[i, 0], t[i, 1]), tm.le(t[i, 1], TWOPI)])))
        for j in range(i):
            same_r = tm.and_(tm.eq(r[i, 0], r[j, 0]), tm.eq(r[i, 1], r[j, 1]))
            dis_r = tm.or_(tm.le(r[i, 1], r[j, 0]), tm.le(r[j, 1], r[i, 0]))
            dis_t = tm.or_(tm.lt(t[i, 1], t[j, 0]), tm.lt(t[j, 1], t[i, 0]))
            pre.append(disj([zero[i], zero[j], dis_r, tm.and_(same_r, dis_t)]))
    return pre


def holds_mod(r, t, i, pr, pt, strict):
    f = tm.lt if strict else tm.le
    inr = tm.and_(f(r[i, 0], pr), f(pr, r[i, 1]))
    it = lambda q: tm.and_(f(t[i, 0], q), f(q, t[i, 1]))
    return conj_([tm.lt(Z, r[i, 1]), inr, tm.or_(it(pt), it(pt - TWOPI))])


def merge_final_oracle(N):
    def o(r_, t_, pr, pt):
        import jax.numpy as jnp
        rng = np.random.default_rng(int(abs(float(pr)) * 1e9) % 2 ** 31)
        nr = int(rng.integers(1, 3))
        e = np.sort(rng.uniform(.1, 2, 2 * nr)).reshape(nr, 2)
        cells = []
        for a in e:
            b = np.sort(rng.uniform(0.1, 6.2, 6))
            tt = [[0.0, b[0]], [b[1], b[2]], [b[3], b[4]], [b[5], 2 * np.pi]]
            cells += [np.r_[a, q] for q in tt if rng.random() < .7]
        cells = np.array(cells).reshape(-1, 4)[rng.permutation(len(cells))]
        c = np.zeros((12, 4))
        c[:len(cells)] = cells
        ro, to = map(np.asarray, ma()._merge_final(jnp.asarray(c[:, :2]), jnp.asarray(c[:, 2:])))
        R_, T_ = rng.uniform(0, 2.2, 400), rng.uniform(0, 2 * np.pi, 400)
        def mult(r, t): return sum(((a[0] < R_) & (R_ < a[1])) * (((b[0] < T_) & (T_ < b[1])).astype(int) + ((b[0] < T_ - 2 * np.pi) & (T_ - 2 * np.pi < b[1]))) for a, b in zip(r, t))
        d = mult(ro, to) != mult(c[:, :2], c[:, 2:])
        if d.any(): return {"inputs": [c.tolist(), [float(R_[d][0]), float(T_[d][0])]], "observed": np.c_[ro, to].tolist(), "expected": "same multiplicity at every point"}
        return None
    return o


def merge_final(N):
    def mk():
        m = ma()
        name = "wrap_merge_N%d" % N

        def run(seed, thorough):
            r, t = jx.symarr("r", (N, 2), "R"), jx.symarr("t", (N, 2), "R")
            pr, pt = R("pr"), R("pt")
            pre = cells_pre(r, t, N) + [tm.le(Z, pr), tm.le(Z, pt), tm.lt(pt, TWOPI)]

            def post(o):
                ro, to = o
                g = []
                for i in range(N):
                    g.append(("no_cell_lost", imp(holds_mod(r, t, i, pr, pt, False), disj([holds_mod(ro, to, j, pr, pt, False) for j in range(N)]))))
                for j in range(N):
                    g.append(("no_cell_invented", imp(holds_mod(ro, to, j, pr, pt, True), disj([tm.or_(holds_mod(r, t, i, pr, pt, False), tm.eq(pt, Z)) for i in range(N)]))))
                    for i in range(j):
                        g.append(("disjoint", tm.not_(tm.and_(holds_mod(ro, to, j, pr, pt, True), holds_mod(ro, to, i, pr, pt, True)))))
                    # merged rows straddle the branch cut
                    g.append(("angle_range", conj_([tm.le(-TWOPI, to[j, 0]), tm.le(to[j, 0], to[j, 1]), tm.le(to[j, 1] - to[j, 0], TWOPI)])))
                # filled rows first
                for j in range(1, N): g.append(("filled_first", imp(tm.eq(ro[j - 1, 1], Z), tm.eq(ro[j, 1], Z))))
                return g
            return merge(name, prove_case(name, lambda a, b, c, d: m._merge_final(a, b), [r, t, A0(pr), A0(pt)], post, pre, merge_final_oracle(N), 120000, seed=seed, draws=200, vacuity=True, function="merge_area._merge_final"))
        return Custom(name, run, functions=["inverse_ray.merge_area._merge_final"])
    return mk


# -------------------------------------------------------------- _refine_final
def np_refine_oracle(seed, k):
    """random occupied cells: every sample of a cell stays in the refined cell with its margins"""
    import jax.numpy as jnp
    rng = np.random.default_rng(seed)
    for _ in range(k):
        n = int(rng.integers(2, 12))
        mr, mt = 10 ** rng.uniform(-4, -1), 10 ** rng.uniform(-4, -1.5)
        kind = rng.integers(0, 4)
        if kind == 0: t1, t2 = np.sort(rng.uniform(.1, 6.2, 2))
        elif kind == 1: t1, t2 = 0.0, rng.uniform(.1, 6.2)
        elif kind == 2: t1, t2 = -rng.uniform(.1, 3.1), rng.uniform(.1, 3.1)
        else: t1, t2 = -rng.uniform(.1, 3.), rng.uniform(3.2, 3.5)
        if kind == 0 and rng.random() < .3: t2 = 2 * np.pi
        th = rng.uniform(t1, t2, n)
        if kind > 1: th[0], th[1] = t1 * rng.random(), t2 * rng.random()
        r = np.sort(rng.uniform(.05, 2, n))
        rng.shuffle(r)
        row = [max(0., r.min() - mr), r.max() + mr]
        far = np.r_[r, rng.uniform(3, 4, 3)]
        tt = np.r_[np.mod(th, 2 * np.pi), rng.uniform(0, 6.2, 3)]
        z = np.zeros((2, 2))
        z[0] = row
        y = np.zeros((2, 2))
        y[0] = t1, t2
        ro, to = map(np.asarray, ma()._refine_final(*map(jnp.asarray, (far, tt, z, y)), margin_r=mr, margin_th=mt))
        e = 1e-9
        ok = (ro[0, 0] <= np.maximum(0, r - mr) + e).all() and (r + mr <= ro[0, 1] + e).all() and (to[0, 0] <= th - mt + e).all() and (th + mt <= to[0, 1] + e).all()
        ok = ok and ro[0, 0] >= row[0] - e and ro[0, 1] <= row[1] + e and to[0, 0] >= t1 - mt - e and to[0, 1] <= t2 + mt + e
        ok = ok and not ro[1].any() and not to[1].any()
        if not ok: return {"function": "merge_area._refine_final", "inputs": [far.tolist(), tt.tolist(), z.tolist(), y.tolist(), mr, mt], "observed": np.c_[ro, to].tolist(), "expected": "cell 0 covers its samples with margins and does not grow; cell 1 empty"}
    return None


def refine_final(kind, N, M=1):
    """kind: 'padding', 'plain' (0 <= t1), 'merged' (t1 < 0)"""
    def mk():
        m = ma()
        name = "final_refinement_%s_N%d" % (kind, N)

        def run(seed, thorough):
            x, th = jx.symarr("x", (N,), "R"), jx.symarr("th", (N,), "R")
            r, t = jx.symarr("r", (M, 2), "R"), jx.symarr("t", (M, 2), "R")
            mr, mt = R("mr"), R("mt")
            pre = [tm.le(Z, v) for v in x] + [tm.lt(v, const(99999)) for v in x] + [tm.lt(Z, mr), tm.lt(Z, mt)] + [f for v in th for f in (tm.le(Z, v), tm.lt(v, TWOPI))]
            strict = lambda lo, v, hi: tm.and_(tm.lt(lo, v), tm.lt(v, hi))
            if kind == "padding":
                r[0, 0] = r[0, 1] = t[0, 0] = t[0, 1] = Z
            else:
                pre += [tm.le(Z, r[0, 0]), tm.lt(r[0, 0], r[0, 1])]
                # radial rows hold their samples with the margin (radial_merge contract)
                pre += [imp(tm.and_(strict(r[0, 0], v, r[0, 1]), tm.lt(Z, v)), tm.and_(tm.le(r[0, 0], tm.max_(Z, v - mr)), tm.le(v + mr, r[0, 1]))) for v in x]
                occ = lambda i, q: conj_([tm.lt(Z, x[i]), strict(r[0, 0], x[i], r[0, 1]), strict(t[0, 0], q, t[0, 1]), tm.not_(tm.eq(th[i], Z))])
                if kind == "plain":
                    pre += [tm.le(Z, t[0, 0]), tm.lt(t[0, 0], t[0, 1]), tm.le(t[0, 1], TWOPI), disj([occ(i, th[i]) for i in range(N)])]
                else:
                    pre += [tm.lt(-TWOPI, t[0, 0]), tm.lt(t[0, 0], Z), tm.lt(Z, t[0, 1]), tm.lt(t[0, 1], t[0, 0] + TWOPI)]
                    pre += [disj([occ(i, th[i]) for i in range(N)]), disj([tm.and_(occ(i, th[i] - TWOPI), tm.lt(t[0, 0], th[i] - TWOPI)) for i in range(N)])]

            def post(o):
                ro, to = o
                if kind == "padding": return [("stays_empty", conj_([tm.eq(v, Z) for v in (ro[0, 0], ro[0, 1], to[0, 0], to[0, 1])]))]
                g = []
                for i in range(N):
                    for q in ([th[i]] if kind == "plain" else [th[i], th[i] - TWOPI]):
                        g.append(("radius_with_margin", imp(occ(i, q), tm.and_(tm.le(ro[0, 0], tm.max_(Z, x[i] - mr)), tm.le(x[i] + mr, ro[0, 1])))))
                        g.append(("angle_with_margin", imp(occ(i, q), tm.and_(tm.le(to[0, 0], q - mt), tm.le(q + mt, to[0, 1])))))
                g.append(("radius_never_grows", tm.and_(tm.le(r[0, 0], ro[0, 0]), tm.le(ro[0, 1], r[0, 1]))))
                g.append(("angle_grows_by_margin_only", tm.and_(tm.le(t[0, 0] - mt, to[0, 0]), tm.le(to[0, 1], t[0, 1] + mt))))
                if kind == "merged": g.append(("branch_cut_inside", tm.and_(tm.lt(to[0, 0], Z), tm.lt(Z, to[0, 1]))))
                return g
            f = lambda a, b, c, d, e, h: m._refine_final(a, b, c, d, margin_r=e, margin_th=h)
            return merge(name, prove_case(name, f, [x, th, r, t, A0(mr), A0(mt)], post, pre, lambda *a: np_refine_oracle(seed, 200), 60000, seed=seed, draws=1, vacuity=True, function="merge_area._refine_final"))
        return Custom(name, run, functions=["inverse_ray.merge_area._refine_final"])
    return mk


# ----------------------------------------------------------------------- glue
CAP = {2: (10, 5), 3: (18, 9)}


def glue(n, K, L, patterns):
    """define_regions against the contracts of its five stages"""
    def mk():
        import jax.numpy as jnp
        m = ma()
        name = "define_regions_%d_%dx%d" % (n, K, L)

        def run(seed, thorough):
            acc = Acc(name, seed, lambda: real_cover(seed, 60, n))
            rng = np.random.default_rng(7)
            if patterns is None: pats = list(itertools.product([0, 1], repeat=K * L))
            else:
                pats = []
                for _ in range(patterns):
                    c = int(rng.integers(1, CAP[n][0] + 1))
                    p = np.zeros(K * L, int)
                    p[rng.choice(K * L, min(c, K * L), replace=False)] = 1
                    pats.append(tuple(p))
            il, ml = jx.symarr("il", (2, 2), "C"), jx.symarr("ml", (2, 2), "B")
            rho, mr = R("rho"), R("mr")
            ini, cap = CAP[n]
            for pat in pats:
                rr = jx.symarr("rr", (K, 2), "R")
                for i in range(K): rr[i, 1] = const(Fr(3 + 2 * i, 2))
                tt = jx.symarr("tt", (L, 2), "R")
                for j in range(L):
                    tt[j, 0] = const(Fr(2 * j + (j > 0), 2 * L + 1))
                    tt[j, 1] = const(Fr(2 * j + 2, 2 * L + 1)) if j < L - 1 else TWOPI
                rl, rh = jx.symarr("rl", (K,), "R"), jx.symarr("rh", (K,), "R")
                full = np.empty((K, L), dtype=object)
                for i in range(K):
                    for j in range(L): full[i, j] = const(bool(pat[i * L + j]))
                NM = 12 if n == 2 else 20
                mo = [jx.symarr("fr", (NM, 2), "R"), jx.symarr("ft", (NM, 2), "R")]
                fo = {}

                def clu(ctx, a, s):
                    return [rl, rh] if s.get("mode_r", True) else [np.array([tt[j, 0] for j in range(L)], dtype=object), np.array([tt[j, 1] for j in range(L)], dtype=object)]

                def fin(ctx, a, s):
                    sh = a["r_scan"].shape
                    fo["o"] = [jx.symarr("or", sh, "R"), jx.symarr("ot", sh, "R")]
                    return fo["o"]
                S = {"cluster_1d": Stub("cluster", m.cluster_1d, lambda f: (jnp.zeros(K if f["mode_r"] else L),) * 2, clu),
                     "_refine_addmargin_merge_r": Stub("refine_r", m._refine_addmargin_merge_r, lambda f: jnp.zeros((K, 2)), lambda c, a, s: [rr]),
                     "_compute_in_mask": Stub("mask", m._compute_in_mask, lambda f: jnp.zeros((K, L), bool), lambda c, a, s: [full]),
                     "_merge_final": Stub("wrap", m._merge_final, lambda f: (jnp.zeros((NM, 2)), jnp.zeros((NM, 2))), lambda c, a, s: mo),
                     "_refine_final": Stub("final", m._refine_final, lambda f: (jnp.zeros(jnp.shape(f["r_scan"])), jnp.zeros(jnp.shape(f["th_scan"]))), fin)}

                def fn(z, k, rho, mr):
                    with patched(*[(m, q, S[q]) for q in S]):
                        return raw(m.define_regions)(z, k, rho, bins_r=17, bins_th=19, margin_r=mr, margin_th=0.75, nlenses=n)
                go = trace_then_run(fn, [il, ml, A0(rho), A0(mr)], list(S.values()))
                ang = {}

                def atan2(ctx, eqn, ins):
                    y, x = map(jx.toT, ins)
                    o = np.empty(y.shape, dtype=object)
                    for i in np.ndindex(*y.shape): o[i] = ang.setdefault((y[i].id, x[i].id), tm.var("alpha%d" % len(ang), "R"))
                    return [o]

                def rem(ctx, eqn, ins):     # |alpha| <= pi, so the truncated remainder by 2 pi is alpha itself
                    if not any(t in ang.values() for t in jx.toT(ins[0]).ravel()): return None
                    if any(t is not TWOPI for t in jx.toT(ins[1]).ravel()): return None
                    return [ins[0]]
                outs, ctx = go(hooks=dict(closed_hooks(), **{"prim:atan2": atan2, "prim:rem": rem}))
                for q in S:
                    if not acc.check("calls." + q, len(S[q].calls) == (2 if q == "cluster_1d" else 1), str(len(S[q].calls))): return acc.records()
                zr, kr = il.ravel(), ml.ravel()
                rlim = np.array([tm.ite(k, tm.abs_(z), Z) for z, k in zip(zr, kr)], dtype=object)
                seen = {}
                for a, s, _ in S["cluster_1d"].calls:
                    seen[bool(s.get("mode_r", True))] = (a, s)
                if not acc.check("cluster.modes", set(seen) == {True, False}): return acc.records()
                acc.check("cluster.options", seen[True][1]["bins"] == 17 and seen[False][1]["bins"] == 19 and seen[True][1]["max_cluster"] >= ini and seen[False][1]["max_cluster"] >= ini, str([v[1] for v in seen.values()]))
                acc.arr("cluster.radii", seen[True][0]["arr"], rlim)
                th = seen[False][0]["arr"]
                tlim = np.array([tm.ite(k, ang.get((tm.imag(z).id, tm.real(z).id), tm.var("no_angle", "R")), Z) for z, k in zip(zr, kr)], dtype=object)
                tlim = np.array([t if t is Z else tm.ite(tm.lt(t, Z), t + TWOPI, t) for t in tlim], dtype=object)
                acc.arr("cluster.angles", th, tlim)
                a, s, _ = S["_refine_addmargin_merge_r"].calls[0]
                acc.arr("radial.samples", a["r_limb"], rlim)
                acc.arr("radial.rows", a["r_ranges"], np.array([[rl[i], rh[i]] for i in range(K)], dtype=object))
                acc.eq("radial.margin", a["margin"][()], mr * rho)
                a, s, _ = S["_compute_in_mask"].calls[0]
                acc.arr("mask.radii", a["r_limb"], rlim)
                acc.arr("mask.angles", a["th_limb"], th)
                acc.arr("mask.rows", a["r_use"], rr)
                acc.arr("mask.clusters", a["th_use"], tt)
                a, s, _ = S["_merge_final"].calls[0]
                sel = [(i, j) for i in range(K) for j in range(L) if pat[i * L + j]]
                R_, T_ = a["r_map"], a["th_map"]
                got = []
                for q in range(R_.shape[0]):
                    zero = all(tm.cv(v) == 0 for v in (R_[q, 1], T_[q, 1]))
                    if zero: continue
                    h = [(i, j) for i, j in sel if R_[q, 0] is rr[i, 0] and R_[q, 1] is rr[i, 1] and T_[q, 0] is tt[j, 0] and T_[q, 1] is tt[j, 1]]
                    got.append(h[0] if h else None)
                if None in got: print(pat, [[tm.pretty(v)[:80] for v in list(R_[q])+list(T_[q])] for q in range(len(got))])
                acc.check("cells.paired", None not in got and len(set(got)) == len(got), "rows %s" % got)
                acc.check("cells.none_lost", set(got) >= set(sel), "selected %s got %s" % (sel, got))
                a, s, _ = S["_refine_final"].calls[0]
                acc.arr("final.radii", a["r_limb"], rlim)
                acc.arr("final.angles", a["th_limb"], th)
                k = a["r_scan"].shape[0]
                acc.check("final.capacity", k >= cap and a["th_scan"].shape[0] == k, str(k))
                acc.arr("final.r_rows", a["r_scan"], mo[0][:k])
                acc.arr("final.th_rows", a["th_scan"], mo[1][:k])
                acc.eq("final.margin_r", a["margin_r"][()], mr * rho)
                acc.eq("final.margin_th", a["margin_th"][()], const(0.75) * const(np.pi) / 180)
                acc.arr("returned.r", outs[0], fo["o"][0])
                acc.arr("returned.th", outs[1], fo["o"][1])
            return acc.records()
        return Custom(name, run, functions=["inverse_ray.merge_area.define_regions[nlenses=%d]" % n])
    return mk


# ------------------------------------------------------------------ execution
def _cover(w, rho, n, P, N=300, F={}):
    """(samples missed, samples, occupied cells, capacity)"""
    import jax, jax.numpy as jnp
    m = ma()
    key = (n, N, jax.config.jax_enable_x64, id(m.define_regions))
    if key not in F:
        def f(w, rho, P):
            il, ml = m.calc_source_limb(w, rho, N, nlenses=n, **P)
            r, t = m.define_regions(il, ml, rho, bins_r=50, bins_th=120, margin_r=.5, margin_th=.5, nlenses=n)
            return il, ml, r, t
        F[key] = jax.jit(f)
    il, ml, r, t = map(np.asarray, F[key](w, rho, P))
    # valid images, independently: the lens map returns to the limb point
    s, q = P["s"], P["q"]
    a = s / 2
    if n == 2: L = [(q / (1 + q), a), (1 / (1 + q), -a)]
    else:
        T = 1 + q + P["q3"]
        L = [(q / T, a), (1 / T, -a), (P["q3"] / T, P["r3"] * np.exp(1j * P["psi"]))]
    x = a * (1 - q) / (1 + q)
    z = il[ml]
    with np.errstate(all="ignore"): beta = z - x - sum(k / np.conj(z - x - p) for k, p in L) + x
    ok = np.abs(np.abs(beta - w) - rho) < 1e-6
    R_, A_ = np.abs(z), np.mod(np.angle(z), 2 * np.pi)
    cov = np.zeros(R_.shape, bool)
    for k in (-1, 0): cov |= ((r[:, 0] <= R_[:, None]) & (R_[:, None] <= r[:, 1]) & (t[:, 0] <= A_[:, None] + 2 * np.pi * k) & (A_[:, None] + 2 * np.pi * k <= t[:, 1])).any(1)
    edge = np.abs(A_ * 60 / np.pi - np.round(A_ * 60 / np.pi)) < 1e-9
    miss = z[ok & ~cov & ~edge]
    return miss, int(ok.sum()), int((r[:, 1] > 0).sum()), [r.tolist(), t.tolist()]


def rand_conf(rng, n):
    s, q, rho = np.exp(rng.uniform(np.log(.3), np.log(3))), 10 ** rng.uniform(-4, 0), 10 ** rng.uniform(-3, -.3)
    w = rng.normal() * .7 + 1j * rng.normal() * .7 * (rng.random() < .7) + rng.normal() * .01j
    P = dict(s=s, q=q)
    if n == 3: P.update(q3=10 ** rng.uniform(-3, 0), r3=rng.uniform(.2, 2), psi=rng.uniform(0, 6.28))
    return complex(w), float(rho), {k: float(v) for k, v in P.items()}


def real_cover(seed, k, n):
    rng = np.random.default_rng(seed)
    for _ in range(k):
        w, rho, P = rand_conf(rng, n)
        miss, tot, cells, out = _cover(w, rho, n, P)
        if cells >= CAP[n][1]: continue       # capacity reached: see the known finding
        if len(miss): return {"function": "merge_area.define_regions", "inputs": {"w": str(w), "rho": rho, "nlenses": n, **P}, "observed": "%d of %d limb images outside all %d cells, e.g. %s" % (len(miss), tot, cells, miss[0]), "expected": "every valid limb image inside a cell"}
    return None


def execution(n, k):
    def mk():
        def run(seed, thorough):
            f = real_cover(seed + 100, k * (10 if thorough else 1), n)
            return [rec("execution_%d/limb_images_covered" % n, "refuted" if f else "bounded-ok", "execution", "random configurations that use fewer cells than the capacity", f)]
        return Custom("execution_%d" % n, run, functions=["inverse_ray.merge_area.define_regions"], bounded="execution_%d: %d random configurations" % (n, k))
    return mk


OVERFLOW = dict(w=-0.4146870698270528 - 0.08709805915586871j, rho=0.11153876394784841, n=2, P=dict(s=0.4767870548442077, q=0.8971717804697997))


def capacity():
    """a configuration that needs more cells than are kept"""
    def run(seed, thorough):
        miss, tot, cells, out = _cover(OVERFLOW["w"], OVERFLOW["rho"], OVERFLOW["n"], OVERFLOW["P"])
        f = None
        if len(miss): f = {"function": "merge_area.define_regions", "inputs": {k: str(v) for k, v in OVERFLOW.items()}, "observed": "%d of %d limb images outside all cells" % (len(miss), tot), "expected": "every valid limb image inside a cell"}
        return [rec("cell_capacity/recorded_overflow", "refuted" if f else "bounded-ok", "execution", "more than 5 product cells occupied", f)]
    return Custom("cell_capacity", run, functions=["inverse_ray.merge_area.define_regions"], bounded="cell_capacity: one recorded configuration")


def limb(n, N):
    def mk():
        import jax.numpy as jnp
        m = ma()

        def run(seed, thorough):
            up = ["s", "q"] if n == 2 else ["s", "q", "q3", "r3", "psi"]
            P = {k: R(k) for k in up}
            rho, w = R("rho"), C("w")
            a = P["s"] / 2
            tot = 1 + P["q"] + (P["q3"] if n == 3 else const(0))
            xcm = a * (1 - P["q"]) / (1 + P["q"])
            lens = {"a": a, "e1": P["q"] / tot}
            if n == 3: lens.update(e2=1 / tot, r3=P["r3"], psi=P["psi"])
            acc = Acc("source_limb_%d" % n, seed, lambda: limb_oracle(seed, n))
            im, ok = jx.symarr("im", (5, N), "C"), jx.symarr("ok", (5, N), "B")
            S = Stub("images", m._images_point_source, lambda f: (jnp.zeros((5, N), complex), jnp.zeros((5, N), bool)), lambda c, a_, s_: [im, ok])

            def fn(w, rho, *v):
                with patched((m, "_images_point_source", S)): return raw(m.calc_source_limb)(w, rho, Nlimb=N, nlenses=n, **dict(zip(up, v)))
            outs, ctx = trace_then_run(fn, [A0(w), A0(rho)] + [A0(v) for v in P.values()], [S])()
            if not acc.check("one_image_solve", len(S.calls) == 1): return acc.records()
            ar, st, _ = S.calls[0]
            acc.check("nlenses", st["nlenses"] == n, str(st))
            for k, v in lens.items(): acc.eq("lens." + k, ar[k][()] if k in ar else tm.var("missing_" + k, "R"), v)
            ws = ar["w"].ravel()
            acc.check("samples", len(ws) == N)
            for k in range(N): acc.eq("limb_point[%d]" % k, ws[k], w + rho * exp(I * (tm.mul(const(Fr(2 * k, N - 1)), const(np.pi)))) - xcm)
            acc.arr("mask", outs[1], ok)
            for i in np.ndindex(5, N): acc.eq("image%s" % list(i), outs[0][i], im[i] + xcm)
            return acc.records()
        return Custom("source_limb_%d" % n, run, functions=["inverse_ray.merge_area.calc_source_limb[nlenses=%d]" % n])
    return mk


def limb_oracle(seed, n):
    rng = np.random.default_rng(seed)
    import jax.numpy as jnp
    for _ in range(20):
        w, rho, P = rand_conf(rng, n)
        miss, tot, cells, out = _cover(w, rho, n, P)
        il, ml = map(np.asarray, ma().calc_source_limb(w, rho, 40, nlenses=n, **P))
        if tot < 0.9 * 300 * (3 if n == 2 else 4) or int(ml.sum()) == 0:
            return {"function": "merge_area.calc_source_limb", "inputs": {"w": str(w), "rho": rho, **P}, "observed": "%d valid images of 300 limb points solve the lens equation on the limb" % tot, "expected": "at least one more image than lenses per limb point"}
    return None


# ------------------------------------------------------------ any number of limb samples
PI2 = z3.RealVal(repr(2 * np.pi))


def f64(*names_shapes): return [(n, s, np.float64) for n, s in names_shapes]


def zmax(a, b): return z3.If(a < b, b, a)


def any_in_mask(M, K):
    def post(it, ins, outs):
        r, t, A, B, o = ins["r"], ins["t"], ins["A"], ins["B"], outs[0]
        hit = lambda i, j: lambda n: z3.And(A[i, 0].v < r[n].v, r[n].v < A[i, 1].v, B[j, 0].v < t[n].v, t[n].v < B[j, 1].v)
        return [("occupied", al.And(*[o[i, j] == it.exists(r.dims[0], hit(i, j)) for i in range(M) for j in range(K)]))]

    def ora(seed):
        import jax.numpy as jnp
        g = np.random.default_rng(seed)
        for n in (1, 2, 7, 63, 64, 65, 500, 1001) * 3:
            r_, t_ = g.normal(size=n), g.normal(size=n)
            a, b = [np.sort(g.normal(size=(k, 2)), axis=1) * g.choice([.01, 1., 3.]) for k in (M, K)]
            o = np.asarray(ma()._compute_in_mask(*map(jnp.asarray, (r_, t_, a, b))))
            w = np.array([[((a[i, 0] < r_) & (r_ < a[i, 1]) & (b[j, 0] < t_) & (t_ < b[j, 1])).any() for j in range(K)] for i in range(M)])
            if (o != w).any(): return {"function": "merge_area._compute_in_mask", "inputs": [v.tolist() for v in (r_, t_, a, b)], "observed": o.tolist(), "expected": w.tolist()}
    return al.anylength("any_number_in_mask_%d%d" % (M, K), lambda: lambda *v: ma()._compute_in_mask(*v), ["n"], 1, f64(("r", ("n",)), ("t", ("n",)), ("A", (M, 2)), ("B", (K, 2))), post, replay=ora, functions=["inverse_ray.merge_area._compute_in_mask"])


def any_refine_r(M, k):
    """k padding rows first"""
    def pre(it, ins):
        x, rows, mg = ins["x"], ins["rows"], ins["mg"][()].v
        d = x.dims[0]
        inn = lambda i, n: z3.And(rows[i, 0].v <= x[n].v, x[n].v <= rows[i, 1].v)
        p = [it.forall(d, lambda n: x[n].v >= 0), mg > 0] + [rows[i, j].v == 0 for i in range(k) for j in range(2)]
        for i in range(k, M):
            w = it.fresh("w")
            p += [rows[i, 0].v > 0, rows[i, 0].v <= rows[i, 1].v, it.rng(w, d), x[w].v > 0, inn(i, w)]
            if i > k: p.append(rows[i - 1, 1].v < rows[i, 0].v)
        return p

    def post(it, ins, outs):
        x, rows, mg, o = ins["x"], ins["rows"], ins["mg"][()].v, outs[0]
        d = x.dims[0]
        v = lambda i, j: o[i, j].v
        inn = lambda i, n: z3.And(rows[i, 0].v <= x[n].v, x[n].v <= rows[i, 1].v)
        fine = al.And(*[al.Not(al.Or(o[i, j].nan, o[i, j].pi, o[i, j].mi)) for i in range(M) for j in range(2)])
        cov = lambda n: al.Or(*[z3.And(v(i, 0) <= zmax(z3.RealVal(0), x[n].v - mg), x[n].v + mg <= v(i, 1)) for i in range(M)])
        tight = lambda i: al.And(it.exists(d, lambda n: z3.And(x[n].v > 0, v(i, 0) == zmax(z3.RealVal(0), x[n].v - mg))), it.exists(d, lambda n: z3.And(x[n].v > 0, v(i, 1) == x[n].v + mg)))
        return [("finite", fine if not isinstance(fine, bool) else z3.BoolVal(fine)),
                ("covers_with_margin", it.forall(d, lambda n: z3.Implies(al.And(x[n].v > 0, al.Or(*[inn(i, n) for i in range(k, M)])), cov(n))) if k < M else z3.BoolVal(True)),
                ("disjoint_ascending", al.And(*[z3.Implies(z3.And(v(i, 1) > 0, v(j, 1) > 0), v(i, 1) <= v(j, 0)) for i in range(M) for j in range(i + 1, M)])),
                ("non_negative", al.And(*[z3.And(v(i, 0) >= 0, v(i, 0) <= v(i, 1)) for i in range(M)]))] + [("tight_%d" % i, z3.Implies(v(i, 1) > 0, tight(i))) for i in range(M)]

    def ora(seed):
        g = np.random.default_rng(seed)
        for n in (1, 2, 7, 63, 64, 65, 500, 1001) * 3:
            f = refine_oracle(g.uniform(.01, 3, n), np.zeros((M, 2)), 10 ** g.uniform(-4, -.5))
            if f: return dict(f, function="merge_area._refine_addmargin_merge_r")
    return al.anylength("any_number_radial_merge_%d_pad%d" % (M, k), lambda: lambda x, r, m: ma()._refine_addmargin_merge_r(x, r, margin=m), ["n"], 1, f64(("x", ("n",)), ("rows", (M, 2)), ("mg", ())), post, pre, ora, functions=["inverse_ray.merge_area._refine_addmargin_merge_r"], timeout_ms=30000)


def any_cluster(mode_r, B, mc):
    nm = "any_number_cluster_%s_B%d" % ("r" if mode_r else "theta", B)

    def pre(it, ins):
        x = ins["x"]
        d = x.dims[0]
        p = [it.forall(d, lambda n: x[n].v >= 0)]
        if not mode_r: return p + [it.forall(d, lambda n: x[n].v < PI2)]
        w, u = it.fresh("w"), it.fresh("w")
        return p + [it.rng(w, d), it.rng(u, d), x[w].v > 0, x[u].v > x[w].v]

    def post(it, ins, outs):
        x = ins["x"]
        d = x.dims[0]
        K = outs[0].dims[0]
        ends = [q for o in outs for q in (o[k] for k in range(K))]
        fin = al.And(*[al.Not(al.Or(q.nan, q.pi, q.mi)) for q in ends])
        s, e = [[o[k].v for k in range(K)] for o in outs]
        inn = lambda k, n: z3.And(s[k] <= x[n].v, x[n].v <= e[k])
        g = [("finite", fin if not isinstance(fin, bool) else z3.BoolVal(fin)),
             ("sample_covered", it.forall(d, lambda n: z3.Implies(x[n].v > 0, al.Or(*[inn(k, n) for k in range(K)])))),
             ("intervals_ordered", al.And(*[s[k] <= e[k] for k in range(K)], *[z3.Or(e[k] == 0, e[k] < s[k + 1]) for k in range(K - 1)]))]
        g += [("no_empty_interval_%d" % k, z3.Implies(e[k] > 0, it.exists(d, lambda n: inn(k, n)))) for k in range(K)]
        if not mode_r: g.append(("edges_on_bin_grid", al.And(*[al.Or(*[abs_le(v - PI2 * j / B, 1e-12) for j in range(B + 1)]) for v in s + e])))
        return g

    def ora(seed):
        o = cluster_oracle(mode_r, B, mc)
        g = np.random.default_rng(seed)
        for n in (2, 7, 63, 64, 65, 300, 1001) * 3:
            x = g.uniform(.01, 6.2, n) * (g.random(n) < .8)
            if g.random() < .5: x = np.where(x > 0, 1 + 3 * np.round(g.random(n)) + .1 * x, 0)
            f = o(x)
            if f: return dict(f, function="merge_area.cluster_1d", inputs=[x.tolist(), B, mc])
    return al.anylength(nm, lambda: lambda x: ma().cluster_1d(x, bins=B, max_cluster=mc, mode_r=mode_r), ["n"], 1, f64(("x", ("n",))), post, pre, ora, functions=["inverse_ray.merge_area.cluster_1d"], timeout_ms=20000, side=closed_side)


def abs_le(t, b): return z3.And(t <= z3.RealVal(repr(b)), -t <= z3.RealVal(repr(b)))


def any_final(kind):
    def cell(ins):
        x, th = ins["x"], ins["th"]
        r0, r1, t0, t1 = [ins[a][0, j].v for a in "rt" for j in (0, 1)]
        occ = lambda n, q: z3.And(x[n].v > 0, r0 < x[n].v, x[n].v < r1, t0 < q, q < t1, th[n].v != 0)
        return x, th, r0, r1, t0, t1, ins["mr"][()].v, ins["mt"][()].v, occ

    def pre(it, ins):
        x, th, r0, r1, t0, t1, mr, mt, occ = cell(ins)
        d = x.dims[0]
        p = [it.forall(d, lambda n: z3.And(0 <= x[n].v, x[n].v < 99999, 0 <= th[n].v, th[n].v < PI2)), mr > 0, mt > 0]
        if kind == "padding": return p + [r0 == 0, r1 == 0, t0 == 0, t1 == 0]
        p += [r0 >= 0, r0 < r1, it.forall(d, lambda n: z3.Implies(z3.And(x[n].v > 0, r0 < x[n].v, x[n].v < r1), z3.And(r0 <= zmax(z3.RealVal(0), x[n].v - mr), x[n].v + mr <= r1)))]
        w, u = it.fresh("w"), it.fresh("w")
        if kind == "plain": return p + [t0 >= 0, t0 < t1, t1 <= PI2, it.rng(w, d), occ(w, th[w].v)]
        return p + [-PI2 < t0, t0 < 0, 0 < t1, t1 < t0 + PI2, it.rng(w, d), occ(w, th[w].v), it.rng(u, d), occ(u, th[u].v - PI2)]

    def post(it, ins, outs):
        x, th, r0, r1, t0, t1, mr, mt, occ = cell(ins)
        ro, to = outs
        a, b, c, e = ro[0, 0], ro[0, 1], to[0, 0], to[0, 1]
        fin = al.And(*[al.Not(al.Or(q.nan, q.pi, q.mi)) for q in (a, b, c, e)])
        g = [("finite", fin if not isinstance(fin, bool) else z3.BoolVal(fin))]
        a, b, c, e = a.v, b.v, c.v, e.v
        if kind == "padding": return g + [("stays_empty", z3.And(a == 0, b == 0, c == 0, e == 0))]
        d = x.dims[0]
        for nm, sh in (("", 0),) + ((("_behind_the_cut", PI2),) if kind == "merged" else ()):
            g.append(("radius_with_margin" + nm, it.forall(d, lambda n: z3.Implies(occ(n, th[n].v - sh), z3.And(a <= zmax(z3.RealVal(0), x[n].v - mr), x[n].v + mr <= b)))))
            g.append(("angle_with_margin" + nm, it.forall(d, lambda n: z3.Implies(occ(n, th[n].v - sh), z3.And(c <= th[n].v - sh - mt, th[n].v - sh + mt <= e)))))
        g += [("radius_never_grows", z3.And(r0 <= a, b <= r1)), ("angle_grows_by_margin_only", z3.And(t0 - mt <= c, e <= t1 + mt))]
        if kind == "merged": g.append(("branch_cut_inside", z3.And(c < 0, 0 < e)))
        return g
    return al.anylength("any_number_final_" + kind, lambda: lambda x, th, r, t, mr, mt: ma()._refine_final(x, th, r, t, margin_r=mr, margin_th=mt), ["n"], 1, f64(("x", ("n",)), ("th", ("n",)), ("r", (1, 2)), ("t", (1, 2)), ("mr", ()), ("mt", ())), post, pre, lambda seed: np_refine_oracle(seed, 200), functions=["inverse_ray.merge_area._refine_final"], timeout_ms=30000)


def contracts():
    d = {"cluster_r": clusters(True, 3, 3, 5), "cluster_theta": clusters(False, 3, 3, 5)}
    d["cluster_r4"] = clusters(True, 4, 5, 6)
    d["cluster_theta4"] = clusters(False, 4, 5, 6)
    d["radial_merge2"] = refine_r(2, 2)
    d["radial_merge3"] = refine_r(3, 4)
    d["in_mask"] = in_mask(2, 3, 3)
    d["wrap_merge3"] = merge_final(3)
    d["wrap_merge4"] = merge_final(4)
    for k in ("padding", "plain", "merged"):
        for N in (2, 3): d["final_%s%d" % (k, N)] = refine_final(k, N)
    for n in (2, 3): d["glue%d" % n] = glue(n, 2, 2, None)
    d["glue2_capacity"] = glue(2, 3, 4, 6)
    d["glue3_capacity"] = glue(3, 5, 4, 6)
    for n in (2, 3): d["limb%d" % n] = limb(n, 4)
    d["any_number_cluster_r"] = any_cluster(True, 4, 3)
    d["any_number_cluster_theta"] = any_cluster(False, 4, 3)
    d["any_number_in_mask"] = any_in_mask(3, 4)
    for M in (2, 3):
        for k in range(M + 1): d["any_number_radial_merge%d_pad%d" % (M, k)] = any_refine_r(M, k)
    for kind in ("padding", "plain", "merged"): d["any_number_final_" + kind] = any_final(kind)
    d["execution2"] = execution(2, 250)
    d["execution3"] = execution(3, 150)
    d["capacity"] = capacity
    return d
