from vc.spec import *
from vc.contract import Custom
from vc import jx
from vc.direct import prove_case, merge, rec
import vc.term as tm
import numpy as np
import itertools
import z3
from vc import anylen as al

EXPLAIN = ("Each zero-avoiding helper is proved equal to its documented value for every content of the array, for every pattern of zero and non-zero entries at the listed lengths "
           "(arrays of up to 5 entries, all entries symbolic reals), including empty and full prefixes; all of them also for arrays of any length (first_nonzero and first_zero also along either axis of a matrix) (any_length_*: JAX shape polymorphism, contracts of sort/argmax/min/max/sum, quantified z3); equality of results for different amounts of padding follows from the prefix-only specification.")


def ut():
    import microjax.utils as m
    return m


def patterns(N):
    """(values, precondition, indices of non-zero entries)"""
    for pat in itertools.product([0, 1], repeat=N):
        x = np.empty((N,), dtype=object)
        for i, p in enumerate(pat): x[i] = R("x[%d]" % i) if p else const(0.0)
        nz = [i for i, p in enumerate(pat) if p]
        yield x, [tm.not_(tm.eq(x[i], const(0))) for i in nz], nz


def I_(k): return const(int(k), "I")


def num(f, want, tol=1e-9):
    def o(*x):
        import jax.numpy as jnp
        g = np.asarray(f(*[jnp.asarray(v) for v in x]))
        w = np.asarray(want(*x))
        if g.shape != w.shape or not np.allclose(g, w, rtol=tol, atol=tol): return {"observed": g.tolist(), "expected": w.tolist()}
        return None
    return o


def helper(fname, post, want, Ns=(1, 2, 3, 4, 5), kw=None):
    def mk():
        m = ut()
        f = lambda x: getattr(m, fname)(x, **(kw or {}))

        def run(seed, thorough):
            out = []
            for N in Ns:
                for x, pre, nz in patterns(N):
                    out += prove_case("%s_%d_%s" % (fname, N, "".join("01"[i in nz] for i in range(N))), f, [x], lambda r: post(r, x, nz), pre, num(f, want), seed=seed, function="utils." + fname)
            bad = long_arrays(fname)(seed) if fname in WANT else None
            res = merge(fname, out)
            res.append(rec(fname + "/long_arrays", "refuted" if bad else "bounded-ok", "execution", "random arrays of up to 1500 entries", bad))
            return res
        return Custom(fname, run, functions=["utils." + fname], bounded="utils.%s: lengths %s symbolic, random contents beyond" % (fname, list(Ns)))
    return mk


def s0(r): return r[0][()]


def first_nonzero_post(r, x, nz): return [("index", tm.eq(s0(r), I_(nz[0] if nz else 0)))]
def last_nonzero_post(r, x, nz): return [("index", tm.eq(s0(r), I_(nz[-1] if nz else 0)))]


def first_zero_post(r, x, nz):
    z = [i for i in range(len(x)) if i not in nz]
    return [("index", tm.eq(s0(r), I_(z[0] if z else 0)))]


def disj(fs):
    r = tm.FALSE
    for f in fs: r = tm.or_(r, f)
    return r


def ext_post(sign):
    def post(r, x, nz):
        v = s0(r)
        if not nz: return [("zero_when_empty", tm.eq(v, const(0)))]
        g = [("is_an_entry", disj([tm.eq(v, x[i]) for i in nz]))]
        b = tm.TRUE
        for i in nz: b = tm.and_(b, tm.le(v, x[i]) if sign < 0 else tm.le(x[i], v))
        return g + [("is_extreme", b)]
    return post


def mean_post(r, x, nz):
    if not nz: return [("zero_when_empty", tm.eq(s0(r), const(0)))]
    return [("mean", tm.eq(s0(r) * len(nz), sum((x[i] for i in nz), const(0))))]


def argsort_post(r, x, nz):
    v = r[0]
    N = len(x)
    k = len(nz)
    zs = [i for i in range(N) if i not in nz]
    g = tm.TRUE
    for j in range(k): g = tm.and_(g, disj([tm.eq(v[j], I_(i)) for i in nz]))
    for j in range(k):
        for l in range(j): g = tm.and_(g, tm.not_(tm.eq(v[j], v[l])))
    s = tm.TRUE

    def at(t):
        e = x[nz[-1]]
        for i in reversed(nz[:-1]): e = tm.ite(tm.eq(t, I_(i)), x[i], e)
        return e
    for j in range(1, k): s = tm.and_(s, tm.le(at(v[j - 1]), at(v[j])))
    p = tm.TRUE
    for j, i in enumerate(zs): p = tm.and_(p, tm.eq(v[k + j], I_(i)))
    return [("nonzero_first", g), ("ascending", s), ("zeros_last", p)]


def trapz():
    m = ut()

    def run(seed, thorough):
        import jax.numpy as jnp
        out = []
        for N in (2, 3, 4, 5, 6):
            for k in range(N):
                # filled prefix 0..k; y is zero beyond it, x arbitrary
                for padx in (False, True):
                    x = np.array([R("x[%d]" % i) if i <= k or not padx else const(0.0) for i in range(N)], dtype=object)
                    y = np.array([R("y[%d]" % i) if i <= k else const(0.0) for i in range(N)], dtype=object)
                    f = lambda y, x, k=k: m.trapz_zero_avoiding(y, x, k)

                    def post(r, x=x, y=y, k=k):
                        w = sum(((y[i] + y[i + 1]) * (x[i + 1] - x[i]) / 2 for i in range(k)), const(0))
                        return [("prefix_integral", tm.eq(s0(r), w))]
                    want = lambda y, x, k=k: np.trapezoid(y[:k + 1], x[:k + 1])
                    out += prove_case("trapz_%d_%d_%s" % (N, k, "zero" if padx else "any"), f, [y, x], post, (), num(f, want), seed=seed, function="utils.trapz_zero_avoiding")
                    # traced index
                    ft = lambda y, x, t: m.trapz_zero_avoiding(y, x, t)
                    out += prove_case("trapz_traced_%d_%d" % (N, k), ft, [y, x, A0(const(k, "I"))], post, (), num(lambda y, x, t: m.trapz_zero_avoiding(y, x, t), lambda y, x, t: want(y, x)), seed=seed, function="utils.trapz_zero_avoiding")
        return merge("trapz_zero_avoiding", out)
    return Custom("trapz_zero_avoiding", run, functions=["utils.trapz_zero_avoiding"], bounded="utils.trapz_zero_avoiding: lengths 2..6, every tail index")


def axis_forms():
    m = ut()

    def run(seed, thorough):
        out = []
        for name in ("first_nonzero", "first_zero"):
            for ax in (0, 1):
                for pat in itertools.product([0, 1], repeat=4):
                    a = np.array([[R("x[%d]" % (2 * i + j)) if pat[2 * i + j] else const(0.0) for j in range(2)] for i in range(2)], dtype=object)
                    pre = [tm.not_(tm.eq(t, const(0))) for t in a.ravel() if tm.cv(t) is None]
                    P = np.array(pat).reshape(2, 2)
                    if name == "first_zero": P = 1 - P
                    w = np.argmax(P, axis=ax)
                    f = lambda x, name=name, ax=ax: getattr(m, name)(x, axis=ax)
                    out += prove_case("%s_axis%d" % (name, ax), f, [a], lambda r: [("along_axis", tm.and_(tm.eq(r[0][0], I_(w[0])), tm.eq(r[0][1], I_(w[1]))))], pre,
                                      num(f, lambda x, w=w: w), seed=seed, function="utils." + name)
        return merge("axis", out)
    return Custom("axis", run, functions=["utils.first_nonzero", "utils.first_zero"])


def match(N):
    """greedy nearest-neighbour matching: a permutation, each entry the nearest among those still free"""
    def mk():
        m = ut()
        a, b = jx.symarr("a", (N,), "C"), jx.symarr("b", (N,), "C")
        # distances are the only thing the algorithm may look at: real non-negative symbols
        D = jx.symarr("dist", (N, N), "R")

        def absh(ctx, eqn, ins):
            x = jx.toT(ins[0])
            if x.shape != (N, N): return None
            ctx.__dict__.setdefault("absarg", []).append(x)
            return [D]

        def run(seed, thorough):
            pre = [tm.le(const(0), D[i, j]) for i in range(N) for j in range(N)]

            def want(a, b):
                free, r = list(range(N)), []
                for i in range(N):
                    k = min(free, key=lambda q: abs(b[q] - a[i]))
                    free.remove(k)
                    r.append(k)
                return np.array(r)

            def post(r):
                v = r[0]
                inr = tm.TRUE
                for i in range(N): inr = tm.and_(inr, disj([tm.eq(v[i], I_(j)) for j in range(N)]))
                inj = tm.TRUE
                for i in range(N):
                    for j in range(i): inj = tm.and_(inj, tm.not_(tm.eq(v[i], v[j])))
                near = tm.TRUE
                for i in range(N):
                    for j in range(N):
                        used = disj([tm.eq(v[l], I_(j)) for l in range(i)])
                        for c in range(N): near = tm.and_(near, tm.implies(tm.and_(tm.eq(v[i], I_(c)), tm.not_(used)), tm.le(D[i, c], D[i, j])))
                return [("in_range", inr), ("permutation", inj), ("nearest_free", near)]
            return merge("match_points_%d" % N, prove_case("m", lambda a, b: m.match_points(a, b), [a, b], post, pre, num(lambda a, b: m.match_points(a, b), want), hooks={"prim:abs": absh}, seed=seed, timeout_ms=60000, function="utils.match_points"))
        return Custom("match_points_%d" % N, run, functions=["utils.match_points"])
    return mk


# ------------------------------------------------------------ every length at once
WANT = {"first_nonzero": lambda x: int(np.argmax(x != 0)), "last_nonzero": lambda x: int(np.max(np.nonzero(x)[0])) if np.any(x != 0) else 0, "first_zero": lambda x: int(np.argmax(x == 0)),
        "min_zero_avoiding": lambda x: np.min(x[x != 0]) if np.any(x != 0) else 0.0, "max_zero_avoiding": lambda x: np.max(x[x != 0]) if np.any(x != 0) else 0.0,
        "mean_zero_avoiding": lambda x: np.mean(x[x != 0]) if np.any(x != 0) else 0.0, "sparse_argsort": lambda x: np.argsort(np.where(x != 0, x, np.nan), kind="stable")}


def nonzero(x, i): return x[i].v != 0


def any_first(hit, last):
    def post(it, ins, outs):
        x, k = ins["x"], outs[0][()]
        n = x.dims[0]
        none = it.forall(n, lambda i: al.Not(hit(x, i)))
        others = it.forall(n, lambda i: z3.Implies(i > k if last else i < k, al.Not(hit(x, i))))
        return [("index", al.If(none, k == 0, al.And(it.rng(k, n), hit(x, k), others)))]
    return post


def any_extreme(sign):
    def post(it, ins, outs):
        x, v = ins["x"], outs[0][()]
        n = x.dims[0]
        none = it.forall(n, lambda i: al.Not(nonzero(x, i)))
        fine = al.Not(al.Or(v.nan, v.pi, v.mi))
        return [("zero_when_empty", z3.Implies(none, al.And(fine, v.v == 0))),
                ("is_an_entry", al.Or(none, al.And(fine, it.exists(n, lambda i: al.And(nonzero(x, i), x[i].v == v.v))))),
                ("is_extreme", al.Or(none, it.forall(n, lambda i: z3.Implies(nonzero(x, i), v.v <= x[i].v if sign < 0 else v.v >= x[i].v))))]
    return post


def any_mean(it, ins, outs):
    x, v = ins["x"], outs[0][()]
    n = x.dims[0]
    none = it.forall(n, lambda i: al.Not(nonzero(x, i)))
    total = it.total(lambda i: x[i], n)
    count = it.total(lambda i: al.F(z3.If(nonzero(x, i), z3.RealVal(1), z3.RealVal(0))), n)
    return [("zero_when_empty", z3.Implies(none, al.And(al.Not(v.nan), v.v == 0))), ("mean", al.Or(none, al.And(al.Not(v.nan), v.v * count == total)))]


def any_first_axis(zero, ax):
    def post(it, ins, outs):
        x, o = ins["x"], outs[0]
        d, r = x.dims[ax], x.dims[1 - ax]
        def hit(i, j):
            c = z3.Not(x[(i, j) if ax == 0 else (j, i)].v == 0)
            return z3.Not(c) if zero else c
        row = lambda g: it.forall(r, g)
        some = lambda j: it.exists(d, lambda i: hit(i, j))
        return [("in_range", row(lambda j: it.rng(o[j], d))), ("hit", row(lambda j: z3.Implies(some(j), hit(o[j], j)))),
                ("first", row(lambda j: z3.Implies(some(j), it.forall(d, lambda i: z3.Implies(i < o[j], z3.Not(hit(i, j))))))), ("none", row(lambda j: z3.Or(some(j), o[j] == 0)))]
    return post


def axis_replay(fname, ax):
    def go(seed):
        r = np.random.default_rng(seed)
        for j in range(40):
            v = r.normal(size=tuple(r.integers(1, 40, 2))) * (r.random(tuple(1 for _ in "xy")) < 2)
            v = v * (r.random(v.shape) < r.choice([0.0, 0.05, 0.5, 0.95, 1.0]))
            b = num(lambda x: getattr(ut(), fname)(x, axis=ax), lambda x: np.argmax((x != 0) if fname == "first_nonzero" else (x == 0), axis=ax))(v)
            if b: return dict(b, inputs=v.tolist(), axis=ax, function="utils." + fname)
        return None
    return go


def any_trapz(it, ins, outs):
    x, y, k, v = ins["x"], ins["y"], ins["tail"][()], outs[0][()]
    m = x.dims[0] - 1
    dx, sy = (lambda i: x[i + 1].v - x[i].v), (lambda i: y[i + 1].v + y[i].v)
    area = it.total(lambda i: al.F(z3.If(i < k, dx(i) * sy(i), z3.RealVal(0))), m, [k])
    return [("prefix_integral", al.And(al.Not(v.nan), v.v * 2 == area))]


def any_trapz_pre(it, ins):
    n, k, y = ins["x"].dims[0], ins["tail"][()], ins["y"]
    return [k >= 0, k < n, it.forall(n, lambda i: z3.Implies(i > k, y[i].v == 0))]


def trapz_replay(seed):
    r = np.random.default_rng(seed)
    for j in range(60):
        n = int((r.integers(2, 12), r.integers(12, 1500))[j % 2])
        k = int((r.integers(0, n), 0, n - 1, n - 2)[j // 2 % 4])
        y, x = r.normal(size=n) * (np.arange(n) <= k), np.cumsum(r.random(n))
        b = num(lambda y, x: ut().trapz_zero_avoiding(y, x, k), lambda y, x: np.trapezoid(y[:k + 1], x[:k + 1]))(y, x)
        if b: return dict(b, inputs=[y.tolist(), x.tolist(), k], function="utils.trapz_zero_avoiding")
    return None


def any_trapz_fn():
    m = ut()
    m.len = lambda a: a.shape[0] if hasattr(a, "shape") else len(a)      # len() of an array of symbolic length
    return lambda y, x, t: m.trapz_zero_avoiding(y, x, t)


def any_argsort(it, ins, outs):
    x, o = ins["x"], outs[0]
    n = x.dims[0]
    both = lambda g: it.forall(n, lambda i: it.forall(n, lambda j: g(i, j)))
    return [("in_range", it.forall(n, lambda i: it.rng(o[i], n))), ("permutation", both(lambda i, j: z3.Implies(i != j, o[i] != o[j]))),
            ("zeros_last", both(lambda i, j: z3.Implies(al.And(i < j, nonzero(x, o[j])), nonzero(x, o[i])))),
            ("sorted", both(lambda i, j: z3.Implies(al.And(i < j, nonzero(x, o[j])), x[o[i]].v <= x[o[j]].v)))]


def long_arrays(fname):
    def go(seed):
        r = np.random.default_rng(seed)
        for j in range(36):
            n = int((r.integers(1, 200), r.integers(200, 1500), 2 ** r.integers(1, 11) + r.integers(-1, 2))[j % 3])
            v = r.normal(size=n)
            v = (v, abs(v), -abs(v))[j // 3 % 3] * (r.random(n) < r.choice([0.0, 0.1, 0.5, 1.0]))
            b = num(getattr(ut(), fname), WANT[fname])(v)
            if b: return dict(b, inputs=v.tolist(), function="utils." + fname)
        return None
    return go


def contracts():
    nzmin = lambda x: np.min(x[x != 0]) if np.any(x != 0) else 0.0
    nzmax = lambda x: np.max(x[x != 0]) if np.any(x != 0) else 0.0
    d = {"first_nonzero": helper("first_nonzero", first_nonzero_post, lambda x: int(np.argmax(x != 0))),
         "last_nonzero": helper("last_nonzero", last_nonzero_post, lambda x: int(np.max(np.nonzero(x)[0])) if np.any(x != 0) else 0),
         "first_zero": helper("first_zero", first_zero_post, lambda x: int(np.argmax(x == 0))),
         "min_zero_avoiding": helper("min_zero_avoiding", ext_post(-1), nzmin, (1, 2, 3, 4)),
         "max_zero_avoiding": helper("max_zero_avoiding", ext_post(1), nzmax, (1, 2, 3, 4)),
         "mean_zero_avoiding": helper("mean_zero_avoiding", mean_post, lambda x: np.mean(x[x != 0]) if np.any(x != 0) else 0.0, (1, 2, 3, 4)),
         "sparse_argsort": helper("sparse_argsort", argsort_post, lambda x: np.argsort(np.where(x != 0, x, np.nan), kind="stable"), (1, 2, 3, 4)),
         "trapz": trapz, "axis": axis_forms, "match_2": match(2), "match_3": match(3)}
    posts = {"first_nonzero": any_first(lambda x, i: nonzero(x, i), False), "last_nonzero": any_first(lambda x, i: nonzero(x, i), True), "first_zero": any_first(lambda x, i: al.Not(nonzero(x, i)), False),
             "min_zero_avoiding": any_extreme(-1), "max_zero_avoiding": any_extreme(1), "mean_zero_avoiding": any_mean, "sparse_argsort": any_argsort}
    for f, post in posts.items():
        d["any_length_" + f] = al.anylength("any_length_" + f, (lambda f: lambda: lambda x: getattr(ut(), f)(x))(f), ["n"], 1, [("x", ("n",), np.float64)], post, replay=long_arrays(f), functions=["utils." + f])
    d["any_length_trapz_zero_avoiding"] = al.anylength("any_length_trapz_zero_avoiding", any_trapz_fn, ["n"], 2, [("y", ("n",), np.float64), ("x", ("n",), np.float64), ("tail", (), np.int64)], any_trapz,
                                                       pre=any_trapz_pre, replay=trapz_replay, functions=["utils.trapz_zero_avoiding"])
    for f in ("first_nonzero", "first_zero"):
        for ax in (0, 1):
            d["any_length_%s_axis%d" % (f, ax)] = al.anylength("any_length_%s_axis%d" % (f, ax), (lambda f, ax: lambda: lambda x: getattr(ut(), f)(x, axis=ax))(f, ax), ["m", "n"], 1, [("x", ("m", "n"), np.float64)],
                                                               any_first_axis(f == "first_zero", ax), replay=axis_replay(f, ax), functions=["utils." + f])
    return d
