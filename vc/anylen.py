"""Obligations for arrays of *any* length.

The real function is traced with symbolic dimensions (JAX shape polymorphism), so one jaxpr stands for every
length.  An array becomes a function from indices to z3 terms; the primitives that look along a symbolic axis are
replaced by their contracts (sort = some permutation that orders the keys, argmax = first index of the largest
entry, reduce_min = an entry below all others, ...), and a postcondition quantified over the indices is proved by z3.

What cannot be expressed this way (another primitive, a Python decision on the length, a solver that gives up) is
reported as "not decided for any length": the fixed-length obligations of the same contract then decide alone."""
import time
import itertools
import numpy as np
import z3
import jax
import jax.numpy as jnp
from .direct import rec
from .contract import Custom


class OutOfReach(Exception): pass


class F:
    """an extended real: value, and the conditions under which it is NaN, +inf, -inf (False = never)"""
    __slots__ = ("v", "nan", "pi", "mi")

    def __init__(self, v, nan=False, pi=False, mi=False): self.v, self.nan, self.pi, self.mi = v, nan, pi, mi

    @property
    def plain(self): return self.nan is False and self.pi is False and self.mi is False


def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a): return True
    return z3.Or(*a) if len(a) > 1 else a[0] if a else False


def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a): return False
    return z3.And(*a) if len(a) > 1 else a[0] if a else True


def Not(a): return (not a) if isinstance(a, bool) else z3.Not(a)


def If(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, F):
        return F(z3.If(c, a.v, b.v), flag(c, a.nan, b.nan), flag(c, a.pi, b.pi), flag(c, a.mi, b.mi))
    if isinstance(a, bool) and isinstance(b, bool): return a if a == b else (c if a else Not(c))
    if isinstance(a, (int,)) and isinstance(b, int) and not isinstance(a, bool): a, b = z3.IntVal(a), z3.IntVal(b)
    if isinstance(a, bool): a = z3.BoolVal(a)
    if isinstance(b, bool): b = z3.BoolVal(b)
    return z3.If(c, a, b)


def flag(c, a, b): return False if a is False and b is False else Or(And(c, a), And(Not(c), b))


def real(x): return F(x if isinstance(x, z3.ExprRef) else z3.RealVal(repr(float(x)) if not float(x).is_integer() else int(x)))


def const(x, kind):
    if kind == "b": return bool(x)
    if kind in "iu": return int(x)
    x = float(x)
    if np.isnan(x): return F(z3.RealVal(0), True)
    if np.isinf(x): return F(z3.RealVal(0), False, x > 0, x < 0)
    return real(x)


def lt(a, b):
    if not isinstance(a, F): return a < b
    if a.plain and b.plain: return a.v < b.v
    fin = And(Not(a.pi), Not(a.mi), Not(b.pi), Not(b.mi), a.v < b.v)
    return And(Not(a.nan), Not(b.nan), Or(fin, And(a.mi, Not(b.mi)), And(b.pi, Not(a.pi))))


def eq(a, b):
    if not isinstance(a, F): return a == b
    if a.plain and b.plain: return a.v == b.v
    fin = And(Not(a.pi), Not(a.mi), Not(b.pi), Not(b.mi), a.v == b.v)
    return And(Not(a.nan), Not(b.nan), Or(fin, And(a.mi, b.mi), And(b.pi, a.pi)))


def le(a, b): return Or(lt(a, b), eq(a, b))


def finite(f):
    def g(*a):
        if not isinstance(a[0], F): return f(*a)
        if any(x.pi is not False or x.mi is not False for x in a): raise OutOfReach("arithmetic with infinities")
        return F(f(*[x.v for x in a]), Or(*[x.nan for x in a]))
    return g


def inf_add(a, b):
    if not isinstance(a, F): return a + b
    if Or(a.pi, b.pi) is not False and Or(a.mi, b.mi) is not False: raise OutOfReach("sum of both infinities")
    return F(a.v + b.v, Or(a.nan, b.nan), Or(a.pi, b.pi), Or(a.mi, b.mi))


def neg(a): return F(-a.v, a.nan, a.mi, a.pi) if isinstance(a, F) else -a
def absv(a): return F(z3.If(a.v < 0, -a.v, a.v), a.nan, Or(a.pi, a.mi), False) if isinstance(a, F) else If(a < 0, -a, a)


def minmax(small):
    def g(a, b):
        if isinstance(a, F) and (a.nan is not False or b.nan is not False): raise OutOfReach("minimum of NaN")
        return If(le(a, b), a, b) if small else If(le(b, a), a, b)
    return g


class A:
    def __init__(self, dims, kind, fn): self.dims, self.kind, self.fn = tuple(dims), kind, fn

    def __getitem__(self, i): return self.fn(*(i if isinstance(i, tuple) else (i,)))


def kindof(aval):
    k = np.dtype(aval.dtype).kind
    if k not in "biuf": raise OutOfReach("dtype %s" % aval.dtype)
    if k == "f" and np.dtype(aval.dtype).itemsize < 8: raise OutOfReach("dtype %s" % aval.dtype)
    return "i" if k == "u" else k


class Interp:
    def __init__(self, env):
        self.ax, self.n, self.dimenv, self.sums, self.used = [], 0, env, [], set()
        self.sides, self.side_goals, self.split = [], [], []

    def fresh(self, p, sort=z3.IntSort()):
        self.n += 1
        return z3.Const("%s!%d" % (p, self.n), sort)

    def func(self, p, *s):
        self.n += 1
        return z3.Function("%s!%d" % (p, self.n), *s)

    def dim(self, d):
        if isinstance(d, (int, np.integer)): return int(d)
        v = d._evaluate(self.dimenv)
        return int(v) if isinstance(v, (int, np.integer)) else z3.simplify(v)

    def dims(self, aval): return tuple(self.dim(d) for d in aval.shape)

    def rng(self, i, d): return And(0 <= i, i < d)

    def forall(self, d, body):
        """conjunction over the indices 0 <= i < d"""
        if isinstance(d, int): return And(*[body(i) for i in range(d)])
        i = self.fresh("i")
        b = body(i)
        return z3.ForAll([i], z3.Implies(self.rng(i, d), b)) if not isinstance(b, bool) else b

    def exists(self, d, body): return Not(self.forall(d, lambda i: Not(body(i))))

    # ------------------------------------------------------------ jaxprs
    def run(self, jaxpr, consts, args):
        env = {}

        def get(v):
            if hasattr(v, "val"): return self.lit(v.val, v.aval)
            return env[v]
        for v, c in zip(jaxpr.constvars, consts): env[v] = self.lit(c, v.aval)
        for v, a in zip(jaxpr.invars, args): env[v] = a
        for e in jaxpr.eqns:
            outs = self.eqn(e, [get(v) for v in e.invars])
            for v, o in zip(e.outvars, outs): env[v] = o
        return [get(v) for v in jaxpr.outvars]

    def lit(self, val, aval):
        v, k = np.asarray(val), kindof(aval)
        if v.ndim == 0: return A((), k, lambda v=v: const(v[()], k))
        def fn(*i):
            if all(isinstance(j, (int, np.integer)) for j in i): return const(v[tuple(i)], k)
            r = None
            for j in np.ndindex(*v.shape):
                c = And(*[i[a] == j[a] for a in range(v.ndim)])
                r = const(v[j], k) if r is None else If(c, const(v[j], k), r)
            return r
        return A(v.shape, k, fn)

    def eqn(self, e, a):
        op, p, ov = e.primitive.name, e.params, e.outvars
        if op in ("pjit", "closed_call", "core_call", "custom_jvp_call", "custom_vjp_call", "checkpoint", "remat2"):
            j = p.get("jaxpr") or p.get("call_jaxpr")
            if p.get("name") in BINS and self.sides: return [self.bin_search(e, a, self.sides.pop(0))]
            return self.run(getattr(j, "jaxpr", j), getattr(j, "consts", ()), a)
        h = getattr(self, "p_" + op.replace("-", "_"), None)
        if h is None: raise OutOfReach("primitive " + op)
        self.used.add(op)
        r = h(e, a)
        return r if isinstance(r, list) else [r]

    def out(self, e, fn, k=0): return A(self.dims(e.outvars[k].aval), kindof(e.outvars[k].aval), fn)

    def p_cond(self, e, a):
        c, ops = a[0][()], a[1:]
        res = [self.run(b.jaxpr, b.consts, ops) for b in e.params["branches"]]
        if len(res) != 2: raise OutOfReach("switch")
        if a[0].kind == "i": c = c != 0 if not isinstance(c, int) else bool(c)
        return [self.out(e, lambda *i, x=x, y=y: If(c, y[i], x[i]), k) for k, (x, y) in enumerate(zip(*res))]

    def p_dim_as_value(self, e, a):
        d = self.dim(e.params["dim"])
        return self.out(e, lambda: d)

    def p_convert_element_type(self, e, a):
        src, dst = a[0].kind, kindof(e.outvars[0].aval)
        self.width(e.outvars[0].aval)
        return self.out(e, lambda *i: cast(a[0][i], src, dst))

    def width(self, aval):
        d = np.dtype(aval.dtype)
        if d.kind in "iu" and d.itemsize < 4: raise OutOfReach("dtype %s" % d)

    def p_broadcast_in_dim(self, e, a):
        bd, x = e.params["broadcast_dimensions"], a[0]
        return self.out(e, lambda *i: x[tuple(0 if x.dims[k] == 1 and isinstance(x.dims[k], int) else i[d] for k, d in enumerate(bd))])

    def p_reshape(self, e, a):
        x, do = a[0], self.dims(e.outvars[0].aval)
        one = lambda d: isinstance(d, int) and d == 1
        si, so = [k for k, d in enumerate(x.dims) if not one(d)], [k for k, d in enumerate(do) if not one(d)]
        if len(si) == len(so) and all(same(x.dims[p], do[q]) for p, q in zip(si, so)):
            return self.out(e, lambda *i: x[tuple(i[so[si.index(k)]] if k in si else 0 for k in range(len(x.dims)))])
        if all(isinstance(d, int) for d in x.dims + do):
            return self.out(e, lambda *i: x[tuple(int(t) for t in np.unravel_index(np.ravel_multi_index(i, do), x.dims))])
        raise OutOfReach("reshape")

    def p_squeeze(self, e, a):
        x, dr = a[0], set(e.params["dimensions"])
        def fn(*i):
            it = iter(i)
            return x[tuple(0 if k in dr else next(it) for k in range(len(x.dims)))]
        return self.out(e, fn)

    def p_expand_dims(self, e, a):
        return self.p_reshape(e, a)

    def p_transpose(self, e, a):
        pm = e.params["permutation"]
        return self.out(e, lambda *i: a[0][tuple(i[pm.index(k)] for k in range(len(pm)))])

    def p_copy(self, e, a): return a[0]
    def p_copy_p(self, e, a): return a[0]
    def p_stop_gradient(self, e, a): return a[0]
    def p_device_put(self, e, a): return list(a)

    def p_slice(self, e, a):
        st, sr = e.params["start_indices"], e.params["strides"] or (1,) * len(e.params["start_indices"])
        st = [self.dim(s) for s in st]
        return self.out(e, lambda *i: a[0][tuple(s + j * r for s, j, r in zip(st, i, sr))])

    def p_rev(self, e, a):
        x, d = a[0], e.params["dimensions"]
        return self.out(e, lambda *i: x[tuple(x.dims[k] - 1 - j if k in d else j for k, j in enumerate(i))])

    def p_concatenate(self, e, a):
        d = e.params["dimension"]
        def fn(*i):
            off, r = [], 0
            for x in a:
                off.append(r)
                r = r + x.dims[d]
            at = lambda x, o: x[tuple(j - o if k == d else j for k, j in enumerate(i))]
            if isinstance(i[d], int) and all(isinstance(o, int) for o in off):
                k = max(k for k in range(len(a)) if off[k] <= i[d])
                return at(a[k], off[k])
            v = at(a[-1], off[-1])
            for x, o, nx in reversed(list(zip(a[:-1], off[:-1], off[1:]))): v = If(i[d] < nx, at(x, o), v)
            return v
        return self.out(e, fn)

    def p_iota(self, e, a):
        d, k = e.params["dimension"], kindof(e.outvars[0].aval)
        return self.out(e, lambda *i: cast(i[d], "i", k))

    def p_select_n(self, e, a):
        if len(a) != 3: raise OutOfReach("select_n")
        c, od = a[0], self.dims(e.outvars[0].aval)
        return self.out(e, lambda *i: If(tobool(spread(c, i, od), c.kind), spread(a[2], i, od), spread(a[1], i, od)))

    def p_gather(self, e, a):
        x, ix, dn = a[0], a[1], e.params["dimension_numbers"]
        if len(x.dims) == 1 and dn.offset_dims == (0,) and dn.collapsed_slice_dims == () and ix.dims == (1,):       # one window
            z = self.dim(e.params["slice_sizes"][0])
            if "FILL" in str(e.params["mode"]): raise OutOfReach("gather fill")
            st = clamp(ix[0], x.dims[0] - z + 1)
            return self.out(e, lambda i: x[(st + i,)])
        if len(x.dims) != 1 or dn.collapsed_slice_dims != (0,) or dn.start_index_map != (0,) or e.params["slice_sizes"] != (1,): raise OutOfReach("gather")
        mode = e.params["mode"]
        def fn(*i):
            k = ix[tuple(i) + (0,)]
            if "FILL" in str(mode): raise OutOfReach("gather fill")
            return x[(clamp(k, x.dims[0]),)]
        return self.out(e, fn)

    def p_dynamic_slice(self, e, a):
        x, st = a[0], [s[()] for s in a[1:]]
        sz = [self.dim(s) for s in e.params["slice_sizes"]]
        st = [clamp(s, d - z + 1) for s, d, z in zip(st, x.dims, sz)]
        return self.out(e, lambda *i: x[tuple(s + j for s, j in zip(st, i))])

    def p_scatter(self, e, a):
        x, ix, u, dn = a[0], a[1], a[2], e.params["dimension_numbers"]
        if not (len(x.dims) == 2 and ix.dims == (1,) and dn.inserted_window_dims == (0,) and dn.scatter_dims_to_operand_dims == (0,) and tuple(dn.update_window_dims) == (0,)): raise OutOfReach("scatter")
        k = ix[0]
        return self.out(e, lambda i, j: If(i == k, u[j], x[i, j]))

    def bin_search(self, e, a, left):
        """digitize/searchsorted over ascending edges (ascent is an obligation)"""
        x, ed = sorted(a, key=lambda t: all(isinstance(d, int) for d in t.dims))
        if left is None or len(ed.dims) != 1 or len(x.dims) != 1 or not isinstance(ed.dims[0], int): raise OutOfReach("bin search")
        m = ed.dims[0]
        self.side_goals.append(("edges_ascend", And(*[le(ed[j], ed[j + 1]) for j in range(m - 1)])))
        k = self.func("bin", z3.IntSort(), z3.IntSort())
        i = self.fresh("i")
        above = [lt(ed[j], x[i]) if left else le(ed[j], x[i]) for j in range(m)]
        body = And(0 <= k(i), k(i) <= m, *[z3.Implies(k(i) > j, above[j]) for j in range(m)], *[z3.Implies(k(i) <= j, Not(above[j])) for j in range(m)])
        self.ax.append(z3.ForAll([i], z3.Implies(self.rng(i, x.dims[0]), body), patterns=[k(i)]))
        return self.out(e, lambda i: k(z3.IntVal(i) if isinstance(i, int) else i))

    def p_scatter_add(self, e, a):
        x, ix, u, dn = a[0], a[1], a[2], e.params["dimension_numbers"]
        if not (len(x.dims) == 1 and len(ix.dims) == 2 and dn.inserted_window_dims == (0,) and dn.scatter_dims_to_operand_dims == (0,) and not dn.update_window_dims and isinstance(x.dims[0], int)): raise OutOfReach("scatter-add")
        d = ix.dims[0]
        memo = {}

        def fn(b):
            if b not in memo:
                val = lambda i: u[i].v if isinstance(u[i], F) else z3.ToReal(u[i]) if not isinstance(u[i], int) else z3.RealVal(u[i])
                S = self.total(lambda i: F(z3.If(ix[i, 0] == b, val(i), z3.RealVal(0))), d)
                if x.kind == "f": memo[b] = F(x[b].v + S)
                else:
                    r = self.fresh("count")
                    self.ax.append(z3.ToReal(r) == S)
                    memo[b] = x[b] + r
                    self.split.append(r > 0)
            return memo[b]
        o = self.out(e, fn)
        for b in range(x.dims[0]): o[b]
        return o

    # --------------------------------------------------- along an axis
    def reduce(self, e, x, symbolic, fold):
        axes = e.params["axes"]
        keep = [k for k in range(len(x.dims)) if k not in axes]
        cax = [k for k in axes if isinstance(x.dims[k], int)]
        sax = [k for k in axes if k not in cax]
        if len(sax) > 1: raise OutOfReach("reduction over two symbolic axes")
        if sax and any(not isinstance(x.dims[k], int) for k in keep): raise OutOfReach("reduction of a symbolic by symbolic array")
        memo = {}

        def fn(*i):
            if sax and i in memo: return memo[i]
            parts = []
            for c in itertools.product(*[range(x.dims[k]) for k in cax]):
                ix = dict(zip(keep, i))
                ix.update(zip(cax, c))
                if sax: parts.append(symbolic(lambda j, ix=ix: x[tuple(j if k == sax[0] else ix[k] for k in range(len(x.dims)))], x.dims[sax[0]]))
                else: parts.append(x[tuple(ix[k] for k in range(len(x.dims)))])
            r = parts[0]
            for q in parts[1:]: r = fold(r, q)
            if sax: memo[i] = r
            return r
        o = self.out(e, fn)
        if sax:
            for i in np.ndindex(*o.dims): o[tuple(int(t) for t in i)]
        return o

    def need(self, d):
        """the axioms below hold for a non-empty axis"""
        return 0 < d

    def p_reduce_or(self, e, a):
        def sym(f, d):
            w, c = self.fresh("w"), self.fresh("any", z3.BoolSort())
            self.ax += [z3.Implies(c, And(self.rng(w, d), f(w))), z3.Implies(z3.Not(c), self.forall(d, lambda i: Not(f(i))))]
            return c
        return self.reduce(e, a[0], sym, Or)

    def p_reduce_and(self, e, a):
        def sym(f, d):
            w, c = self.fresh("w"), self.fresh("all", z3.BoolSort())
            self.ax += [z3.Implies(z3.Not(c), And(self.rng(w, d), Not(f(w)))), z3.Implies(c, self.forall(d, f))]
            return c
        return self.reduce(e, a[0], sym, And)

    def never(self, v):
        """drop infinities that the facts so far exclude"""
        if not isinstance(v, F): return v
        fl = [False if c is False or check(self, Not(c), 1500)[0] == "unsat" else c for c in (v.pi, v.mi)]
        return F(v.v, v.nan, *fl)

    def extreme(self, small):
        def sym(f, d):
            w = self.fresh("w")
            v = f(w)
            if isinstance(v, F) and v.nan is not False: raise OutOfReach("extreme of NaN")
            g = lambda v=v: self.never(v)
            self.ax.append(z3.Implies(self.need(d), And(self.rng(w, d), self.forall(d, lambda i: le(v, f(i)) if small else le(f(i), v)))))
            return g()
        return sym

    def p_reduce_min(self, e, a): return self.reduce(e, a[0], self.extreme(True), minmax(True))
    def p_reduce_max(self, e, a): return self.reduce(e, a[0], self.extreme(False), minmax(False))

    def first_extreme(self, e, x, before, up):
        (ax,) = e.params["axes"]
        d = x.dims[ax]
        num = lambda v: z3.If(v, 1, 0) if isinstance(v, z3.BoolRef) else int(v) if isinstance(v, bool) else v

        def sym(f, d):
            k = self.fresh("first")
            if x.kind == "b":
                if not up: raise OutOfReach("argmin of booleans")
                self.ax.append(z3.Implies(self.need(d), And(self.rng(k, d), self.forall(d, lambda i: And(z3.Implies(f(i), f(k)), z3.Implies(i < k, And(f(k), Not(f(i)))))))))
                return k
            fk = num(f(k))
            if isinstance(fk, F) and fk.nan is not False: raise OutOfReach("argmax of NaN")
            self.ax.append(z3.Implies(self.need(d), And(self.rng(k, d), self.forall(d, lambda i: And(Not(before(num(f(i)), fk)), z3.Implies(i < k, before(fk, num(f(i)))))))))
            return k
        if len(x.dims) == 2 and x.kind == "b" and up:         # one position per entry of the other axis
            o = x.dims[1 - ax]
            K, i, j = self.func("first", z3.IntSort(), z3.IntSort()), self.fresh("i"), self.fresh("j")
            at = lambda j, i: x[(i, j) if ax == 0 else (j, i)]
            self.ax.append(z3.ForAll([j], z3.Implies(And(self.rng(j, o), self.need(d)), self.rng(K(j), d)), patterns=[K(j)]))
            self.ax.append(z3.ForAll([j, i], z3.Implies(And(self.rng(j, o), self.rng(i, d)), And(z3.Implies(at(j, i), at(j, K(j))), z3.Implies(i < K(j), And(at(j, K(j)), Not(at(j, i))))))))
            return self.out(e, lambda j: K(z3.IntVal(j) if isinstance(j, int) else j))
        if len(x.dims) != 1 or isinstance(d, int): raise OutOfReach("argmax")
        v = sym(lambda j: x[j], d)
        return self.out(e, lambda: v)

    def p_argmax(self, e, a): return self.first_extreme(e, a[0], lambda x, y: lt(y, x), True)
    def p_argmin(self, e, a): return self.first_extreme(e, a[0], lambda x, y: lt(x, y), False)

    def total(self, f, d, points=()):
        """the sum of f over 0 <= i < d; sums are related by the lemmas: equal summands give equal sums (or differ by the
        summands at the one index of `points` where they differ), and a sum of
        non-negative terms is non-negative and vanishes only if every term does"""
        S = self.fresh("sum", z3.RealSort())
        g = lambda i: f(i).v if isinstance(f(i), F) else z3.ToReal(f(i)) if not isinstance(f(i), int) else z3.RealVal(f(i))
        for T, h, c in self.sums:
            if same(c, d):
                w = self.fresh("w")
                self.ax.append(z3.Or(And(self.rng(w, d), g(w) != h(w)), S == T))
                for k in points:        # summands that agree except at index k
                    w = self.fresh("w")
                    self.ax.append(z3.Or(Not(self.rng(k, d)), And(self.rng(w, d), w != k, g(w) != h(w)), S - T == g(k) - h(k)))
        w = self.fresh("w")
        self.ax.append(z3.Or(And(self.rng(w, d), g(w) < 0), z3.And(S >= 0, z3.Or(S > 0, self.forall(d, lambda i: g(i) == 0)))))
        u = self.fresh("w")
        self.ax.append(z3.Or(S == 0, And(self.rng(u, d), g(u) != 0)))          # a non-zero sum has a non-zero term
        self.sums.append((S, g, d))
        return S

    def p_reduce_sum(self, e, a):
        x = a[0]
        if len(x.dims) != 1: raise OutOfReach("sum")
        d = x.dims[0]
        i = self.fresh("i")
        v = x[i]
        if isinstance(v, F) and (v.pi is not False or v.mi is not False): raise OutOfReach("sum of infinities")
        nan = False
        if isinstance(v, F) and v.nan is not False:
            nan = self.fresh("nan", z3.BoolSort())
            w = self.fresh("w")
            self.ax += [z3.Implies(nan, And(self.rng(w, d), x[w].nan)), z3.Implies(z3.Not(nan), self.forall(d, lambda i: Not(x[i].nan)))]
        S = self.total(lambda i: x[i], d)
        if x.kind == "f": r = F(S, nan)
        else:
            r = self.fresh("isum")
            self.ax.append(z3.ToReal(r) == S)
        return self.out(e, lambda: r)

    def p_sort(self, e, a):
        p = e.params
        if p["num_keys"] != 1 or len(a[0].dims) != 1: raise OutOfReach("sort")
        key, d = a[0], a[0].dims[0]
        if isinstance(d, int):
            rows = [[x[i] for x in a] for i in range(d)]
            if isinstance(rows[0][0], F) and any(r[0].nan is not False for r in rows): raise OutOfReach("sort of NaN")
            for n in range(d):
                for i in range(d - 1 - n):
                    sw = lt(rows[i + 1][0], rows[i][0])
                    rows[i], rows[i + 1] = [[If(sw, q, p) for p, q in zip(*r)] for r in ((rows[i], rows[i + 1]), (rows[i + 1], rows[i]))]
            return [self.out(e, lambda i, k=k: rows[i][k], k) for k in range(len(a))]
        P, Q = self.func("perm", z3.IntSort(), z3.IntSort()), self.func("inv", z3.IntSort(), z3.IntSort())
        i = self.fresh("i")
        self.ax.append(z3.ForAll([i], z3.Implies(self.rng(i, d), z3.And(self.rng(P(i), d), Q(P(i)) == i)), patterns=[P(i)]))
        self.ax.append(z3.ForAll([i], z3.Implies(self.rng(i, d), z3.And(self.rng(Q(i), d), P(Q(i)) == i)), patterns=[Q(i)]))
        self.perms = getattr(self, "perms", []) + [(P, Q, d)]

        def before(u, v, iu, iv):
            x, y = key[u], key[v]
            tie = And(iu < iv) if p["is_stable"] else True
            if not isinstance(x, F) or x.nan is False: return Or(lt(x, y), And(eq(x, y), tie))
            return Or(And(Not(x.nan), y.nan), lt(x, y), And(Or(eq(x, y), And(x.nan, y.nan)), tie))
        j = self.fresh("j")
        self.ax.append(z3.ForAll([i, j], z3.Implies(And(0 <= i, i < j, j < d), before(P(i), P(j), P(i), P(j))), patterns=[z3.MultiPattern(P(i), P(j))]))
        return [self.out(e, lambda i, x=x: x[P(i)] if not isinstance(i, int) else x[P(z3.IntVal(i))], k) for k, x in enumerate(a)]


def clamp(k, d):
    if isinstance(k, int) and isinstance(d, int): return min(max(k, 0), d - 1)
    k = z3.IntVal(k) if isinstance(k, int) else k
    return z3.If(k < 0, 0, z3.If(k >= d, d - 1, k))


def same(a, b):
    if isinstance(a, int) or isinstance(b, int): return isinstance(a, int) and isinstance(b, int) and a == b
    return z3.is_true(z3.simplify(a == b))


def tobool(v, k): return v if k == "b" else (v != 0 if not isinstance(v, int) else v != 0)


def cast(v, src, dst):
    if src == dst: return v
    if dst == "b": return Not(eq(v, real(0))) if src == "f" else (v != 0)
    if src == "b" and dst == "i": return int(v) if isinstance(v, bool) else z3.If(v, 1, 0)
    if src == "b": return real(int(v)) if isinstance(v, bool) else F(z3.If(v, z3.RealVal(1), z3.RealVal(0)))
    if src == "i" and dst == "f": return real(v) if isinstance(v, int) else F(z3.ToReal(v))
    raise OutOfReach("cast %s to %s" % (src, dst))


def num(v):  # booleans as numbers are never compared with < in the code under contract
    return v


def elementwise(f, want=None):
    def h(self, e, a):
        od = self.dims(e.outvars[0].aval)
        return self.out(e, lambda *i: f(*[spread(x, i, od) for x in a]))
    return h


def spread(x, i, od):
    """entry i of an operand whose dimensions of size one are repeated to those of the result"""
    if not x.dims: return x[()]
    return x[tuple(0 if isinstance(d, int) and d == 1 and not (isinstance(o, int) and o == 1) else j for d, o, j in zip(x.dims, od, i))]


def bits(fb):
    def f(*a):
        if not all(isinstance(x, (bool, z3.BoolRef)) for x in a): raise OutOfReach("integer bit operation")
        return fb(*a)
    return f


def square(a): return a * a


def times(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, z3.ExprRef) and z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_rational_value(x.arg(1)) and z3.is_rational_value(x.arg(2)): return z3.If(x.arg(0), x.arg(1) * y, x.arg(2) * y)
    return a * b


for nm, f in {"add": inf_add, "sub": lambda a, b: inf_add(a, neg(b)), "mul": finite(times), "neg": neg, "abs": absv, "lt": lt, "le": le, "gt": lambda a, b: lt(b, a),
              "ge": lambda a, b: le(b, a), "eq": eq, "ne": lambda a, b: Not(eq(a, b)), "max": minmax(False), "min": minmax(True), "and": bits(And), "or": bits(Or), "not": bits(Not),
              "square": finite(square), "is_finite": lambda a: And(Not(a.nan), Not(a.pi), Not(a.mi))}.items():
    setattr(Interp, "p_" + nm, elementwise(f))


def div(a, b):
    if not isinstance(a, F): raise OutOfReach("integer division")
    if b.pi is not False or b.mi is not False or a.pi is not False or a.mi is not False: raise OutOfReach("division of infinities")
    return F(a.v / b.v, Or(a.nan, b.nan), False, False)


Interp.p_div = elementwise(div)
Interp.p_eq = elementwise(lambda a, b: (a == b) if not (isinstance(a, bool) or isinstance(b, bool)) or not isinstance(a, z3.BoolRef) else a == z3.BoolVal(b) if isinstance(b, bool) else a == b)
_beq = lambda a, b: eq(a, b) if isinstance(a, F) else ((z3.BoolVal(a) if isinstance(a, bool) else a) == (z3.BoolVal(b) if isinstance(b, bool) else b) if isinstance(a, (bool, z3.BoolRef)) else a == b)
Interp.p_eq = elementwise(_beq)
Interp.p_ne = elementwise(lambda a, b: Not(_beq(a, b)) if isinstance(_beq(a, b), (bool, z3.ExprRef)) else a != b)


def check_cases(it, goal, timeout_ms):
    """one query per pattern of empty and non-empty counts"""
    if not 0 < len(it.split) <= 8: return check(it, goal, timeout_ms)
    base = it.ax
    try:
        for bits_ in itertools.product((True, False), repeat=len(it.split)):
            it.ax = base + [c if b else z3.Not(c) for c, b in zip(it.split, bits_)]
            st, model = check(it, goal, timeout_ms)
            if st != "unsat": return st, model
        return "unsat", None
    finally: it.ax = base


def symbolic_dims(text, constraints):
    from jax._src.export import shape_poly, shape_poly_decision  # noqa: F401  (the second registers the decision procedure)
    return shape_poly.symbolic_shape(text, constraints=constraints)


BINS = ("digitize", "searchsorted")


def find_bins(jaxpr, out):
    for e in jaxpr.eqns:
        if e.primitive.name == "pjit" and e.params.get("name") in BINS: out.append(e)
        else:
            for v in e.params.values():
                for j in v if isinstance(v, (list, tuple)) else [v]:
                    j = getattr(j, "jaxpr", j)
                    if hasattr(j, "eqns"): find_bins(j, out)
    return out


def trace(fn, dims, lower, specs, pre=None, side=None, at=None):
    """specs: list of (name, shape with dimension names or ints, dtype); returns (interpreter, inputs, outputs);
    at gives the dimensions values instead of leaving them symbolic"""
    sd = at or dict(zip(dims, symbolic_dims(",".join(dims), ["%s>=%d" % (d, lower) for d in dims])))
    zd = at or {d: z3.Int(d) for d in dims}
    args = [jax.ShapeDtypeStruct(tuple(sd.get(k, k) for k in shp), dt) for _, shp, dt in specs]
    try: cj = jax.make_jaxpr(fn)(*args)
    except OutOfReach: raise
    except Exception as e: raise OutOfReach("no trace for a symbolic length: %s" % type(e).__name__)
    it = Interp(zd)
    if at is None: it.ax += [z >= lower for z in zd.values()]
    ins = {}
    if side is not None:
        es = find_bins(jax.make_jaxpr(fn)(*[jax.ShapeDtypeStruct(tuple(3 if k in sd else k for k in shp), dt) for _, shp, dt in specs]).jaxpr, [])
        pos = lambda e: (0, 1) if e.invars[0].aval.shape == (3,) else (1, 0)
        it.sides = [side(e, *pos(e)) for e in es]
    for nm, shp, dt in specs:
        so = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[np.dtype(dt).kind]
        k = np.dtype(dt).kind
        f = z3.Function(nm, *([z3.IntSort()] * len(shp)), so) if shp else z3.Const(nm, so)
        wrapf = (lambda f, k: lambda *i: (lambda t: F(t) if k == "f" else t)(f(*i) if i else f))(f, k)
        ins[nm] = A(tuple(zd.get(d, d) for d in shp), k, wrapf)
    if pre is not None: it.ax += pre(it, ins)
    outs = it.run(cj.jaxpr, cj.consts, [ins[nm] for nm, _, _ in specs])
    return it, ins, outs


def int_consts(fs):
    out, seen, todo = [], set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): todo.append(t.body())
        elif z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == z3.IntSort(): out.append(t)
        else: todo += t.children()
    return out


def check(it, goal, timeout_ms=15000):
    """is goal implied by the contracts of the primitives?"""
    g = z3.Goal()
    g.add(*[x for x in it.ax if x is not True], z3.Not(goal) if not isinstance(goal, bool) else z3.BoolVal(not goal))
    fs = [f for sub in z3.Tactic("nnf")(g) for f in sub]          # skolem constants become visible
    perms = getattr(it, "perms", ())
    if perms:
        # instances of "a permutation has an inverse" at the indices of the goal
        ts = lvl = int_consts(fs)
        for _ in range(min(2, len(perms))):
            nxt = []
            for t in lvl:
                for P, Q, d in perms:
                    fs.append(z3.Implies(it.rng(t, d), z3.And(it.rng(Q(t), d), P(Q(t)) == t)))
                    nxt.append(Q(t))
            lvl = nxt
    tries = [({"smt.mbqi": False, "smt.random_seed": k, **extra}, .07) for k in range(4) for extra in ({}, {"smt.relevancy": 0}, {"smt.qi.eager_threshold": 100.})]
    for cfg, share in tries[:6] + [({}, .3)] + tries[6:]:
        # a context of its own: the answer must not depend on what was asked before
        ctx = z3.Context()
        s = z3.Solver(ctx=ctx)
        for k, v in cfg.items(): s.set(k, v)
        s.set("timeout", int(timeout_ms * share))
        s.add(*[f.translate(ctx) for f in fs])
        r = s.check()
        if r != z3.unknown: return str(r), (s.model() if r == z3.sat else None)
    return "unknown", None


def anylength(name, fn, dims, lower, specs, post, pre=None, replay=None, functions=(), timeout_ms=15000, side=None):
    """post(it, inputs, outputs) -> [(goal, formula)]; replay(rng) looks for a failing input of the real code"""
    def mk():
        def confirmed(g, model):
            """is there also a counterexample when the array has the length of the model from the start?"""
            try:
                at = {d: model.eval(z3.Int(d, model.ctx), model_completion=True).as_long() for d in dims}
                if max(at.values()) > 8: return False
                it, ins, outs = trace(fn(), dims, lower, specs, pre, side, at)
                return any(check(it, phi, timeout_ms)[0] == "sat" for h, phi in post(it, ins, outs) + it.side_goals if h == g)
            except Exception: return False

        def run(seed, thorough):
            t0 = time.time()
            try:
                it, ins, outs = trace(fn(), dims, lower, specs, pre, side)
                goals = post(it, ins, outs) + it.side_goals
            except OutOfReach as e:
                return [rec(name + "/any_length", "bounded-ok", "none", "not decided for any length (%s); the fixed-length obligations decide" % e)]
            except Exception as e:
                return [rec(name + "/any_length", "bounded-ok", "none", "not decided for any length (%r); the fixed-length obligations decide" % e)]
            res = []
            st, _ = check(it, False, 3000)
            if st == "unsat": return [rec(name + "/consistent", "refuted", "z3", "the contracts used contradict each other")]
            for g, phi in goals:
                st, model = check_cases(it, phi, timeout_ms * (4 if thorough else 1))
                if st == "unsat": res.append(rec(name + "/" + g, "proved", "z3-quantified"))
                else:
                    f = None
                    if replay is not None:
                        try: f = replay(seed)
                        except Exception as e: f = {"exception": repr(e)[:300]}
                    if f: res.append(rec(name + "/" + g, "refuted", "z3-quantified", "counterexample for some length", f))
                    elif st == "sat" and not it.sums and confirmed(g, model): res.append(rec(name + "/" + g, "failed", "z3-quantified", "counterexample for some length: %s" % str(model)[:600]))
                    else: res.append(rec(name + "/" + g, "bounded-ok", "none", "not decided for any length (z3: %s); the fixed-length obligations decide" % st))
            for r in res: r["time"] = (time.time() - t0) / max(1, len(res))
            return res
        return Custom(name, run, functions=list(functions), trusted=["z3 quantifier reasoning over the contracts of sort, argmax, min, max, any, all and sum"])
    return mk
