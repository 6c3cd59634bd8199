"""Symbolic execution of jaxprs.

The program verified is the jaxpr `jax.make_jaxpr` extracts from the functions
in /repo's working tree on every run -- the program JAX itself executes.
Arrays are numpy object arrays of terms (or concrete numpy arrays)."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from . import term as tm
from .term import T, const, ite

jax.config.update("jax_enable_x64", True)


class Unsupported(Exception):
    pass


def is_sym(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def toT(x, dtype=None):
    """concrete array -> object array of terms"""
    if is_sym(x): return x
    x = np.asarray(x)
    out = np.empty(x.shape, dtype=object)
    if x.dtype.kind == "b": f = lambda v: const(bool(v))
    elif x.dtype.kind in "iu": f = lambda v: const(int(v), "I")
    else: f = const
    for i in np.ndindex(*x.shape): out[i] = f(x[i])
    return out


def vmap1(f, *xs):
    xs = [toT(x) for x in xs]
    shp = np.broadcast_shapes(*[x.shape for x in xs])
    xs = [np.broadcast_to(x, shp) for x in xs]
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp): out[i] = f(*[x[i] for x in xs])
    return out


def concretise(x):
    """object array of int/bool constants -> concrete numpy, else None"""
    if not is_sym(x): return x
    fl = x.ravel()
    if x.size == 0: return None
    if all(t.op == "const" and t.sort == "B" for t in fl):
        return np.array([bool(t.val) for t in fl], dtype=bool).reshape(x.shape)
    if all(t.op == "const" and t.sort == "I" for t in fl):
        return np.array([int(t.val) for t in fl], dtype=np.int64).reshape(x.shape)
    return None


class Ctx:
    """Hooks: name -> handler(ctx, eqn, args) -> list of outputs, for modular
    treatment of calls (contract instead of body)."""

    def __init__(self, hooks=None, while_handler=None, max_unroll=4000):
        self.hooks = hooks or {}
        self.while_handler = while_handler
        self.assumed = []      # facts assumed (contract postconditions)
        self.oblig = []        # (name, goal) raised along the way (call preconditions)
        self.log = []
        self.max_unroll = max_unroll
        self.fresh = itertools.count()
        self.calls = {}
        self.prims = set()

    def freshvars(self, base, shape, sort):
        k = next(self.fresh)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = tm.var("%s!%d%s" % (base, k, "".join("[%d]" % j for j in i)), sort)
        return out


def sort_of(dtype):
    k = np.dtype(dtype).kind
    return {"c": "C", "f": "R", "i": "I", "u": "I", "b": "B"}[k]


def symarr(name, shape=(), sort="R"):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = tm.var(name + "".join("[%d]" % j for j in i), sort)
    return out


# ---------------------------------------------------------------------------
def _arith(op):
    def f(ctx, eqn, a, b):
        if not is_sym(a) and not is_sym(b):
            k = np.result_type(a, b).kind
            if k in "iub": return None
            if np.size(a) > 4096 or np.size(b) > 4096: return None
        return vmap1(op, a, b)
    return f


def _bool2(op, iop=None):
    def f(ctx, eqn, a, b): return vmap1(op, a, b)
    return f


def _un(op):
    def f(ctx, eqn, a): return vmap1(op, a)
    return f


def _idiv(x, y):
    if x.sort == "I" and y.sort == "I":
        if tm.cv(x) is not None and tm.cv(y): 
            a, b = int(x.val), int(y.val)
            q = abs(a) // abs(b)
            return const(q if (a >= 0) == (b > 0) else -q, "I")
        return tm.mk("fn", (x, y), "idiv", "I")
    return tm.div(x, y)


def _convert(ctx, eqn, a):
    new = sort_of(eqn.params["new_dtype"])

    def g(t):
        s = t.sort
        if s == new: return t
        if s == "B": return ite(t, const(1, "I" if new == "I" else "R"), const(0, "I" if new == "I" else "R"))
        if new == "B": return tm.not_(tm.eq(t, const(0, s if s == "I" else "R")))
        if new in "RC" and s in "RI":
            if t.op == "const": return const(t.val, "R")
            if t.op == "ite": return ite(t.args[0], g(t.args[1]), g(t.args[2]))
            return tm.fn("toreal", t, sort="R") if s == "I" else t
        if new == "I" and s == "R":
            if t.op == "const": return const(int(t.val), "I")
            return tm.fn("toint", t, sort="I")
        if new == "R" and s == "C": return tm.real(t)
        return t
    if new == "I" and not is_sym(a): return None
    return vmap1(g, a)


def _select_n(ctx, eqn, c, *cs):
    c = toT(c)
    if len(cs) == 2 and (c.size == 0 or c.ravel()[0].sort == "B"):
        return vmap1(lambda p, x, y: ite(p, y, x), np.broadcast_to(c, np.shape(cs[0])), *cs)

    def g(p, *xs):
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1): r = ite(tm.eq(p, const(k, "I")), xs[k], r)
        return r
    return vmap1(g, np.broadcast_to(c, np.shape(cs[0])), *cs)


def _integer_pow(ctx, eqn, a):
    n = eqn.params["y"]
    return vmap1(lambda t: tm.powi(t, n), a)


def _reduce(op, init):
    def f(ctx, eqn, a):
        axes = eqn.params["axes"]
        a = toT(a)
        keep = [i for i in range(a.ndim) if i not in axes]
        b = np.transpose(a, keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1])
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            lane = list(b[i])
            if not lane:
                out[i] = init
                continue
            r = lane[0]
            for t in lane[1:]: r = op(r, t)
            out[i] = r
        return out
    return f


def _argred(less):
    def f(ctx, eqn, a):
        axes = eqn.params["axes"]
        a = toT(a)
        ax, = axes
        b = np.moveaxis(a, ax, -1)
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            lane = b[i]
            bi, bv = const(0, "I"), lane[0]
            for k in range(1, len(lane)):
                c = less(lane[k], bv)
                bi, bv = ite(c, const(k, "I"), bi), ite(c, lane[k], bv)
            out[i] = bi
        return out
    return f


def _cum(op):
    def f(ctx, eqn, a):
        ax, rev = eqn.params["axis"], eqn.params["reverse"]
        a = np.moveaxis(toT(a), ax, 0)
        if rev: a = a[::-1]
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[1:]):
            r = None
            for k in range(a.shape[0]):
                r = a[(k,) + i] if r is None else op(r, a[(k,) + i])
                out[(k,) + i] = r
        if rev: out = out[::-1]
        return np.moveaxis(out, 0, ax)
    return f


def _dot_general(ctx, eqn, a, b):
    (ac, bc), (ab, bb) = eqn.params["dimension_numbers"]
    a, b = toT(a), toT(b)
    ar = [i for i in range(a.ndim) if i not in ac and i not in ab]
    br = [i for i in range(b.ndim) if i not in bc and i not in bb]
    A = np.transpose(a, list(ab) + ar + list(ac))
    B = np.transpose(b, list(bb) + br + list(bc))
    bs = tuple(a.shape[i] for i in ab)
    ars, brs = tuple(a.shape[i] for i in ar), tuple(b.shape[i] for i in br)
    n = int(np.prod([a.shape[i] for i in ac], dtype=int))
    A = A.reshape(bs + ars + (n,))
    B = B.reshape(bs + brs + (n,))
    out = np.empty(bs + ars + brs, dtype=object)
    for i in np.ndindex(*bs):
        for j in np.ndindex(*ars):
            for k in np.ndindex(*brs):
                r = tm.ZERO
                for q in range(n): r = tm.add(r, tm.mul(A[i + j + (q,)], B[i + k + (q,)]))
                out[i + j + k] = r
    return out


def _isnan(t):
    if t.op == "nan": return tm.TRUE
    if t.op == "ite": return tm.or_(tm.and_(t.args[0], _isnan(t.args[1])), tm.and_(tm.not_(t.args[0]), _isnan(t.args[2])))
    return tm.FALSE


def _total_lt(x, y):
    """the order of lax.sort: NaN after everything"""
    a, b = _isnan(x), _isnan(y)
    if a is tm.FALSE and b is tm.FALSE: return tm.lt(x, y)
    return tm.and_(tm.not_(a), tm.or_(b, tm.lt(x, y)))


def _total_eq(x, y):
    a, b = _isnan(x), _isnan(y)
    if a is tm.FALSE and b is tm.FALSE: return tm.eq(x, y)
    return tm.or_(tm.and_(a, b), tm.and_(tm.not_(a), tm.not_(b), tm.eq(x, y)))


def _sort(ctx, eqn, *ops):
    d, nk = eqn.params["dimension"], eqn.params["num_keys"]
    cc = [concretise(o) if is_sym(o) else (o if np.asarray(o).dtype.kind in "iub" else None) for o in ops]
    if all(c is not None for c in cc[:nk]):
        n = ops[0].shape[d]
        keys = [np.moveaxis(np.asarray(c), d, -1) for c in cc[:nk]]
        arrs = [np.moveaxis(o, d, -1) for o in ops]
        outs = [np.empty(a.shape, dtype=a.dtype) for a in arrs]
        for i in np.ndindex(*arrs[0].shape[:-1]):
            p = sorted(range(n), key=lambda q: tuple(k[i][q] for k in keys))
            for a, o in zip(arrs, outs): o[i] = a[i][p]
        return [np.moveaxis(o, -1, d) for o in outs]
    ops = [np.moveaxis(toT(o), d, -1).copy() for o in ops]
    n = ops[0].shape[-1]
    if n > 8: raise Unsupported("sort of %d symbolic keys" % n)

    def less(ks, ls):
        r = tm.FALSE
        for x, y in reversed(list(zip(ks, ls))):
            if x.sort == "B": l, e = tm.and_(tm.not_(x), y), tm.eq(x, y)
            else: l, e = _total_lt(x, y), _total_eq(x, y)
            r = tm.or_(l, tm.and_(e, r))
        return r
    for i in np.ndindex(*ops[0].shape[:-1]):
        for a in range(n):
            for b in range(n - 1 - a):
                c = less([o[i][b + 1] for o in ops[:nk]], [o[i][b] for o in ops[:nk]])
                if c is tm.FALSE: continue
                for o in ops:
                    x, y = o[i][b], o[i][b + 1]
                    o[i][b], o[i][b + 1] = ite(c, y, x), ite(c, x, y)
    return [np.moveaxis(o, -1, d) for o in ops]


def _bind(eqn, args):
    r = eqn.primitive.bind(*[jnp.asarray(a) for a in args], **eqn.params)
    return [np.asarray(x) for x in r] if eqn.primitive.multiple_results else [np.asarray(r)]


def _structural(n_data, update=False):
    """data-movement primitives: run the real primitive on an index map"""
    def f(ctx, eqn, *args):
        nd = len(args) if n_data is None else n_data
        data, idx = [toT(a) for a in args[:nd]], args[nd:]
        flat, ids, off = [], [], 1
        for a in data:
            ids.append(np.arange(off, off + a.size, dtype=np.int64).reshape(a.shape))
            flat.extend(a.ravel())
            off += a.size
        rs = eqn.primitive.bind(*[jnp.asarray(i) for i in ids], *[jnp.asarray(i) for i in idx], **eqn.params)
        rs = rs if eqn.primitive.multiple_results else [rs]
        outs = []
        for r in rs:
            r = np.asarray(r)
            out = np.empty(r.shape, dtype=object)
            for i in np.ndindex(*r.shape):
                k = int(r[i])
                out[i] = flat[k - 1] if 1 <= k < off else const(float("nan"))
            outs.append(out)
        return outs
    return f


def _with_index(n_data, idx_dims):
    st = _structural(n_data)

    def f(ctx, eqn, *args):
        idx = [concretise(a) if is_sym(a) else a for a in args[n_data:]]
        if all(i is not None for i in idx): return st(ctx, eqn, *args[:n_data], *idx)
        # symbolic start indices (dynamic_slice / dynamic_update_slice): scalars
        opnd = args[0]
        sizes = eqn.params.get("slice_sizes") or np.shape(args[1])
        starts = args[n_data:]
        ranges = []
        for k, s in enumerate(starts):
            c = concretise(s) if is_sym(s) else s
            hi = np.shape(opnd)[k] - sizes[k]
            ranges.append([int(c)] if c is not None else list(range(hi + 1)))
        res = None
        for combo in reversed(list(itertools.product(*ranges))):
            o = st(ctx, eqn, *args[:n_data], *[np.int64(c) for c in combo])[0]
            if res is None:
                res = o
                continue
            cond = tm.TRUE
            for k, (s, c) in enumerate(zip(starts, combo)):
                if len(ranges[k]) > 1:
                    t = toT(s)[()]
                    cond = tm.and_(cond, tm.le(t, const(c, "I")) if c == 0 else tm.eq(t, const(c, "I")))
            res = vmap1(lambda x, y: ite(cond, x, y), o, res)
        return [res]
    return f


def _gather(ctx, eqn, opnd, idx):
    c = concretise(idx) if is_sym(idx) else idx
    st = _structural(1)
    if c is not None: return st(ctx, eqn, opnd, c)
    dn = eqn.params["dimension_numbers"]
    ss = eqn.params["slice_sizes"]
    bshape = idx.shape[:-1]
    opnd = toT(opnd)
    base = np.zeros(idx.shape, dtype=np.int64)
    for i in np.ndindex(*idx.shape):
        if idx[i].op == "const": base[i] = int(idx[i].val)
    out = st(ctx, eqn, opnd, base)[0]
    bd = [d for d in range(out.ndim) if d not in dn.offset_dims]
    for row in np.ndindex(*bshape):
        cols = [k for k in range(idx.shape[-1]) if idx[row + (k,)].op != "const"]
        if not cols: continue
        rng = [range(opnd.shape[dn.start_index_map[k]] - ss[dn.start_index_map[k]] + 1) for k in cols]
        sel = [slice(None)] * out.ndim
        for d, r in zip(bd, row): sel[d] = r
        sel = tuple(sel)
        acc = None
        for combo in reversed(list(itertools.product(*rng))):
            b2 = base.copy()
            cond = tm.TRUE
            for k, v in zip(cols, combo):
                b2[row + (k,)] = v
                cond = tm.and_(cond, tm.eq(idx[row + (k,)], const(v, "I")))
            o = np.asarray(st(ctx, eqn, opnd, b2)[0])[sel]
            o = o if isinstance(o, np.ndarray) else np.array(o, dtype=object)
            acc = o if acc is None else vmap1(lambda x, y: ite(cond, x, y), o, acc)
        # out-of-range symbolic index: default branch is the last slot; callers
        # obtain index ranges from argmin/sort, which are in range by construction
        out[sel] = acc if np.ndim(acc) else acc[()]
    return [out]


def _scatter(kind):
    def f(ctx, eqn, opnd, idx, upd):
        dn = eqn.params["dimension_numbers"]
        opnd, upd = toT(opnd).copy(), toT(upd)
        ci = concretise(idx) if is_sym(idx) else np.asarray(idx)
        idxT = toT(idx)
        bshape = idxT.shape[:-1]
        ud = [d for d in range(upd.ndim) if d not in dn.update_window_dims]

        def apply(op, row, vec):
            """scatter one index row into op"""
            sel = [slice(None)] * upd.ndim
            for d, r in zip(ud, row): sel[d] = r
            u = upd[tuple(sel)]
            u = u if isinstance(u, np.ndarray) else np.array(u, dtype=object)
            start = [0] * op.ndim
            for k, v in zip(dn.scatter_dims_to_operand_dims, vec): start[k] = int(v)
            for k, q in zip(getattr(dn, "operand_batching_dims", ()), getattr(dn, "scatter_indices_batching_dims", ())):
                start[k] = row[q]
            win = [d for d in range(op.ndim) if d not in dn.inserted_window_dims and d not in getattr(dn, "operand_batching_dims", ())]
            shape = [1] * op.ndim
            for d, n in zip(win, u.shape): shape[d] = n
            # numpy-style negative indices are already normalised by jnp
            if any(s < 0 or s + n > m for s, n, m in zip(start, shape, op.shape)): return op  # FILL_OR_DROP
            r = op.copy()
            sl = tuple(slice(s, s + n) for s, n in zip(start, shape))
            u2 = u.reshape(shape)
            if kind == "set": r[sl] = u2
            else: r[sl] = vmap1({"add": tm.add, "mul": tm.mul, "min": tm.min_, "max": tm.max_}[kind], r[sl], u2)
            return r
        for row in np.ndindex(*bshape):
            vec = idxT[row]
            cols = [k for k in range(len(vec)) if vec[k].op != "const"]
            if not cols:
                opnd = apply(opnd, row, [int(v.val) for v in vec])
                continue
            rng = [range(opnd.shape[dn.scatter_dims_to_operand_dims[k]]) for k in cols]
            acc = opnd
            for combo in itertools.product(*rng):
                v2 = [int(v.val) if v.op == "const" else 0 for v in vec]
                cond = tm.TRUE
                for k, v in zip(cols, combo):
                    v2[k] = v
                    cond = tm.and_(cond, tm.eq(vec[k], const(v, "I")))
                o = apply(opnd, row, v2)
                acc = vmap1(lambda x, y: x if x is y else ite(cond, x, y), o, acc)
            opnd = acc
        return [opnd]
    return f


def _iota(ctx, eqn):
    return [np.asarray(eqn.primitive.bind(**eqn.params))]


def _clamp(ctx, eqn, lo, x, hi):
    return vmap1(lambda l, v, h: tm.min_(tm.max_(v, l), h), np.broadcast_to(toT(lo), np.shape(x)), x, np.broadcast_to(toT(hi), np.shape(x)))


def _rem(x, y):
    if x.sort == "I" and tm.cv(x) is not None and tm.cv(y): 
        a, b = int(x.val), int(y.val)
        return const(int(np.fmod(a, b)), "I")
    return tm.fn("rem", x, y, sort=x.sort)


def _sign(t):
    if t.sort == "C": return ite(tm.eq(t, tm.ZERO), tm.ZERO, tm.div(t, tm.abs_(t)))
    z = const(0, t.sort)
    return ite(tm.lt(z, t), const(1, t.sort), ite(tm.lt(t, z), const(-1, t.sort), z))


def _cholesky(ctx, eqn, a):
    a = toT(a)
    n = a.shape[-1]
    out = np.empty(a.shape, dtype=object)
    for b in np.ndindex(*a.shape[:-2]):
        L = np.full((n, n), tm.ZERO, dtype=object)
        M = a[b]
        for j in range(n):
            s = M[j, j]
            for k in range(j): s = tm.sub(s, tm.powi(L[j, k], 2))
            L[j, j] = tm.sqrt(s)
            for i in range(j + 1, n):
                s = M[i, j]
                for k in range(j): s = tm.sub(s, tm.mul(L[i, k], L[j, k]))
                L[i, j] = tm.div(s, L[j, j])
        out[b] = L
    return out


def _triangular_solve(ctx, eqn, a, b):
    p = eqn.params
    a, b = toT(a), toT(b)
    out = np.empty(b.shape, dtype=object)
    for bt in np.ndindex(*a.shape[:-2]):
        A, B = a[bt], b[bt]
        if p["conjugate_a"]: A = vmap1(tm.conj, A)
        lower = p["lower"]
        if p["transpose_a"]: A, lower = A.T, not lower
        if not p["left_side"]:
            A, B, lower = A.T, B.T, not lower
        n = A.shape[0]
        X = np.empty(B.shape, dtype=object)
        order = range(n) if lower else range(n - 1, -1, -1)
        for c in range(B.shape[1]):
            for i in order:
                s = B[i, c]
                for k in (range(i) if lower else range(i + 1, n)): s = tm.sub(s, tm.mul(A[i, k], X[k, c]))
                X[i, c] = s if p["unit_diagonal"] else tm.div(s, A[i, i])
        out[bt] = X if p["left_side"] else X.T
    return out


def _lu(ctx, eqn, a):
    """partial-pivoting LU; the pivot order is a symbolic choice we resolve to the
    identity: any pivot order yields the same solution (recorded as assumption)."""
    ctx.log.append("lu: pivot order taken as identity (the solution of a regular system does not depend on it)")
    a = toT(a)
    n = a.shape[-1]
    out = np.empty(a.shape, dtype=object)
    for b in np.ndindex(*a.shape[:-2]):
        M = a[b].copy()
        for k in range(n):
            for i in range(k + 1, n):
                M[i, k] = tm.div(M[i, k], M[k, k])
                for j in range(k + 1, n): M[i, j] = tm.sub(M[i, j], tm.mul(M[i, k], M[k, j]))
        out[b] = M
    piv = np.broadcast_to(np.arange(n, dtype=np.int32), a.shape[:-1])
    return [out, piv.copy(), piv.copy()]


def _lu_pivots(ctx, eqn, p):
    return [np.asarray(p)]


def _expand_call(ctx, eqn, closed, args):
    return interp(ctx, closed.jaxpr, closed.consts, args)


def _pjit(ctx, eqn, *args):
    return _expand_call(ctx, eqn, eqn.params["jaxpr"], args)


def _custom_jvp(ctx, eqn, *args):
    return _expand_call(ctx, eqn, eqn.params["call_jaxpr"], args)


def _custom_vjp(ctx, eqn, *args):
    cj = eqn.params.get("call_jaxpr") or eqn.params.get("fun_jaxpr")
    return _expand_call(ctx, eqn, cj, args)


def _cond(ctx, eqn, idx, *args):
    br = eqn.params["branches"]
    c = concretise(idx) if is_sym(idx) else idx
    if c is not None:
        i = int(np.clip(int(c), 0, len(br) - 1))
        return _expand_call(ctx, eqn, br[i], args)
    outs = [_expand_call(ctx, eqn, b, args) for b in br]
    t = toT(idx)[()]
    res = []
    for vals in zip(*outs):
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            cnd = tm.not_(t) if t.sort == "B" else (tm.le(t, const(0, "I")) if k == 0 else tm.eq(t, const(k, "I")))
            r = vmap1(lambda x, y: ite(cnd, x, y), vals[k], r)
        res.append(r)
    return res


def while_step(ctx, eqn, cc, bc, carry, lazy=False):
    """one evaluation of guard and body.  A guard with batch shape means (as in
    JAX's lowering) iterate while any lane is active, each lane frozen once its
    own guard is false.  -> (guard term, next carry)"""
    p = eqn.params
    carry = list(carry)
    g, = interp(ctx, p["cond_jaxpr"].jaxpr, p["cond_jaxpr"].consts, list(cc) + carry)

    def nxt():
        b = interp(ctx, p["body_jaxpr"].jaxpr, p["body_jaxpr"].consts, list(bc) + carry)
        if np.ndim(g) == 0: return b
        gt = toT(g)
        out = []
        for n, o in zip(b, carry):
            n, o = toT(n), toT(o)
            r = np.empty(n.shape, dtype=object)
            for i in np.ndindex(*n.shape): r[i] = ite(gt[i[:gt.ndim]], n[i], o[i])
            c = concretise(r)
            out.append(r if c is None else c)
        return out
    if lazy:
        gc = concretise(g) if is_sym(g) else np.asarray(g)
        return (None if gc is None else bool(np.any(gc))), nxt
    t = tm.FALSE
    for x in np.ravel(toT(g)): t = tm.or_(t, x)
    return t, [toT(x) for x in nxt()]


def _while(ctx, eqn, *args):
    p = eqn.params
    cn, bn = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, carry = args[:cn], args[cn:cn + bn], list(args[cn + bn:])
    if ctx.while_handler is not None:
        r = ctx.while_handler(ctx, eqn, cc, bc, carry)
        if r is not None: return r
    for it in range(ctx.max_unroll):
        c, nxt = while_step(ctx, eqn, cc, bc, carry, lazy=True)
        if c is None: raise Unsupported("while loop with symbolic guard and no invariant")
        if not c: return carry
        carry = nxt()
    raise Unsupported("while loop unrolling exceeded")


def _scan(ctx, eqn, *args):
    p = eqn.params
    nc, nk, L = p["num_consts"], p["num_carry"], p["length"]
    consts, carry, xs = list(args[:nc]), list(args[nc:nc + nk]), args[nc + nk:]
    if L > ctx.max_unroll: raise Unsupported("scan length %d" % L)
    ys = None
    order = range(L - 1, -1, -1) if p["reverse"] else range(L)
    for i in order:
        out = interp(ctx, p["jaxpr"].jaxpr, p["jaxpr"].consts, consts + carry + [np.asarray(x)[i] if not is_sym(x) else _ix(x, i) for x in xs])
        carry = out[:nk]
        if ys is None: ys = [[None] * L for _ in out[nk:]]
        for k, y in enumerate(out[nk:]): ys[k][i] = y
    res = []
    if L == 0:
        for v in eqn.outvars[nk:]: res.append(np.empty(v.aval.shape, dtype=object))
        return carry + res
    for col in ys:
        if any(is_sym(c) for c in col): col = [toT(c) for c in col]
        o = np.empty((L,) + np.shape(col[0]), dtype=object if is_sym(col[0]) else np.asarray(col[0]).dtype)
        for i, c in enumerate(col): o[i] = c[()] if np.ndim(c) == 0 else c
        res.append(o)
    return carry + res


def _ix(x, i):
    r = x[i]
    if isinstance(r, np.ndarray): return r
    a = np.empty((), dtype=object)
    a[()] = r
    return a


def _is_finite(ctx, eqn, a): return vmap1(lambda t: tm.FALSE if tm.is_special(t) else (tm._map_ite(t, lambda u: tm.FALSE if tm.is_special(u) else tm.TRUE) if t.op == "ite" and tm._has_special(t) else tm.TRUE), a)


def _ident(ctx, eqn, *a): return list(a) if eqn.primitive.multiple_results else a[0]


def _ne(a, b): return tm.not_(tm.eq(a, b))


def _custom_linear_solve(ctx, eqn, *args):
    p = eqn.params
    cl = p["const_lengths"]
    nm, nv, ns, nt = cl.matvec, cl.vecmat, cl.solve, cl.transpose_solve
    solve_c = args[nm + nv:nm + nv + ns]
    b = args[nm + nv + ns + nt:]
    j = p["jaxprs"].solve
    return interp(ctx, j.jaxpr, j.consts, list(solve_c) + list(b))


RULES = {
    "add": _arith(tm.add), "sub": _arith(tm.sub), "mul": _arith(tm.mul), "div": _arith(_idiv), "add_any": _arith(tm.add),
    "neg": _un(tm.neg), "abs": _un(tm.abs_), "sqrt": _un(tm.sqrt), "rsqrt": _un(lambda t: tm.div(tm.ONE, tm.sqrt(t))),
    "square": _un(lambda t: tm.powi(t, 2)), "integer_pow": _integer_pow, "pow": _bool2(tm.pow_),
    "max": _arith(tm.max_), "min": _arith(tm.min_), "sign": _un(_sign),
    "exp": _un(tm.exp), "log": _un(tm.log), "sin": _un(tm.sin), "cos": _un(tm.cos), "exp2": _un(lambda t: tm.pow_(const(2), t)),
    "real": _un(tm.real), "imag": _un(tm.imag), "conj": _un(tm.conj), "complex": _bool2(tm.cplx),
    "lt_to": _bool2(tm.lt), "le_to": _bool2(tm.le), "lt": _bool2(tm.lt), "le": _bool2(tm.le), "gt": _bool2(lambda a, b: tm.lt(b, a)), "ge": _bool2(lambda a, b: tm.le(b, a)),
    "eq": _bool2(tm.eq), "ne": _bool2(_ne),
    "and": _bool2(tm.and_), "or": _bool2(tm.or_), "not": _un(tm.not_), "xor": _bool2(_ne),
    "select_n": _select_n, "convert_element_type": _convert, "clamp": _clamp, "rem": _bool2(_rem),
    "reduce_sum": _reduce(tm.add, tm.ZERO), "reduce_prod": _reduce(tm.mul, tm.ONE),
    "reduce_max": _reduce(tm.max_, const(float("-inf"))), "reduce_min": _reduce(tm.min_, const(float("inf"))),
    "reduce_and": _reduce(tm.and_, tm.TRUE), "reduce_or": _reduce(tm.or_, tm.FALSE),
    "argmin": _argred(lambda n, o: tm.lt(n, o)), "argmax": _argred(lambda n, o: tm.lt(o, n)),
    "cumsum": _cum(tm.add), "cumprod": _cum(tm.mul), "cummax": _cum(tm.max_), "cummin": _cum(tm.min_),
    "dot_general": _dot_general, "sort": _sort, "iota": _iota,
    "reshape": _structural(1), "broadcast_in_dim": _structural(1), "squeeze": _structural(1), "expand_dims": _structural(1),
    "transpose": _structural(1), "slice": _structural(1), "rev": _structural(1), "concatenate": _structural(None),
    "pad": _structural(2), "split": _structural(1), "copy": _ident, "copy_p": _ident, "stop_gradient": _ident, "optimization_barrier": _ident,
    "dynamic_slice": _with_index(1, None), "dynamic_update_slice": _with_index(2, None), "gather": _gather,
    "scatter": _scatter("set"), "scatter-add": _scatter("add"), "scatter_add": _scatter("add"), "scatter-mul": _scatter("mul"), "scatter-min": _scatter("min"), "scatter-max": _scatter("max"),
    "pjit": _pjit, "jit": _pjit, "closed_call": lambda c, e, *a: _expand_call(c, e, e.params["call_jaxpr"], a),
    "custom_jvp_call": _custom_jvp, "custom_vjp_call": _custom_vjp, "custom_vjp_call_jaxpr": _custom_vjp,
    "cond": _cond, "while": _while, "scan": _scan, "is_finite": _is_finite,
    "cholesky": _cholesky, "triangular_solve": _triangular_solve, "lu": _lu, "lu_pivots_to_permutation": _lu_pivots,
    "custom_linear_solve": _custom_linear_solve,
    "floor": _un(lambda t: tm.fn("floor", t)), "ceil": _un(lambda t: tm.fn("ceil", t)), "round": _un(lambda t: tm.fn("round", t)),
}
for _n in ("tan", "tanh", "sinh", "cosh", "asin", "acos", "atan", "log1p", "expm1", "logistic", "lgamma", "digamma", "erf",
           "asinh", "acosh", "atanh", "erfc", "erf_inv", "cbrt"):
    RULES[_n] = _un((lambda n: lambda t: tm.fn(n, t))(_n))
RULES["remat2"] = RULES["checkpoint"] = lambda c, e, *a: interp(c, e.params["jaxpr"], [], list(a))
RULES["atan2"] = _bool2(lambda a, b: tm.fn("atan2", a, b))
RULES["nextafter"] = _bool2(lambda a, b: tm.fn("nextafter", a, b))

EXACT_CONC = {"add", "sub", "mul", "div", "neg", "integer_pow", "sqrt"}


def call_name(eqn):
    n = eqn.params.get("name")
    if n: return n
    cj = eqn.params.get("call_jaxpr")
    if cj is not None:
        di = getattr(cj.jaxpr, "debug_info", None)
        if di is not None: return getattr(di, "func_name", None)
    return None


def interp(ctx, jaxpr, consts, args):
    env = {}

    def read(v):
        if type(v).__name__ == "Literal": return np.asarray(v.val)
        return env[v]

    for v, c in zip(jaxpr.constvars, consts): env[v] = np.asarray(c)
    for v, a in zip(jaxpr.invars, args): env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        name = eqn.primitive.name
        ctx.prims.add(name)
        cn = call_name(eqn)
        if cn is not None:
            ctx.calls[cn] = ctx.calls.get(cn, 0) + 1
        h = ctx.hooks.get(cn) if cn is not None else None
        if h is None: h = ctx.hooks.get("prim:" + name)
        outs = None
        if h is not None: outs = h(ctx, eqn, ins)
        if outs is None:
            if not any(is_sym(x) for x in ins) and name not in ("while", "scan", "cond", "pjit", "custom_jvp_call") \
                    and not (name in EXACT_CONC and ins and all(np.size(x) <= 64 for x in ins) and np.result_type(*ins).kind in "fc"):
                outs = _bind(eqn, ins)
            else:
                r = RULES.get(name)
                if r is None: raise Unsupported("primitive %s" % name)
                outs = r(ctx, eqn, *ins)
                if outs is None: outs = _bind(eqn, ins)
        if not isinstance(outs, (list, tuple)): outs = [outs]
        for v, o in zip(eqn.outvars, outs):
            shp = v.aval.shape
            if tuple(np.shape(o)) != tuple(shp):
                o = np.broadcast_to(o, shp)
            if is_sym(o):
                c = concretise(o)
                if c is not None: o = c.astype(v.aval.dtype) if isinstance(v.aval.dtype, np.dtype) else c     # random keys have no NumPy type
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def trace(fn, avals):
    """avals: list of (shape, dtype)"""
    specs = [jax.ShapeDtypeStruct(s, d) for s, d in avals]
    cj, shape = jax.make_jaxpr(fn, return_shape=True)(*specs)
    return cj, shape


DT = {"R": np.float64, "C": np.complex128, "I": np.int64, "B": np.bool_}


def run(fn, args, ctx=None):
    """args: list of object arrays (symbolic). Returns flat list of object arrays, ctx."""
    ctx = ctx or Ctx()
    avals = []
    for a in args:
        s = {t.sort for t in np.ravel(a)} if a.size else {"R"}
        so = "C" if "C" in s else ("R" if "R" in s else ("I" if "I" in s else "B"))
        avals.append((a.shape, DT[so]))
    cj, shape = trace(fn, avals)
    outs = interp(ctx, cj.jaxpr, cj.consts, list(args))
    return [toT(o) for o in outs], ctx, cj
