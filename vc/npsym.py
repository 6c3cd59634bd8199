"""Symbolic execution of plain NumPy code: the module's own source is executed in a fresh namespace whose external
names (np.zeros, np.ones, scipy functions, FFTs, ...) are bound to symbolic versions; numpy object arrays carry the
terms, and every comparison the code turns into a truth value forks the path (infeasible paths removed by z3)."""
import importlib
import importlib.util
import itertools
import sys
import types
import numpy as np
from . import term as tm, smt


class Paths:
    cur = None

    def __init__(self, hyps, limit=200): self.hyps, self.limit = list(hyps), limit

    def run(self, f):
        """[(path condition, result or exception)]"""
        todo, out = [[]], []
        while todo:
            self.script, self.trail, self.h = todo.pop(), [], list(self.hyps)
            old, Paths.cur = Paths.cur, self
            try: r = f()
            except SystemExit as e: r = e
            finally: Paths.cur = old
            out.append((list(self.h), r))
            for k in range(len(self.script), len(self.trail)):
                val, forced = self.trail[k]
                if not forced: todo.append([v for v, _ in self.trail[:k]] + [not val])
            if len(out) > self.limit: raise RuntimeError("too many paths")
        return out

    def decide(self, c):
        v = tm.cv(c)
        if v is not None: return bool(v)
        k = len(self.trail)
        if k < len(self.script): val, forced = self.script[k], True
        else:
            t = smt.check(self.h + [c], 3000, want_model=False)[0] != "unsat"
            f = smt.check(self.h + [tm.not_(c)], 3000, want_model=False)[0] != "unsat"
            if not t and not f: t, f = True, False
            val, forced = t, t != f
        self.trail.append((val, forced))
        self.h.append(c if val else tm.not_(c))
        return val


def lift(x):
    if isinstance(x, V): return x.t
    if isinstance(x, tm.T): return x
    if isinstance(x, np.generic): x = x.item()
    return tm.const(x)


def _b(f): return lambda s, o: NotImplemented if isinstance(o, np.ndarray) else V(f(s.t, lift(o)))
def _r(f): return lambda s, o: NotImplemented if isinstance(o, np.ndarray) else V(f(lift(o), s.t))


class V:
    """a number whose value is a term"""
    __slots__ = ("t",)

    def __init__(s, t): s.t = lift(t)
    def __repr__(s): return "V(%s)" % tm.pretty(s.t, 3)
    __add__, __radd__ = _b(tm.add), _r(tm.add)
    __sub__, __rsub__ = _b(tm.sub), _r(tm.sub)
    __mul__, __rmul__ = _b(tm.mul), _r(tm.mul)
    __truediv__, __rtruediv__ = _b(tm.div), _r(tm.div)

    def __pow__(s, o):
        if isinstance(o, np.ndarray): return NotImplemented
        o = lift(o)
        c = tm.cv(o)
        return V(tm.powi(s.t, int(c)) if c is not None and not isinstance(c, tm.G) and c == int(c) else tm.pow_(s.t, o))

    def __rpow__(s, o): return V(tm.pow_(lift(o), s.t))
    def __neg__(s): return V(tm.neg(s.t))
    def __pos__(s): return s
    def __abs__(s): return V(tm.abs_(s.t))
    __lt__, __gt__ = _b(tm.lt), _r(tm.lt)
    __le__, __ge__ = _b(tm.le), _r(tm.le)
    def __eq__(s, o): return NotImplemented if isinstance(o, np.ndarray) else V(tm.eq(s.t, lift(o)))
    def __ne__(s, o): return NotImplemented if isinstance(o, np.ndarray) else V(tm.not_(tm.eq(s.t, lift(o))))
    def __hash__(s): return hash(s.t)
    def __bool__(s): return Paths.cur.decide(s.t)
    def __invert__(s): return V(tm.not_(s.t))
    def __and__(s, o): return V(tm.and_(s.t, lift(o)))
    def __or__(s, o): return V(tm.or_(s.t, lift(o)))
    def log(s): return V(tm.fn("log", s.t, sort=s.t.sort))
    def log10(s): return V(tm.div(tm.fn("log", s.t, sort=s.t.sort), tm.fn("log", tm.const(10), sort="R")))
    def exp(s): return V(tm.exp(s.t))
    def sin(s): return V(tm.sin(s.t))
    def cos(s): return V(tm.cos(s.t))
    def sqrt(s): return V(tm.sqrt(s.t))
    def conjugate(s): return V(tm.conj(s.t))
    def arcsinh(s): return V(tm.fn("asinh", s.t))
    @property
    def real(s): return V(tm.real(s.t))
    @property
    def imag(s): return V(tm.imag(s.t))
    dtype = np.dtype(object)
    shape = ()
    ndim = 0
    size = 1


class SA(np.ndarray):
    """object array with numeric real and imag"""
    @property
    def real(s): return sa([V(v).real if not isinstance(v, V) else v.real for v in s.ravel()], s.shape)
    @property
    def imag(s): return sa([V(v).imag if not isinstance(v, V) else v.imag for v in s.ravel()], s.shape)


def sa(xs, shape=None):
    xs = list(xs)
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs): a[i] = x if isinstance(x, V) else V(x)
    a = a.reshape(shape) if shape is not None else a
    return a.view(SA)


def terms(a):
    """object array of terms"""
    a = np.asarray(a, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape): out[i] = lift(a[i])
    return out


class Shim:
    """numpy with constructors that make symbolic arrays; extra: overriding functions"""

    def __init__(s, **extra): s.__dict__.update(extra)

    def __getattr__(s, n): return getattr(np, n)
    def zeros(s, shape, dtype=None): return sa([V(0)] * int(np.prod(shape)), shape)
    def ones(s, shape, dtype=None): return sa([V(1)] * int(np.prod(shape)), shape)
    def empty(s, shape, dtype=None): return s.zeros(shape)
    def full(s, shape, v, dtype=None): return sa([V(lift(v))] * int(np.prod(shape)), shape)
    def zeros_like(s, a, dtype=None): return s.zeros(np.shape(a))
    def ones_like(s, a, dtype=None): return s.ones(np.shape(a))
    def _wrap(s, r): return r.view(SA) if isinstance(r, np.ndarray) and r.dtype == object else r
    def hstack(s, xs, **k): return s._wrap(np.hstack(xs, **k))
    def concatenate(s, xs, *a, **k): return s._wrap(np.concatenate(xs, *a, **k))
    def atleast_1d(s, x): return x if isinstance(x, np.ndarray) and x.ndim else sa([x])
    def asarray(s, x, dtype=None): return x if isinstance(x, (np.ndarray, V)) else np.asarray(x)
    def array(s, x, dtype=None):
        r = np.array(x)
        return s._wrap(r)
    def abs(s, x): return s.absolute(x)

    def absolute(s, x): return sa([abs(v) if isinstance(v, V) else V(abs(v)) for v in x.ravel()], x.shape) if isinstance(x, np.ndarray) and x.dtype == object else abs(x) if isinstance(x, V) else np.absolute(x)
    def where(s, c, *a):
        if not a: return np.where(c)
        c, x, y = np.broadcast_arrays(np.asarray(c), *[np.asarray(v, dtype=object) for v in a])
        return sa([p if bool(k) else q for k, p, q in zip(c.ravel(), x.ravel(), y.ravel())], c.shape)


def _unary(n):
    def f(self, x):
        if isinstance(x, np.ndarray) and x.ndim: return sa([getattr(v if isinstance(v, V) else V(v), n)() for v in x.ravel()], x.shape)
        x = x[()] if isinstance(x, np.ndarray) else x
        return getattr(x if isinstance(x, V) else V(x), n)()
    return f


for _n in ("log", "log10", "exp", "sin", "cos", "sqrt", "arcsinh"): setattr(Shim, _n, _unary(_n))


def load(modname, pairs):
    """a private copy of the module, executed from its source; every global that is one of the external objects is rebound
    pairs: [(original object, replacement)]"""
    real = importlib.import_module(modname)
    spec = importlib.util.spec_from_file_location(modname + "__sym", real.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for k, v in list(vars(m).items()):
        for o, r in pairs:
            if v is o: setattr(m, k, r)
    m.float = lambda x=0.0: x if isinstance(x, V) else float(x)
    return m
