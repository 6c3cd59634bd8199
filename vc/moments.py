"""Sums over a data axis of arbitrary length.

A program that is uniform along an axis (element k of every array along it is
the same function of the k-th data) is interpreted with `N` representative
elements; a reduction over the axis is expanded by linearity into moment
symbols S[monomial] = sum_k monomial(data_k), with coefficients free of the
data.  The identities proved then hold for every length n (the jaxprs of a
list of lengths are compared to show that the program does not depend on it).
Uniformity is proved at each reduction, not assumed."""
import functools
import re
import numpy as np
import jax
from . import term as tm
from . import jx
from .prove import Prover, Domain, Goal


class NotUniform(Exception):
    pass


class Moments:
    """elems: list of object arrays (N,) of variables, the per-datum inputs"""

    def __init__(self, elems, n_symbol="n", canon=None, mixed=False):
        self.canon = canon
        self.mixed = mixed            # allow atoms that also depend on quantities fixed along the axis
        self.N = len(elems[0])
        self.n = tm.var(n_symbol, "R")
        self.base = [e[0] for e in elems]
        self.ren = [{e[0]: e[k] for e in elems} for k in range(self.N)]
        self.el = {v for e in elems for v in e}
        self.first = set(self.base)
        self.names = {}
        self.pr = Prover(Domain({}, []), budget_s=20, samples=2)
        self.count = 0
        self._dep = {}

    def dep(self, t):
        for x in tm.topo([t]):
            if x not in self._dep: self._dep[x] = (x in self.el) or any(self._dep[a] for a in x.args)
        return self._dep[t]

    def pure(self, t):
        if self.mixed: return all(v in self.first for v in tm.free_vars(t) if v in self.el)
        return all(v in self.first for v in tm.free_vars(t))

    def symbol(self, m):
        if m not in self.names:
            prod = lambda q: tm.mul(tm.ONE, functools.reduce(tm.mul, [tm.powi(x, k) for x, k in q]))
            p = prod(m)
            if self.mixed:
                for q, (s, pq) in self.names.items():
                    if pq.sort == p.sort and len(tm.free_vars(p)) == len(tm.free_vars(pq)) and self.pr.prove(Goal("same", p, pq)).status == "proved":
                        self.names[m] = (s, p)
                        return s
            self.names[m] = (tm.var("S%d{%s}" % (len(self.names), "*".join("%s^%d" % (tm.pretty(x, 6), k) for x, k in m)), "C" if p.sort == "C" else "R"), p)
        return self.names[m][0]

    def expand(self, t):
        """{(sorted ((atom, exp), ...)): coefficient term}; atoms depend on the data only"""
        memo = {}

        def mulm(a, b):
            d = dict(a)
            for x, k in b: d[x] = d.get(x, 0) + k
            return tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda p: p[0].id))

        def mul(p, q):
            r = {}
            for a, x in p.items():
                for b, y in q.items():
                    m = mulm(a, b)
                    v = tm.mul(x, y)
                    r[m] = tm.add(r[m], v) if m in r else v
            return r

        def atom(x, k=1):
            # 1/x and powers of one atom share the atom
            if x.op == "powi": return atom(x.args[0], k * x.val)
            return {((x, k),): tm.ONE}

        def inv(p, t):
            if len(p) == 1:
                (m, c), = p.items()
                return {tuple((x, -k) for x, k in m): tm.div(tm.ONE, c)}
            if self.pure(t): return atom(t, -1)
            raise NotUniform("division by a mixed expression %s" % tm.pretty(t, 3))

        def go(t):
            if t in memo: return memo[t]
            if not self.dep(t): r = {(): t}
            elif t in self.first: r = atom(t)
            elif t.op == "add":
                r = {}
                for a in t.args:
                    for m, c in go(a).items(): r[m] = tm.add(r[m], c) if m in r else c
            elif t.op == "mul":
                r = go(t.args[0])
                for a in t.args[1:]: r = mul(r, go(a))
            elif t.op == "div": r = mul(go(t.args[0]), inv(go(t.args[1]), t.args[1]))
            elif t.op == "powi":
                b = go(t.args[0])
                k = t.val
                if k < 0: b, k = inv(b, t.args[0]), -k
                r = {(): tm.ONE}
                for _ in range(k): r = mul(r, b)
            elif self.pure(t): r = atom(t)
            else: raise NotUniform("mixed expression %s" % tm.pretty(t, 3))
            memo[t] = r
            return r
        return go(t)

    def sum(self, t):
        """sum over the axis of the datum-0 expression t"""
        self.count += 1
        r = tm.ZERO
        for m, c in sorted(self.expand(t).items(), key=lambda p: tuple((x.id, k) for x, k in p[0])):
            if not m: s = self.n
            elif self.canon is not None and self.canon(m) is not None: s = self.canon(m)
            else: s = self.symbol(m)
            r = tm.add(r, tm.mul(c, s))
        return r

    def check(self, lane):
        for k in range(1, self.N):
            u = tm.subst(lane[0], self.ren[k])
            if u is not lane[k] and self.pr.prove(Goal("uniform", u, lane[k])).status != "proved": raise NotUniform("element %d is not the renaming of element 0: %s | %s" % (k, tm.pretty(u, 5), tm.pretty(lane[k], 5)))
        for v in tm.free_vars(lane[0]):
            if v in self.el and v not in self.first: raise NotUniform("element 0 uses another datum")

    def hooks(self):
        def red(ctx, eqn, ins):
            a = jx.toT(ins[0])
            ax = eqn.params["axes"]
            if len(ax) != 1 or a.shape[ax[0]] != self.N: return None
            b = np.moveaxis(a, ax[0], -1)
            out = np.empty(b.shape[:-1], dtype=object)
            for i in np.ndindex(*out.shape):
                self.check(b[i])
                out[i] = self.sum(b[i][0])
            return [out]

        def dot(ctx, eqn, ins):
            a, b = jx.toT(ins[0]), jx.toT(ins[1])
            (ac, bc), (ab, bb) = eqn.params["dimension_numbers"]
            if ab or bb or len(ac) != 1 or a.shape[ac[0]] != self.N: return None
            A, B = np.moveaxis(a, ac[0], -1), np.moveaxis(b, bc[0], -1)
            out = np.empty(A.shape[:-1] + B.shape[:-1], dtype=object)
            for i in np.ndindex(*A.shape[:-1]):
                for j in np.ndindex(*B.shape[:-1]):
                    lane = [tm.mul(x, y) for x, y in zip(A[i], B[j])]
                    self.check(lane)
                    out[i + j] = self.sum(lane[0])
            return [out]
        return {"prim:reduce_sum": red, "prim:dot_general": dot}


def same_program(mk, sizes):
    """mk(n) -> (fn, [ShapeDtypeStruct]); True when the jaxprs agree up to the length n"""
    pats = []
    for n in sizes:
        fn, av = mk(n)
        s = str(jax.make_jaxpr(fn)(*av))
        for k, t in ((n, "#n"), (n - 1, "#m"), (n + 1, "#p")): s = re.sub(r"\b%d\b" % k, t, s)
        pats.append(re.sub(r"\s+", "", s))
    return [n for n, p in zip(sizes, pats) if p != pats[0]]
