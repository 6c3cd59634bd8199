"""Contract of lax.sort used at call sites: the outputs are the inputs permuted
by some permutation p (in range, injective, surjective) that orders the keys."""
from functools import reduce
import numpy as np
from . import term as tm, jx
from .term import const


def IC(k): return const(k, "I")
def disj(l): return reduce(tm.or_, l, tm.FALSE)
def conj_(l): return reduce(tm.and_, l, tm.TRUE)


def select(vals, idx):
    n = len(vals)
    r = vals[n - 1]
    for j in reversed(range(n - 1)): r = tm.ite(tm.eq(idx, IC(j)), vals[j], r)
    return r


def perm_sort(ctx, eqn, ins):
    """hook for prim:sort; records (p, operands) in ctx.perms"""
    if not any(jx.is_sym(o) for o in ins): return None
    d, nk = eqn.params["dimension"], eqn.params["num_keys"]
    ops = [np.moveaxis(jx.toT(o), d, -1) for o in ins]
    n = ops[0].shape[-1]
    if all(tm.cv(t) is not None for o in ops[:nk] for t in o.ravel()): return None
    outs = [np.empty(o.shape, dtype=object) for o in ops]
    perms = ctx.__dict__.setdefault("perms", [])
    for i in np.ndindex(*ops[0].shape[:-1]):
        p = ctx.freshvars("perm", (n,), "I")
        perms.append((p, [o[i] for o in ops], nk))
        for o, out in zip(ops, outs):
            for k in range(n):
                if all(tm.cv(t) is not None and tm.cv(t) == j for j, t in enumerate(o[i])): out[i + (k,)] = p[k]
                else: out[i + (k,)] = select(list(o[i]), p[k])
    return [np.moveaxis(o, -1, d) for o in outs]


def perm_hyps(p):
    n = len(p)
    h = []
    for k in range(n):
        h.append(tm.and_(tm.le(IC(0), p[k]), tm.lt(p[k], IC(n))))
        for j in range(k): h.append(tm.not_(tm.eq(p[k], p[j])))
    for v in range(n): h.append(disj([tm.eq(p[k], IC(v)) for k in range(n)]))
    return h


def sorted_hyps(p, keys):
    """keys (terms) are non-decreasing along p"""
    h = []
    s = [select(list(keys), p[k]) for k in range(len(p))]
    for k in range(len(p)):
        for j in range(k): h.append(tm.le(s[j], s[k]))
    return h
