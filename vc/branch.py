"""Case analysis of a term with conditionals: the list of (hypotheses, conditional-free term), infeasible paths removed by z3."""
from . import term as tm, smt


def push(t, memo=None):
    """re and im pushed through sums, real factors and conjugates"""
    memo = {} if memo is None else memo

    def part(u, k):
        if u.sort != "C": return u if k == 0 else tm.const(0)
        if u.op == "add": return tm.add(*[part(a, k) for a in u.args])
        if u.op == "mul":
            a, b = u.args
            if a.sort != "C": return tm.mul(a, part(b, k))
            if b.sort != "C": return tm.mul(b, part(a, k))
        if u.op == "div" and u.args[1].sort != "C": return tm.div(part(u.args[0], k), u.args[1])
        if u.op == "conj": return part(u.args[0], k) if k == 0 else tm.neg(part(u.args[0], k))
        if u.op == "const":
            v = u.val
            return tm.const(v.re if k == 0 else v.im) if isinstance(v, tm.G) else (u if k == 0 else tm.const(0))
        return tm.real(u) if k == 0 else tm.imag(u)
    for n in tm.topo([t]):
        if n.id in memo: continue
        na = [memo[a.id] for a in n.args]
        if n.op in ("re", "im"): memo[n.id] = part(na[0], 0 if n.op == "re" else 1)
        else: memo[n.id] = n if all(x is y for x, y in zip(na, n.args)) else tm.rebuild(n, na)
    return memo[t.id]


class TooMany(Exception): pass


def branches(t, hyps, atoms=None, limit=64, timeout_ms=4000):
    """atoms: substitution applied to every condition before it is asked (re z -> x, ...)"""
    out = []
    st = [(list(hyps), t)]
    while st:
        h, u = st.pop()
        u = push(u)
        todo = None
        for n in tm.topo([u]):
            if n.op == "ite":
                todo = n.args[0]
                break
        if todo is None:
            out.append((h, u))
            if len(out) > limit: raise TooMany("more than %d branches" % limit)
            continue
        c = tm.subst(todo, atoms) if atoms else todo
        kind = lambda x: smt.check(h + [x], timeout_ms, want_model=False)[0]
        for val, f in ((True, c), (False, tm.not_(c))):
            if tm.cv(f) is not None:
                if tm.cv(f) is False: continue
            elif kind(f) == "unsat": continue
            st.append((h + [f], tm.subst(u, {todo: tm.TRUE if val else tm.FALSE})))
    return out


def signs(t, hyps, timeout_ms=4000):
    """abs(u) of real u replaced by u or -u where the hypotheses decide the sign"""
    for _ in range(8):
        m = {}
        for n in tm.topo([t]):
            if n.op == "abs" and n.args[0].sort == "R" and not any(a.op == "abs" and a is not n for a in tm.topo([n])):
                u = n.args[0]
                for w, bad in ((u, tm.lt(u, tm.const(0))), (tm.neg(u), tm.lt(tm.const(0), u))):
                    if smt.check(list(hyps) + [bad], timeout_ms, want_model=False)[0] == "unsat":
                        m[n] = w
                        break
        if not m: return t
        t = tm.subst(t, m)
    return t


def formal(t):
    """a holomorphic expression over formal variables: complex variables become ordinary ones (an identity of rational
    expressions in z and in congruent values of log, exp, sin, tan, Gamma holds over C when it holds formally)"""
    memo = {}
    for u in tm.topo([t]):
        if u.op == "var" and u.sort == "C": memo[u.id] = tm.var(u.val if isinstance(u.val, str) else "z", "R")
        elif u.op in ("conj", "re", "im", "abs", "cplx", "sqrt"): raise ValueError("not holomorphic: " + u.op)
        elif u.op == "const" and isinstance(u.val, tm.G) and u.val.im == 0: memo[u.id] = tm.const(u.val.re)
        elif u.op == "fn": memo[u.id] = tm.fn(u.val, *[memo[a.id] for a in u.args], sort="R")
        elif u.args: memo[u.id] = tm.rebuild(u, [memo[a.id] for a in u.args])
        else: memo[u.id] = u
    return memo[t.id]


def implied(hyps, goal, timeout_ms=5000): return smt.check(list(hyps) + [tm.not_(goal)], timeout_ms, want_model=False)[0] == "unsat"
