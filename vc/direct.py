"""Obligations sent straight to z3: run the real function symbolically, negate
the postcondition, expect unsat; a model is replayed on the real function."""
import time
import numpy as np
from . import jx, smt, term as tm
from .contract import Custom


BIG = tm.var("plus_infinity", "R")


def despecial(t):
    """+inf, -inf and nan become a symbol larger than every input"""
    ts = [x for x in tm.topo([t]) if tm.is_special(x)]
    if not ts: return t, False
    m = {}
    for x in ts: m[x] = tm.neg(BIG) if x.op == "ninf" else BIG
    return tm.subst(t, m), True


def rec(name, status, backend="", reason="", replay=None, **kw):
    r = {"name": name, "status": status, "backend": backend, "reason": reason}
    if replay: r["replay"] = replay
    r.update(kw)
    return r


def concrete(args, env):
    out = []
    for a in args:
        b = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            t = a[i]
            v = tm.cv(t)
            b[i] = v if v is not None else env.get(t, 0.0)
        so = {t.sort for t in np.ravel(a)}
        dt = complex if "C" in so else float if "R" in so else np.int64 if "I" in so else bool
        out.append(np.array([dt(x) if dt is not np.int64 else int(x) for x in b.ravel()], dtype=dt).reshape(a.shape))
    return out


def prove_case(name, fn, args, post, pre=(), oracle=None, timeout_ms=20000, hooks=None, draws=40, seed=1, function="", vacuity=False):
    """post(outs) -> [(goal name, boolean term)]; oracle(*numpy inputs) -> None or dict describing a failure"""
    t0 = time.time()

    def replay(envs):
        if oracle is None: return None
        for env in envs:
            try: x = concrete(args, env)
            except Exception: continue
            try: f = oracle(*x)
            except Exception as e: f = {"exception": repr(e)[:300]}
            if f:
                f.setdefault("function", function)
                f.setdefault("inputs", [v.tolist() for v in x])
                return f
        return None

    def randoms():
        vs = tm.free_vars(*[t for a in args for t in np.ravel(a)])
        r = np.random.default_rng(seed)
        for _ in range(draws):
            env = {v: (float(r.choice([r.normal(), r.integers(-2, 3), r.normal() * 10])) if v.sort == "R" else complex(r.normal(), r.normal()) if v.sort == "C" else int(r.integers(0, 4)) if v.sort == "I" else bool(r.integers(0, 2))) for v in vs}
            if pre:
                from .numeric import evaluate
                from .prove import mpenv
                try:
                    if not all(bool(v) for v in evaluate(list(pre), mpenv(env))): continue
                except Exception: continue
            yield env
    try:
        outs, ctx, _ = jx.run(fn, args, jx.Ctx(hooks=hooks))
        goals = post(outs)
    except Exception as e:
        f = replay(randoms())
        return [rec(name + "/vc-generation", "refuted" if f else "unknown", "", "%s: %s" % (type(e).__name__, str(e)[:300]), f)]
    recs = []
    if vacuity:
        hy = [despecial(h)[0] for h in list(pre) + list(ctx.assumed)]
        if smt.check(hy, timeout_ms, want_model=False)[0] == "unsat": return [rec(name + "/vacuous", "failed", "z3", "hypotheses contradictory")]
    for g, f in goals:
        f, sp = despecial(f)
        hy = [despecial(h)[0] for h in list(pre) + list(ctx.assumed)]
        if sp:
            for v in tm.free_vars(f):
                if v.sort == "R" and v is not BIG: hy += [tm.lt(v, BIG), tm.lt(tm.neg(BIG), v)]
        if f is tm.TRUE:
            recs.append(rec(name + "/" + g, "proved", "syntactic"))
            continue
        r, m = smt.check(hy + [tm.not_(f)], timeout_ms)
        if r == "unsat": recs.append(rec(name + "/" + g, "proved", "z3"))
        else:
            w = replay(([m] if m else []) + list(randoms()))
            recs.append(rec(name + "/" + g, "refuted" if w else ("failed" if r == "sat" else "unknown"), "z3", "solver answer %s" % r + (" (model %s)" % {str(k.val): str(v) for k, v in list(m.items())[:8]} if m else ""), w))
    return recs


def closed_hooks():
    """comparisons between constants (pi included) are decided numerically (50 digits, gap above 1e-30)"""
    import operator
    from .numeric import evaluate

    def mk(op):
        def h(ctx, eqn, ins):
            a, b = [jx.toT(i) for i in ins]
            sh = np.broadcast_shapes(a.shape, b.shape)
            a, b = np.broadcast_to(a, sh), np.broadcast_to(b, sh)
            out = np.empty(sh, dtype=object)
            for i in np.ndindex(*sh):
                x, y = a[i], b[i]
                o = {"lt": lambda: tm.lt(x, y), "gt": lambda: tm.lt(y, x), "le": lambda: tm.le(x, y), "ge": lambda: tm.le(y, x), "eq": lambda: tm.eq(x, y), "ne": lambda: tm.not_(tm.eq(x, y))}[op]()
                if o.op != "const" and x.sort == "R" and not tm.free_vars(x, y) and not any(tm.is_special(t) for t in tm.topo([x, y])):
                    p, q = evaluate([x, y], {})
                    d = (p - q).real if hasattr(p - q, "real") else p - q
                    if abs(d) > 1e-30: o = const_bool(getattr(operator, op)(d, 0))
                out[i] = o
            return [out]
        return h
    return {"prim:" + o: mk(o) for o in ("lt", "le", "gt", "ge", "eq", "ne")}


def nonzero_hooks(vs):
    """hypothesis: these symbols (and their real parts, imaginary parts and moduli) are not zero;
    comparisons with zero are decided while the program is executed"""
    vs = {v for v in vs if v.op == "var"}
    base = closed_hooks()

    def nonzero(t):
        while t.op in ("re", "im", "abs", "conj"): t = t.args[0]
        if t.op == "add":   # re^2 + im^2 and the like
            return all(nonzero(a) and a.op == "powi" and a.val == 2 for a in t.args)
        if t.op == "powi": return nonzero(t.args[0])
        return t in vs

    def mk(op):
        def h(ctx, eqn, ins):
            out = base["prim:" + op](ctx, eqn, ins)[0]
            a, b = [jx.toT(i) for i in ins]
            a, b = np.broadcast_to(a, out.shape), np.broadcast_to(b, out.shape)
            for i in np.ndindex(*out.shape):
                for x, y in ((a[i], b[i]), (b[i], a[i])):
                    if tm.cv(y) == 0 and nonzero(x): out[i] = const_bool(op == "ne")
            return [out]
        return h

    def conv(ctx, eqn, ins):
        if eqn.params["new_dtype"] != np.dtype(bool): return None
        a = jx.toT(ins[0])
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            t = a[i]
            out[i] = t if t.sort == "B" else tm.TRUE if nonzero(t) else tm.not_(tm.eq(t, tm.const(0, t.sort if t.sort == "I" else "R")))
        return [out]

    def less(ctx, eqn, ins):
        # |v| > 0
        op = eqn.primitive.name
        out = base["prim:" + op](ctx, eqn, ins)[0]
        a, b = [jx.toT(i) for i in ins]
        a, b = np.broadcast_to(a, out.shape), np.broadcast_to(b, out.shape)
        for i in np.ndindex(*out.shape):
            x, y = (a[i], b[i]) if op == "gt" else (b[i], a[i])
            if tm.cv(y) == 0 and x.op == "abs" and nonzero(x): out[i] = tm.TRUE
        return [out]
    h = dict(base)
    h.update({"prim:eq": mk("eq"), "prim:ne": mk("ne"), "prim:convert_element_type": conv, "prim:gt": less, "prim:lt": less})
    return h


class Decider:
    """Decides the comparisons a program makes from hypotheses that assign truth values to a list of
    literals.  A comparison is identified with a literal (or its negation) by normal form or by z3, once;
    comparisons that are no literal stay symbolic."""

    def __init__(self, literals, nonzero=(), seed=1):
        self.lit = list(literals)
        self.nz = nonzero_hooks(nonzero)
        self.cache = {}
        self.seed = seed
        self.val = {}
        from .prove import Prover, Domain
        self.pr = Prover(Domain({}, [], seed=seed), budget_s=20, refute=False)

    def samples(self, vs, k=12):
        import random
        r = random.Random(self.seed)
        out = []
        for _ in range(k):
            sc = 10 ** r.uniform(-6, 1)
            base = complex(r.gauss(0, 1), r.gauss(0, 1))
            out.append({v: (base + sc * complex(r.gauss(0, 1), r.gauss(0, 1)) if v.sort == "C" else r.gauss(0, 1) * sc if v.sort == "R" else bool(r.getrandbits(1)) if v.sort == "B" else r.randrange(4)) for v in vs})
        return out

    def classify(self, c):
        from .numeric import evaluate
        from .prove import mpenv, Goal
        if c in self.cache: return self.cache[c]
        self.cache[c] = None
        fv = set(tm.free_vars(c))
        neg = tm.not_(c)
        for k, l in enumerate(self.lit):
            if c is l: self.cache[c] = (k, True); return self.cache[c]
            if neg is l: self.cache[c] = (k, False); return self.cache[c]
        for k, l in enumerate(self.lit):
            if set(tm.free_vars(l)) != fv: continue
            agree = set()
            for e in self.samples(fv):
                try:
                    a, b = evaluate([c, l], mpenv(e))
                    agree.add(bool(a) == bool(b))
                except Exception: agree |= {True, False}
                if len(agree) == 2: break
            if len(agree) == 2: continue
            pol = agree.pop()
            x = l if pol else tm.not_(l)
            if all(smt.check([a, tm.not_(b)], 4000, want_model=False)[0] == "unsat" for a, b in ((c, x), (x, c))):
                self.cache[c] = (k, pol)
                return self.cache[c]
        return None

    def hooks(self):
        h = dict(self.nz)

        def wrap(op):
            base = self.nz["prim:" + op]

            def f(ctx, eqn, ins):
                out = base(ctx, eqn, ins)[0]
                for i in np.ndindex(*out.shape):
                    if out[i].op == "const": continue
                    k = self.classify(out[i])
                    if k is not None and k[0] in self.val: out[i] = const_bool(self.val[k[0]] == k[1])
                return [out]
            return f
        for op in ("lt", "le", "gt", "ge"): h["prim:" + op] = wrap(op)
        return h


def const_bool(b): return tm.TRUE if b else tm.FALSE


def merge(name, recs):
    """one record per goal name over all cases"""
    by = {}
    for r in recs: by.setdefault(r["name"].split("/")[-1], []).append(r)
    out = []
    for g, rs in by.items():
        bad = [r for r in rs if r["status"] not in ("proved",)]
        if not bad: out.append(rec(name + "/" + g, "proved", rs[0]["backend"], "%d cases" % len(rs)))
        else:
            bad.sort(key=lambda r: r["status"] != "refuted")
            b = dict(bad[0])
            b["reason"] = "case %s: %s" % (b["name"], b["reason"])
            b["name"] = name + "/" + g
            out.append(b)
    return out


def bounded_oracle(name, oracle, k, functions, note):
    """random execution of the real code against an independent oracle (bounded, never counted as proved)"""
    def mk():
        def run(seed, thorough):
            try: f = oracle(seed, k * (10 if thorough else 1))
            except Exception as e: f = {"exception": repr(e)[:400], "function": functions[0]}
            return [rec(name + "/execution", "refuted" if f else "bounded-ok", "execution", note, f)]
        return Custom(name, run, functions=functions, bounded="%s: %s" % (name, note))
    return mk
