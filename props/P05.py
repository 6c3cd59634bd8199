from vc.spec import *
from vc.contract import Custom
from vc import jx, smt
from vc.perm import *
import vc.term as tm
import numpy as np
from vc.prove import Prover, Domain, Goal

EXPLAIN = ("The matching routine is executed symbolically with every argsort replaced by its contract (an arbitrary permutation ordering the keys); "
           "per output slot i: in range, different from every earlier slot, and no unused candidate is closer (z3, lengths used by the solvers).")


def U():
    import microjax.utils as u
    return u


def falsify(seed, n, k=400):
    import random
    r = random.Random(seed)
    for t in range(k):
        pts = lambda: [complex(r.choice([r.gauss(0, 1), r.randrange(-2, 3)]), r.choice([r.gauss(0, 1), r.randrange(-1, 2)])) for _ in range(n)]
        a, b = pts(), pts()
        if r.random() < .3: b[r.randrange(n)] = b[r.randrange(n)]
        if r.random() < .3: a[r.randrange(n)] = a[r.randrange(n)]
        if r.random() < .2: a = [a[0] + 1e-3 * complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(n)]
        a, b = np.array(a), np.array(b)
        idx = np.asarray(U().match_points(a, b)).tolist()
        bad = None
        if sorted(idx) != list(range(n)): bad = "not a permutation"
        else:
            for i in range(n):
                d = np.abs(b - a[i])
                rest = [j for j in range(n) if j not in idx[:i]]
                if d[idx[i]] > min(d[rest]) + 1e-9: bad = "slot %d: a closer unused point exists" % i
        if bad: return {"function": "match_points", "a": repr(a.tolist()), "b": repr(b.tolist()), "observed": idx, "violated": bad}
    return None


def matching(n):
    def run(seed, thorough):
        a, b = jx.symarr("a", (n,), "C"), jx.symarr("b", (n,), "C")
        ctx = jx.Ctx(hooks={"prim:sort": perm_sort})
        ctx.perms = []
        recs = []

        def rec(nm, ok, why="", backend="z3"):
            r = {"name": "match%d/%s" % (n, nm), "status": "proved" if ok else "unknown", "backend": backend, "reason": why}
            if not ok:
                f = falsify(seed, n)
                r.update(status="refuted", replay={"real_code": f}) if f else r.update(status="failed")
            recs.append(r)
            return ok
        try: outs, ctx, cj = jx.run(U().match_points, [a, b], ctx)
        except Exception as e:
            rec("vc-generation", False, repr(e)[:400])
            return recs
        r = list(np.ravel(outs[0]))
        if not rec("length", len(r) == n, backend="shape"): return recs
        D = {(i, j): R("D[%d,%d]" % (i, j)) for i in range(n) for j in range(n)}
        # every distance the code orders by is |b_j - a_i| (or its square): proved, then named D[i,j]
        hyps = [tm.le(const(0), d) for d in D.values()]
        dom = Domain({}, [], seed=seed)
        pr = Prover(dom, budget_s=60)
        keymap, okkeys = {}, True

        def ident(K):
            if K in keymap: return keymap[K]
            # named by sampling, then proved
            from vc.numeric import evaluate
            from vc.prove import mpenv
            env = mpenv(dom.draw(list(np.ravel(a)) + list(np.ravel(b))))
            cand = None
            v = evaluate([K], env)[0]
            for (i, j) in D:
                d = abs(env[b[j]] - env[a[i]])
                for pw in (1, 2):
                    if abs(v - d ** pw) < 1e-25 * abs(v): cand = (i, j, pw)
            if cand:
                i, j, pw = cand
                res = pr.prove(Goal("k", K, tm.abs_(b[j] - a[i]) ** pw))
                if res.status != "proved": cand = None
            keymap[K] = cand
            return cand
        for p, ops, nk in ctx.perms:
            ids = [ident(K) for K in ops[0]]
            if nk != 1 or None in ids or len({c[2] for c in ids}) != 1: okkeys = False; continue
            hyps += perm_hyps(p) + sorted_hyps(p, [D[c[:2]] for c in ids])
        rec("order_keys_are_distances", okkeys, backend="ring")
        m = {}
        for t in tm.topo(r):
            if t.sort == "R" and t.op in ("abs", "sqrt") :
                c = ident(t)
                if c: m[t] = D[c[:2]] if c[2] == 1 else D[c[:2]] * D[c[:2]]
        memo = {}
        if m: r = [tm.subst(t, m, memo) for t in r]
        permvars = [set(p) for p, _, _ in ctx.perms]
        prior = []
        for i in range(n):
            fv = set(tm.free_vars(*r[:i + 1]))
            rel = set()
            for pv in permvars:
                if pv & fv: rel |= pv
            loc = [h for h in hyps if not any(str(v.val).startswith("perm") and v not in rel for v in tm.free_vars(h))]
            u = tm.var("unused", "I")
            wit = [tm.le(IC(0), u), tm.lt(u, IC(n))] + [tm.not_(tm.eq(u, r[j])) for j in range(i)]
            inr = [tm.le(IC(0), r[i]), tm.lt(r[i], IC(n))]
            dis = [tm.not_(tm.eq(r[i], r[j])) for j in range(i)]
            to = 240000 if thorough else 150000
            base = [h for h in loc if not any(str(v.val).startswith("D[") for v in tm.free_vars(h))]
            q, _ = smt.check(base + prior + wit + [tm.not_(conj_(inr + dis))], to, False)
            rec("slot%d_fresh_index" % i, q == "unsat", q)
            # nearest: for an arbitrary unused candidate u
            di = [D[i, j] for j in range(n)]
            q, _ = smt.check(loc + prior + wit + inr + dis + [tm.lt(select(di, u), select(di, r[i]))], to, False)
            rec("slot%d_nearest_unused" % i, q == "unsat", q)
            prior += inr + dis
        if n <= 6:
            q, _ = smt.check(hyps + prior, 60000, False)
            rec("hypotheses_satisfiable", q == "sat", q)
        return recs
    return lambda: Custom("match_%d" % n, run, functions=["utils.match_points[n=%d]" % n, "utils.first_nonzero"], note="",
                          trusted=["lax.sort returns its operands permuted by a permutation that orders the keys", "pigeonhole: i < n used indices leave an unused one"])


def contracts():
    return {"match_%d" % n: matching(n) for n in (10, 6, 5, 4)}
