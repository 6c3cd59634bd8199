"""Contracts on the real functions of /repo and the machinery that turns one
contract into obligations, discharges them and replays a failure."""
import json
import os
import time
import traceback
import numpy as np
from . import term as tm
from . import jx
from .prove import Prover, Domain, Goal, Result, mpenv, harvest
from .numeric import evaluate
import mpmath as mp


class Contract:
    """requires/ensures over one function of the real code.

    fn       the real function (or a thin partial application of it)
    args     list of object arrays of variables (the symbolic inputs)
    ensures  f(results) -> [Goal]; results: list of object arrays
    """

    def __init__(self, name, fn, args, ensures, requires=(), gens=None, derived=None, positive=(), hooks=None,
                 while_handler=None, trusted=(), functions=(), replay=None, budget=150, samples=10, note="", bounded=None,
                 tol=1e-6, max_paths=600, min_goals=1, refute=True, falsify=None, pre_ctx=None, post=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Custom:
    """An obligation decided by its own procedure: run() -> list of dict
    {name,status,backend,reason,replay?}."""

    def __init__(self, name, run, functions=(), trusted=(), bounded=None, note=""):
        self.name, self.run, self.functions, self.trusted, self.bounded, self.note = name, run, list(functions), list(trusted), bounded, note


def tofloat(v):
    if isinstance(v, bool): return v
    if isinstance(v, (mp.mpc,)): return complex(v)
    if isinstance(v, complex): return v
    return float(v)


def arr(args, env):
    """object array of vars -> numpy array of floats"""
    out = []
    for a in args:
        s = {t.sort for t in np.ravel(a)}
        dt = complex if "C" in s else (float if "R" in s else (np.int64 if "I" in s else bool))
        b = np.empty(a.shape, dtype=dt)
        vals = evaluate(list(np.ravel(a)), mpenv(env))
        for i, v in zip(np.ndindex(*a.shape), vals):
            if dt is bool: b[i] = bool(v)
            elif dt is complex: b[i] = complex(v)
            elif dt is float: b[i] = float(mp.re(v))
            else: b[i] = int(mp.re(v))
        out.append(b)
    return out


def res_vars(outs):
    rv = []
    for k, o in enumerate(outs):
        a = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape):
            a[i] = tm.var("result%d%s" % (k, "".join("[%d]" % j for j in i)), o[i].sort)
        rv.append(a)
    return rv


def replay_real(c, env, goal_names=None, outs_shape=None):
    """run the real function on concrete floats and evaluate the postconditions
    on its actual output.  -> (violated goal name or None, record)"""
    import jax
    xs = arr(c.args, env)
    rec = {"function": c.functions[0] if c.functions else c.name, "contract": c.name,
           "inputs": [repr(x.tolist()) for x in xs]}
    try:
        out = c.fn(*[jax.numpy.asarray(x) for x in xs])
    except Exception as e:  # the real code rejects the input
        rec["exception"] = repr(e)[:500]
        return ("raises", rec)
    flat = [np.asarray(o) for o in jax.tree_util.tree_leaves(out)]
    rec["outputs"] = [repr(np.asarray(o).tolist())[:2000] for o in flat]
    rv = []
    e2 = dict(env)
    for k, o in enumerate(flat):
        a = np.empty(o.shape, dtype=object)
        so = {"c": "C", "f": "R", "b": "B", "i": "I", "u": "I"}[o.dtype.kind]
        for i in np.ndindex(*o.shape):
            v = o[i]
            if so in "RC" and not np.isfinite(v):
                a[i] = tm.const(float(np.real(v))) if so == "R" else tm.mk("nan")
                continue
            t = tm.var("result%d%s" % (k, "".join("[%d]" % j for j in i)), so)
            a[i] = t
            e2[t] = bool(v) if so == "B" else (complex(v) if so == "C" else (int(v) if so == "I" else float(v)))
        rv.append(a)
    try:
        goals = c.ensures(rv)
    except Exception as e:
        rec["ensures_error"] = repr(e)[:300]
        return (None, rec)
    for g in goals:
        for t in tm.free_vars(*g.terms()):
            if t not in e2: break
        else:
            vals = evaluate(g.terms(), mpenv(e2))
            if not all(bool(h) for h in vals[1 + (g.rhs is not None):]): continue
            if g.rhs is None:
                if not bool(vals[0]) and _robust(g, e2, c.tol):
                    rec["violated"] = g.name
                    return g.name, rec
            else:
                l, r = vals[0], vals[1]
                if isinstance(l, bool):
                    if bool(l) != bool(r):
                        rec["violated"] = g.name
                        return g.name, rec
                    continue
                if mp.isnan(mp.mpc(r).real): continue
                if mp.isnan(mp.mpc(l).real) or abs(mp.mpc(l) - mp.mpc(r)) > c.tol * max(abs(mp.mpc(l)), abs(mp.mpc(r)), mp.mpf(1e-9)):
                    rec["violated"] = g.name
                    rec["observed"], rec["expected"] = mp.nstr(mp.mpc(l), 15), mp.nstr(mp.mpc(r), 15)
                    return g.name, rec
    return None, rec


def _robust(g, env, tol):
    """boolean goal fails also when results are nudged by tol (not a rounding artefact)"""
    import random
    r = random.Random(0)
    for _ in range(6):
        e = dict(env)
        for t, v in env.items():
            if t.val is not None and str(t.val).startswith("result") and t.sort in "RC":
                e[t] = v * (1 + tol * r.uniform(-1, 1)) + tol * 1e-3 * r.uniform(-1, 1)
        if bool(evaluate([g.lhs], mpenv(e))[0]): return False
    return True


def check_contract(c, seed=1, thorough=False):
    """-> list of obligation records"""
    recs = []
    t0 = time.time()
    dom = Domain(c.gens, c.requires, seed=seed, derived=c.derived)
    pr = Prover(dom, positive=c.positive, budget_s=c.budget * (3 if thorough else 1), samples=c.samples * (5 if thorough else 1), max_paths=c.max_paths, refute=c.refute)
    try:
        ctx = jx.Ctx(hooks=c.hooks, while_handler=c.while_handler)
        outs, ctx, cj = jx.run(c.fn, c.args, ctx)
        goals = c.ensures(outs, ctx) if c.pre_ctx else c.ensures(outs)
        extra_h = list(ctx.assumed)
        for nm, g in ctx.oblig: goals.append(Goal("call:" + nm, g))
        if len(goals) < c.min_goals: raise RuntimeError("vacuous: %d goals" % len(goals))
    except Exception as e:
        r = {"contract": c.name, "name": c.name + "/vc-generation", "status": "unknown", "backend": "", "reason": "VC generation failed: %s: %s" % (type(e).__name__, str(e)[:600]), "wall_s": time.time() - t0, "trace": traceback.format_exc()[-1500:]}
        recs.append(r)
        f = falsify(c, seed, 400 if not thorough else 3000)
        if f: r.update(status="refuted", replay=f)
        return recs
    # vacuity: the precondition must be satisfiable (a concrete point)
    if c.requires:
        vs = tm.free_vars(*c.requires)
        for _ in range(400):
            env = dom.draw(vs)
            if all(bool(v) for v in evaluate(c.requires, mpenv(env))): break
        else:
            from . import smt
            r, m = smt.check(c.requires, 5000)
            if r != "sat":
                recs.append({"contract": c.name, "name": c.name + "/precondition-satisfiable", "status": "unknown", "backend": "", "reason": "no point satisfies the precondition", "wall_s": 0})
    for g in goals:
        g.hyps = list(g.hyps) + extra_h
        t = time.time()
        res = pr.prove(g)
        r = {"contract": c.name, "name": c.name + "/" + g.name, "status": res.status, "backend": res.backend, "reason": res.reason, "wall_s": round(time.time() - t, 3)}
        if res.status == "refuted":
            r["replay"] = {"symbolic_counterexample": {str(k.val): str(v) for k, v in res.env.items()}}
            ok = None
            if c.replay is not None:
                try: ok = c.replay(res.env, g)
                except Exception as e: ok = None; r["replay_error"] = repr(e)[:300]
            elif not c.hooks and not c.while_handler:
                vs = tm.free_vars(*[t for a in c.args for t in np.ravel(a)])
                env = dict(res.env)
                for v in vs: env.setdefault(v, dom.draw1(v))
                for _try in range(4):
                    nm, rec = replay_real(c, env)
                    if nm is not None: ok = rec; break
                    e2 = pr.try_refute(g, 4)
                    if e2 is None: break
                    env = dict(e2)
                    for v in vs: env.setdefault(v, dom.draw1(v))
            if not ok: ok = falsify(c, seed, 300)
            if ok: r["replay"]["real_code"] = ok
            else: r["status"] = "failed"
        elif res.status == "unknown":
            f = falsify(c, seed, 300 if not thorough else 3000, hot=dom.hot)
            if f: r.update(status="refuted", replay={"real_code": f})
        recs.append(r)
        if r["status"] in ("refuted", "failed", "unknown") and len([x for x in recs if x["status"] != "proved"]) >= 3:
            break
    recs[0]["stats"] = pr.stats
    recs[0]["prims"] = sorted(ctx.prims)
    recs[0]["vc_log"] = ctx.log
    return recs


def falsify(c, seed, n, hot=()):
    """random search for a concrete input on which the real code breaks the contract"""
    if c.falsify is not None:
        try: return c.falsify(seed, n)
        except Exception as e: return None
    if c.hooks or c.while_handler: return None
    dom = Domain(c.gens, c.requires, seed=seed + 17, derived=c.derived)
    dom.hot = list(hot)
    vs = tm.free_vars(*[t for a in c.args for t in np.ravel(a)], *c.requires)
    t0 = time.time()
    for _ in range(n):
        if time.time() - t0 > 60: break
        env = dom.draw(vs)
        if c.requires and not all(bool(v) for v in evaluate(c.requires, mpenv(env))): continue
        nm, rec = replay_real(c, env)
        if nm is not None: return rec
    return None
