"""Adequacy of the extraction: for every contract that abstracts nothing, the symbolic result evaluated at random
points (50 digits) against the real function at the same points.  Not part of any check (rounding, branch points)."""
import importlib, os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("JAX_ENABLE_X64", "1"); os.environ.setdefault("JAX_PLATFORMS", "cpu")
import run
run.setup_path()
import numpy as np, jax
from vc import jx, term as tm
from vc.contract import Contract, arr, mpenv
from vc.numeric import evaluate
from vc.prove import Domain

tot = bad = pts = 0
for i in range(1, 22):
    try: mod = importlib.import_module("props.P%02d" % i)
    except ImportError: continue
    for nm, mk in mod.contracts().items():
        try: c = mk()
        except Exception as e: print("P%02d" % i, nm, "maker", repr(e)[:100]); continue
        if not isinstance(c, Contract) or c.hooks or c.while_handler: continue
        outs, ctx, _ = jx.run(c.fn, c.args, jx.Ctx())
        dom = Domain(c.gens, c.requires, seed=5, derived=c.derived)
        vs = tm.free_vars(*[t for a in c.args for t in np.ravel(a)], *c.requires)
        n = 0
        tot += 1
        for _ in range(60):
            env = dom.draw(vs)
            if c.requires and not all(bool(v) for v in evaluate(c.requires, mpenv(env))): continue
            real = [np.asarray(o) for o in jax.tree_util.tree_leaves(c.fn(*[jax.numpy.asarray(x) for x in arr(c.args, env)]))]
            for o, s in zip(real, outs):
                v = evaluate([t for t in np.ravel(jx.toT(s))], mpenv(env))
                for a, b in zip(o.ravel(), v):
                    pts += 1
                    a, b = complex(a), complex(b)
                    if np.isfinite(a) and abs(a - b) > 1e-6 * (1 + abs(b)): bad += 1; print("P%02d" % i, nm, a, b)
            n += 1
            if n == 3: break
        jax.clear_caches()
print("contracts", tot, "values", pts, "mismatches", bad)
