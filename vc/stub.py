"""Contracts at call sites: while the caller is traced, a callee is replaced by
an opaque jitted function whose arguments are recorded, so the caller is checked
against the callee's contract instead of its body."""
import contextlib
import inspect
import numpy as np
import jax
import jax.numpy as jnp
from . import jx
from . import term as tm


def _static(v): return v is None or isinstance(v, (bool, str)) or (isinstance(v, int) and not isinstance(v, bool))


class Stub:
    """out(dyn) -> abstract result (jnp arrays of the right shape/dtype, unbatched);
    handler(stub, args, shapes) -> list of object arrays, args: {name: object array}."""

    def __init__(self, name, real, out, handler, static=()):
        self.name, self.real, self.out, self.handler, self.force = name, real, out, handler, set(static)
        self.sites = []      # trace-time records
        self.calls = []      # interpretation-time records

    def __call__(self, *a, **kw):
        sig = inspect.signature(self.real)
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        flat = {}
        for k, v in b.arguments.items():
            if sig.parameters[k].kind == inspect.Parameter.VAR_KEYWORD: flat.update(v)
            else: flat[k] = v
        st = {k: v for k, v in flat.items() if _static(v) or callable(v) or (k in self.force and not isinstance(v, jax.core.Tracer))}
        dyn = {k: jnp.asarray(v) for k, v in flat.items() if k not in st}
        keys = sorted(dyn)
        k = len(self.sites)
        out = self.out(flat)
        leaves, tree = jax.tree_util.tree_flatten(out)
        shapes, dts = [np.shape(l) for l in leaves], [jnp.asarray(l).dtype for l in leaves]
        self.sites.append((keys, st, [np.shape(dyn[q]) for q in keys], shapes))

        def body(*xs):
            # depends on every argument so that batching reaches every result
            s = sum((jnp.sum(jnp.real(x)) for x in xs if jnp.asarray(x).dtype != bool), 0.0) * 0.0
            return [jnp.full(h, s).astype(d) for h, d in zip(shapes, dts)]   # constants must be made inside (closed-over arrays become extra operands)
        body.__name__ = body.__qualname__ = "stub:%s#%d" % (self.name, k)
        return jax.tree_util.tree_unflatten(tree, jax.jit(body)(*[dyn[q] for q in keys]))

    def hooks(self):
        """call-name hooks (collected after tracing)"""
        return {"stub:%s#%d" % (self.name, k): self._hook(k) for k in range(len(self.sites))}

    def _hook(self, k):
        keys, st, ishapes, oshapes = self.sites[k]

        def h(ctx, eqn, ins):
            ins = [jx.toT(i) for i in ins]
            oav = [v.aval for v in eqn.outvars]
            nb = len(oav[0].shape) - len(oshapes[0])
            bshape = oav[0].shape[:nb]
            outs = [np.empty(v.shape, dtype=object) for v in oav]
            for bi in np.ndindex(*bshape):
                args = {}
                for q, a, s in zip(keys, ins, ishapes):
                    eb = a.ndim - len(s)
                    v = a[bi[nb - eb:]] if eb else a
                    if not isinstance(v, np.ndarray):
                        x = np.empty((), dtype=object)
                        x[()] = v
                        v = x
                    args[q] = v
                res = self.handler(ctx, args, st)
                self.calls.append((args, st, res))
                for o, r in zip(outs, res):
                    if nb: o[bi] = r if np.ndim(r) else np.asarray(r, dtype=object)[()]
                    else: o[...] = r
            return outs
        return h


@contextlib.contextmanager
def patched(*triples):
    """(module, attribute, replacement)"""
    old = []
    try:
        for m, n, f in triples:
            old.append((m, n, getattr(m, n)))
            setattr(m, n, f)
        yield
    finally:
        for m, n, f in reversed(old): setattr(m, n, f)


def raw(f): return getattr(f, "__wrapped__", f)


def trace_then_run(fn, args, stubs, ctx=None):
    """trace fn with the stubs installed (fn installs them), then interpret with their hooks"""
    jax.clear_caches()
    avals = []
    for a in args:
        s = {t.sort for t in np.ravel(a)}
        so = "C" if "C" in s else ("R" if "R" in s else ("I" if "I" in s else "B"))
        avals.append((a.shape, jx.DT[so]))
    cj, _ = jx.trace(fn, avals)

    def run(hooks=None, **kw):
        h = dict(hooks or {})
        for s in stubs:
            s.calls = []
            h.update(s.hooks())
        c = jx.Ctx(hooks=h, **kw)
        outs = jx.interp(c, cj.jaxpr, cj.consts, list(args))
        return [jx.toT(o) for o in outs], c
    return run
