from vc.spec import *
from vc.contract import Contract, Goal
import vc.term as tm

EXPLAIN = "Every scalar evaluation of the lens map and its Jacobian determinant equals the spec rational function, for all positions and parameters."


def _mod():
    import microjax.point_source as ps
    return ps


def names(n): return list(params(n).keys())


def lens_map_c(n):
    def mk():
        ps = _mod()
        p = params(n)
        z = C("z")
        L = lenses(n, p)
        fn = lambda z, *v: ps.lens_eq(z, nlenses=n, **dict(zip(p, v)))
        return Contract("lens_map_%d" % n, fn, [A0(z)] + [A0(v) for v in p.values()],
                        lambda r: [Goal("value", r[0][()], lens_map(z, L))], gens=PARAM_GENS, functions=["point_source.lens_eq[nlenses=%d]" % n])
    return mk


def det_c(n):
    def mk():
        ps = _mod()
        p = params(n)
        z = C("z")
        L = lenses(n, p)
        fn = lambda z, *v: ps.lens_eq_det_jac(z, nlenses=n, **dict(zip(p, v)))
        return Contract("det_%d" % n, fn, [A0(z)] + [A0(v) for v in p.values()],
                        lambda r: [Goal("value", r[0][()], jac(z, L))], gens=PARAM_GENS, functions=["point_source.lens_eq_det_jac[nlenses=%d]" % n])
    return mk


def contracts():
    d = {}
    for n in (1, 2, 3):
        d["lens_map_%d" % n] = lens_map_c(n)
        d["det_%d" % n] = det_c(n)
    return d
