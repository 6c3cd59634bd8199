"""Terms -> z3 (reals; complex numbers as pairs; other functions uninterpreted
with basic axioms)."""
import z3
from fractions import Fraction
from . import term as tm


class Tr:
    def __init__(self):
        self.m = {}
        self.ax = []
        self.vars = {}
        self.n = 0
        self.fns = {}

    def fresh(self, p="s"):
        self.n += 1
        return z3.Real("%s!%d" % (p, self.n))

    def C(self, t):
        r = self.tr(t)
        return r if isinstance(r, tuple) else (self.R(r), z3.RealVal(0))

    def R(self, r):
        if isinstance(r, tuple): return r[0]
        if z3.is_int(r): return z3.ToReal(r)
        return r

    def tr(self, t):
        for n in tm.topo([t]):
            if n.id not in self.m: self.m[n.id] = self._one(n)
        return self.m[t.id]

    def _one(self, t):
        o = t.op
        g = lambda i: self.m[t.args[i].id]
        gc = lambda i: self.C(t.args[i])
        cx = t.sort == "C"
        if o == "const":
            if t.sort == "B": return z3.BoolVal(t.val)
            if t.sort == "I": return z3.IntVal(int(t.val))
            return z3.RealVal(str(t.val))
        if o == "var":
            nm = str(t.val)
            if t.sort == "B": v = z3.Bool(nm)
            elif t.sort == "I": v = z3.Int(nm)
            elif t.sort == "C": v = (z3.Real(nm + ".re"), z3.Real(nm + ".im"))
            else: v = z3.Real(nm)
            self.vars[t] = v
            return v
        if o == "pi":
            v = z3.Real("pi")
            self.ax += [v > z3.RealVal("3.1415926535897932"), v < z3.RealVal("3.1415926535897933")]
            return v
        if o == "I": return (z3.RealVal(0), z3.RealVal(1))
        if o in ("inf", "ninf", "nan"): return z3.Real("special_" + o)
        if o == "add":
            if cx: (a, b), (c, d) = gc(0), gc(1); return (a + c, b + d)
            if t.sort == "I": return g(0) + g(1)
            return self.R(g(0)) + self.R(g(1))
        if o == "mul":
            if cx: (a, b), (c, d) = gc(0), gc(1); return (a * c - b * d, a * d + b * c)
            if t.sort == "I": return g(0) * g(1)
            return self.R(g(0)) * self.R(g(1))
        if o == "div":
            if cx:
                (a, b), (c, d) = gc(0), gc(1)
                q = c * c + d * d
                return ((a * c + b * d) / q, (b * c - a * d) / q)
            return self.R(g(0)) / self.R(g(1))
        if o == "powi":
            if cx:
                r, x = (z3.RealVal(1), z3.RealVal(0)), gc(0)
                for _ in range(t.val): r = (r[0] * x[0] - r[1] * x[1], r[0] * x[1] + r[1] * x[0])
                return r
            r = x = g(0) if t.sort == "I" else self.R(g(0))
            for _ in range(t.val - 1): r = r * x
            return r
        if o == "conj": a, b = gc(0); return (a, -b)
        if o == "re": return gc(0)[0]
        if o == "im": return gc(0)[1]
        if o == "cplx": return (self.R(g(0)), self.R(g(1)))
        if o == "abs":
            if t.args[0].sort == "C":
                a, b = gc(0)
                s = self.fresh("abs")
                self.ax += [s >= 0, s * s == a * a + b * b]
                return s
            x = g(0)
            return z3.If(x >= 0, x, -x)
        if o == "sqrt" and not cx:
            x = self.R(g(0))
            s = self.fresh("sqrt")
            self.ax += [s >= 0, z3.Implies(x >= 0, s * s == x)]
            return s
        if o == "ite":
            if cx:
                (a, b), (c, d) = gc(1), gc(2)
                return (z3.If(g(0), a, c), z3.If(g(0), b, d))
            a, b = g(1), g(2)
            if t.sort == "R": a, b = self.R(a), self.R(b)
            return z3.If(g(0), a, b)
        if o == "not": return z3.Not(g(0))
        if o == "and": return z3.And(*[self.m[a.id] for a in t.args])
        if o == "lt":
            a, b = g(0), g(1)
            if t.args[0].sort == "I" and t.args[1].sort == "I": return a < b
            return self.R(a) < self.R(b)
        if o == "eq":
            a, b = t.args
            if a.sort == "B": return g(0) == g(1)
            if a.sort == "C" or b.sort == "C":
                x, y = gc(0), gc(1)
                return z3.And(x[0] == y[0], x[1] == y[1])
            if a.sort == "I" and b.sort == "I": return g(0) == g(1)
            return self.R(g(0)) == self.R(g(1))
        # uninterpreted
        flat = []
        for a in t.args:
            v = self.m[a.id]
            if isinstance(v, tuple): flat += list(v)
            elif z3.is_bool(v): flat.append(z3.If(v, z3.RealVal(1), z3.RealVal(0)))
            else: flat.append(self.R(v))
        nm = o if o != "fn" else t.val
        if o == "pow": nm = "pow"
        k = len(flat)

        def uf(suffix):
            f = self.fns.get((nm + suffix, k))
            if f is None:
                f = self.fns[(nm + suffix, k)] = z3.Function(nm + suffix, *([z3.RealSort()] * (k + 1)))
            return f(*flat)
        if cx: return (uf(".re"), uf(".im"))
        v = uf("")
        if nm == "exp":
            self.ax += [v > 0, z3.Implies(flat[0] == 0, v == 1), z3.Implies(flat[0] > 0, v > 1), z3.Implies(flat[0] < 0, v < 1)]
        if nm in ("sin", "cos"): self.ax += [v <= 1, v >= -1]
        if nm == "toreal" : self.ax.append(v == flat[0])
        if t.sort == "I":
            return z3.ToInt(v)
        if t.sort == "B": return v > 0
        return v


def check(formulas, timeout_ms=5000, want_model=True):
    """-> ('unsat'|'sat'|'unknown', model dict T->number or None)"""
    tr = Tr()
    fs = [tr.tr(f) for f in formulas]
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for f in fs: s.add(f)
    for a in tr.ax: s.add(a)
    r = s.check()
    if r == z3.unsat: return "unsat", None
    if r == z3.sat:
        if not want_model: return "sat", None
        m = s.model()

        def val(v):
            x = m.eval(v, model_completion=True)
            if z3.is_bool(v): return bool(z3.is_true(x))
            if z3.is_int_value(x): return int(x.as_long())
            if z3.is_rational_value(x): return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            if z3.is_algebraic_value(x):
                a = x.approx(30)
                return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            return 0.0
        env = {}
        for t, v in tr.vars.items():
            env[t] = complex(val(v[0]), val(v[1])) if isinstance(v, tuple) else val(v)
        return "sat", env
    return "unknown", None
