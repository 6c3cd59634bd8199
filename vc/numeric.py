"""Evaluate terms at a point in high precision (mpmath)."""
import hashlib
import mpmath as mp
from . import term as tm

mp.mp.dps = 50


def _hashfn(name, args, sort):
    s = name + "|" + "|".join(mp.nstr(mp.mpc(a).real, 18) + "," + mp.nstr(mp.mpc(a).imag, 18) for a in args)
    h = hashlib.sha256(s.encode()).digest()
    f = lambda b: mp.mpf(int.from_bytes(b, "big")) / mp.mpf(2 ** 64) * 2 - 1
    r = f(h[:8])
    if sort == "C": return mp.mpc(r, f(h[8:16]))
    if sort == "I": return mp.mpf(int(r * 1000))
    if sort == "B": return r > 0
    return r


FN = {
    "log": mp.log, "tan": mp.tan, "atan": mp.atan, "asin": mp.asin, "acos": mp.acos, "sinh": mp.sinh, "cosh": mp.cosh,
    "tanh": mp.tanh, "atan2": mp.atan2, "floor": mp.floor, "ceil": mp.ceil, "sign": mp.sign,
    "trunc": lambda x: mp.floor(x) if x >= 0 else mp.ceil(x), "round": mp.nint,
    "log1p": mp.log1p, "expm1": mp.expm1, "logistic": lambda x: 1 / (1 + mp.exp(-x)),
    "rem": lambda x, y: x - y * FN["trunc"](x / y), "lgamma": mp.loggamma, "digamma": mp.digamma,
    "erf": mp.erf, "asinh": mp.asinh, "acosh": mp.acosh, "atanh": mp.atanh, "gamma": mp.gamma,
    "ellipk": mp.ellipk, "ellipe": mp.ellipe,
}
for _n in (0, 1, 2):
    FN["J%d" % _n] = (lambda n: lambda x: mp.besselj(n, x))(_n)


def evaluate(roots, env, extra=None):
    """env: dict T(var) -> number.  Returns list of values."""
    memo = {}
    for t in tm.topo(roots):
        memo[t.id] = _ev(t, memo, env)
    return [memo[r.id] for r in roots]


def _ev(t, m, env):
    o = t.op
    if o == "const": return t.val if t.sort == "B" else mp.mpf(t.val.numerator) / t.val.denominator
    if o == "var":
        return env[t]
    if o == "pi": return mp.pi
    if o == "I": return mp.mpc(0, 1)
    if o == "inf": return mp.inf
    if o == "ninf": return -mp.inf
    if o == "nan": return mp.nan
    if o == "ite":
        return m[t.args[1].id] if m[t.args[0].id] else m[t.args[2].id]
    a = [m[x.id] for x in t.args]
    try:
        if o == "add": return a[0] + a[1]
        if o == "mul": return a[0] * a[1]
        if o == "div": return a[0] / a[1]
        if o == "powi": return a[0] ** t.val
        if o == "pow": return mp.power(a[0], a[1])
        if o == "sqrt":
            if t.sort == "R" and mp.mpf(a[0].real) < 0: return mp.nan
            return mp.sqrt(a[0])
        if o == "conj": return mp.conj(a[0])
        if o == "re": return mp.re(a[0])
        if o == "im": return mp.im(a[0])
        if o == "cplx": return mp.mpc(a[0], a[1])
        if o == "abs": return abs(a[0])
        if o == "exp": return mp.exp(a[0])
        if o == "sin": return mp.sin(a[0])
        if o == "cos": return mp.cos(a[0])
        if o == "fn":
            f = FN.get(t.val)
            if f is None: return _hashfn(t.val, [x if not isinstance(x, bool) else int(x) for x in a], t.sort)
            return f(*a)
        if o == "not": return not a[0]
        if o == "and": return all(a)
        if o == "lt": return bool(mp.re(a[0]) < mp.re(a[1]))
        if o == "eq": return bool(a[0] == a[1])
    except (ZeroDivisionError, ValueError, OverflowError):
        return mp.nan
    raise KeyError(o)
