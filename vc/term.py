"""Hash-consed first-order terms: the language the VCs are written in.

Sorts: 'R' (real), 'C' (complex), 'I' (integer), 'B' (bool).
Floating-point literals found in the traced program are read as the rational
(or rational multiple of pi) they are the nearest double of -- see `nice`.
"""
from fractions import Fraction
import math
import itertools

_tab = {}
_ctr = itertools.count()


class T:
    __slots__ = ("op", "args", "val", "sort", "id")

    def __repr__(self):
        return pretty(self)

    # numeric conveniences so specifications read naturally
    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __neg__(s): return neg(s)
    def __pow__(s, n): return powi(s, n) if isinstance(n, int) else pow_(s, n)
    def __lt__(s, o): return lt(s, o)
    def __le__(s, o): return le(s, o)
    def __gt__(s, o): return lt(o, s)
    def __ge__(s, o): return le(o, s)
    def __and__(s, o): return and_(s, o)
    def __or__(s, o): return or_(s, o)
    def __invert__(s): return not_(s)
    def __abs__(s): return abs_(s)
    def conj(s): return conj(s)
    # no __eq__: identity
    def __hash__(s): return s.id
    def __bool__(s):
        if s.op == "const" and s.sort == "B":
            return bool(s.val)
        raise TypeError("symbolic boolean used concretely: %s" % pretty(s)[:200])


def mk(op, args=(), val=None, sort="R"):
    key = (op, tuple(a.id for a in args), val, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.val, t.sort, t.id = op, tuple(args), val, sort, next(_ctr)
        _tab[key] = t
    return t


def var(name, sort="R"):
    return mk("var", (), name, sort)


class G:
    """Gaussian rational constant."""
    __slots__ = ("re", "im")

    def __init__(s, re, im): s.re, s.im = Fraction(re), Fraction(im)
    def __hash__(s): return hash((s.re, s.im))
    def __eq__(s, o): return isinstance(o, G) and s.re == o.re and s.im == o.im
    def __repr__(s): return "(%s%+sj)" % (s.re, s.im)


_nice_cache = {}


def _close(a, x):
    return abs(float(a) - x) <= 1e-15 * abs(x)


def nice(x):
    """Read a double literal as the number it stands for: (Fraction, power of pi)."""
    x = float(x)
    r = _nice_cache.get(x)
    if r is not None:
        return r
    r = _nice(x)
    _nice_cache[x] = r
    return r


def _nice(x):
    if x == int(x) and abs(x) < 1e18:
        return Fraction(int(x)), 0
    s = repr(x)
    digs = s.split("e")[0].replace("-", "").replace(".", "").strip("0")
    if len(digs) <= 12:
        return Fraction(s), 0
    f = Fraction(x).limit_denominator(20000)
    if f != 0 and _close(f, x):
        return f, 0
    for k in (1, -1, 2, -2):
        y = x / math.pi ** k
        f = Fraction(y).limit_denominator(2000)
        if f != 0 and abs(float(f) - y) <= 2e-15 * abs(y):
            return f, k
    if len(digs) <= 15:
        return Fraction(s), 0
    return Fraction(x), 0


PI = mk("pi")


def const(v, sort=None):
    if isinstance(v, T):
        return v
    if isinstance(v, bool) or type(v).__name__ in ("bool_", "bool"):
        return mk("const", (), bool(v), "B")
    if isinstance(v, Fraction):
        return mk("const", (), v, sort or "R")
    if isinstance(v, int):
        return mk("const", (), Fraction(v), sort or "R")
    if isinstance(v, complex) or type(v).__name__ in ("complex128", "complex64"):
        v = complex(v)
        return add(to_c(const(v.real)), mul(I, const(v.imag)))
    if isinstance(v, float) or type(v).__name__.startswith("float"):
        v = float(v)
        if math.isnan(v) or math.isinf(v):
            return mk("inf" if v > 0 else ("ninf" if v < 0 else "nan"))
        f, k = nice(v)
        c = mk("const", (), f, "R")
        if k > 0:
            for _ in range(k): c = mk("mul", (c, PI), None, "R")
        elif k < 0:
            for _ in range(-k): c = mk("div", (c, PI), None, "R")
        return c
    if type(v).__name__.startswith(("int", "uint")):
        return mk("const", (), Fraction(int(v)), sort or "I")
    raise TypeError(type(v))


TRUE = mk("const", (), True, "B")
FALSE = mk("const", (), False, "B")
ZERO = mk("const", (), Fraction(0), "R")
ONE = mk("const", (), Fraction(1), "R")
I = mk("I", (), None, "C")


def _lift(a):
    return a if isinstance(a, T) else const(a)


def cv(t):
    """constant rational value or None"""
    return t.val if t.op == "const" and t.sort != "B" else None


def _join(*ts):
    s = {t.sort for t in ts}
    if "C" in s: return "C"
    if "R" in s: return "R"
    return "I"


def to_c(t):
    return t


def is_special(t): return t.op in ("inf", "ninf", "nan")


def add(a, b):
    a, b = _lift(a), _lift(b)
    x, y = cv(a), cv(b)
    s = _join(a, b)
    if x is not None and y is not None:
        return mk("const", (), x + y, s if s != "C" else "R")
    if x == 0: return b
    if y == 0: return a
    if a.op == "ite" and y is not None and _const_ite(a): return _map_ite(a, lambda t: add(t, b))
    if b.op == "ite" and x is not None and _const_ite(b): return _map_ite(b, lambda t: add(a, t))
    if a.id > b.id: a, b = b, a
    return mk("add", (a, b), None, s)


def _const_ite(t, depth=4):
    if t.op == "const": return True
    if depth == 0 or t.op != "ite": return False
    return _const_ite(t.args[1], depth - 1) and _const_ite(t.args[2], depth - 1)


def _map_ite(t, f):
    if t.op == "ite":
        return ite(t.args[0], _map_ite(t.args[1], f), _map_ite(t.args[2], f))
    return f(t)


def neg(a): return mul(const(-1), a)
def sub(a, b):
    a, b = _lift(a), _lift(b)
    if a is b and not is_special(a): return ZERO if a.sort != "I" else const(0, "I")
    return add(a, neg(b))


def mul(a, b):
    a, b = _lift(a), _lift(b)
    x, y = cv(a), cv(b)
    s = _join(a, b)
    if x is not None and y is not None:
        return mk("const", (), x * y, s if s != "C" else "R")
    if x == 0 or y == 0:
        if is_special(a) or is_special(b): return mk("nan")
        return mk("const", (), Fraction(0), "I" if s == "I" else "R")
    if x == 1: return b
    if y == 1: return a
    if x is not None and is_special(b):
        if b.op == "nan": return b
        return mk("inf" if (b.op == "inf") == (x > 0) else "ninf")
    if y is not None and is_special(a): return mul(b, a)
    if x is not None and b.op == "mul" and cv(b.args[0]) is not None:
        return mul(mk("const", (), x * cv(b.args[0]), a.sort), b.args[1])
    if a.op == "ite" and y is not None and _const_ite(a): return _map_ite(a, lambda t: mul(t, b))
    if b.op == "ite" and x is not None and _const_ite(b): return _map_ite(b, lambda t: mul(a, t))
    if y is not None: a, b = b, a
    elif x is None and a.id > b.id: a, b = b, a
    return mk("mul", (a, b), None, s)


def div(a, b):
    a, b = _lift(a), _lift(b)
    x, y = cv(a), cv(b)
    s = _join(a, b)
    if s == "I": s = "R"
    if x is not None and y is not None and y != 0:
        return mk("const", (), x / y, s if s != "C" else "R")
    if y == 0:
        if x is not None: return mk("nan") if x == 0 else mk("inf" if x > 0 else "ninf")
        return mk("div", (a, b), None, s)
    if y is not None: return mul(const(1 / y), a)
    if is_special(b) and b.op != "nan": return ZERO
    return mk("div", (a, b), None, s)


def powi(a, n):
    a = _lift(a)
    if n == 0: return mk("const", (), Fraction(1), "I" if a.sort == "I" else "R")
    if n == 1: return a
    x = cv(a)
    if x is not None and (x != 0 or n > 0):
        return mk("const", (), x ** n, a.sort)
    if n < 0: return div(ONE, powi(a, -n))
    return mk("powi", (a,), n, a.sort)


def pow_(a, b):
    a, b = _lift(a), _lift(b)
    y = cv(b)
    if y is not None:
        if y.denominator == 1: return powi(a, int(y))
        if y == Fraction(1, 2): return sqrt(a)
        if y.denominator == 2:
            k = int(y - Fraction(1, 2))
            return mul(powi(a, k), sqrt(a))
    return mk("pow", (a, b), None, _join(a, b) if _join(a, b) != "I" else "R")


def sqrt(a):
    a = _lift(a)
    x = cv(a)
    if x is not None and x >= 0:
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return const(Fraction(n, d))
    if is_special(a) and a.op != "ninf": return a
    return mk("sqrt", (a,), None, "C" if a.sort == "C" else "R")


def conj(a):
    a = _lift(a)
    if a.sort != "C": return a
    if a.op == "conj": return a.args[0]
    return mk("conj", (a,), None, "C")


def real(a):
    a = _lift(a)
    if a.sort != "C": return a
    if a.op == "cplx": return a.args[0]
    return mk("re", (a,), None, "R")


def imag(a):
    a = _lift(a)
    if a.sort != "C": return ZERO
    if a.op == "cplx": return a.args[1]
    return mk("im", (a,), None, "R")


def cplx(x, y):
    x, y = _lift(x), _lift(y)
    if cv(y) == 0: return x
    if x.op == "re" and y.op == "im" and x.args[0] is y.args[0]: return x.args[0]
    return mk("cplx", (x, y), None, "C")


def abs_(a):
    a = _lift(a)
    x = cv(a)
    if x is not None: return mk("const", (), abs(x), a.sort)
    if a.op in ("inf", "ninf"): return mk("inf")
    if a.op in ("abs", "sqrt", "exp") and a.sort != "C": return a
    if a.op == "mul" and cv(a.args[0]) is not None and cv(a.args[0]) == -1: return abs_(a.args[1])
    if a.op == "I": return ONE
    return mk("abs", (a,), None, "I" if a.sort == "I" else "R")


_ZERO_AT = {"sin": 0, "cos": 1, "exp": 1, "tan": 0, "sinh": 0, "cosh": 1, "tanh": 0, "atan": 0, "asin": 0, "log1p": 0, "expm1": 0, "erf": 0}


def fn(name, *args, sort=None):
    args = [_lift(a) for a in args]
    if sort is None:
        sort = "C" if any(a.sort == "C" for a in args) else "R"
    if len(args) == 1 and cv(args[0]) == 0 and name in _ZERO_AT: return const(_ZERO_AT[name])
    if name == "log" and cv(args[0]) == 1: return ZERO
    if name == "exp" and args[0].op == "ninf": return ZERO
    if name in ("floor", "ceil", "round", "trunc", "sign") and cv(args[0]) is not None:
        x = cv(args[0])
        v = {"floor": math.floor, "ceil": math.ceil, "round": round, "trunc": math.trunc,
             "sign": lambda t: (t > 0) - (t < 0)}[name](x)
        return const(Fraction(v), args[0].sort)
    if name in ("exp", "sin", "cos"):
        return mk(name, args, None, sort)
    return mk("fn", args, name, sort)


def exp(a): return fn("exp", a)
def sin(a): return fn("sin", a)
def cos(a): return fn("cos", a)
def log(a): return fn("log", a)


# ---- booleans -------------------------------------------------------------
def not_(a):
    a = _lift(a)
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    return mk("not", (a,), None, "B")


def and_(*xs):
    out = []
    for a in xs:
        a = _lift(a)
        if a is FALSE: return FALSE
        if a is TRUE: continue
        for b in (a.args if a.op == "and" else (a,)):
            if b not in out: out.append(b)
    for a in out:
        if not_(a) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return mk("and", out, None, "B")


def or_(*xs): return not_(and_(*[not_(_lift(x)) for x in xs]))
def implies(a, b): return or_(not_(a), b)
def iff(a, b): return eq(a, b)


def lt(a, b):
    a, b = _lift(a), _lift(b)
    if a.sort == "B" and b.sort == "B": return and_(not_(a), b)
    x, y = cv(a), cv(b)
    if x is not None and y is not None: return TRUE if x < y else FALSE
    if a is b: return FALSE
    if a.op == "nan" or b.op == "nan": return FALSE
    if b.op == "inf": return TRUE if a.op != "inf" else FALSE
    if a.op == "ninf": return TRUE if b.op != "ninf" else FALSE
    if a.op == "inf" or b.op == "ninf": return FALSE
    if y is not None and _has_special(a): return _map_ite(a, lambda t: lt(t, b))
    if x is not None and _has_special(b): return _map_ite(b, lambda t: lt(a, t))
    if _has_special(a): return _map_ite(a, lambda t: lt(t, b))
    if _has_special(b): return _map_ite(b, lambda t: lt(a, t))
    if y is not None and _const_ite(a): return _map_ite(a, lambda t: lt(t, b))
    if x is not None and _const_ite(b): return _map_ite(b, lambda t: lt(a, t))
    return mk("lt", (a, b), None, "B")


_hs = {}


def _has_special(t):
    if t.op != "ite": return is_special(t)
    r = _hs.get(t.id)
    if r is None:
        r = _has_special(t.args[1]) or _has_special(t.args[2])
        _hs[t.id] = r
    return r


def le(a, b):
    a, b = _lift(a), _lift(b)
    if a.op == "nan" or b.op == "nan": return FALSE
    if _has_special(a) and a.op == "ite": return _map_ite(a, lambda t: le(t, b))
    if _has_special(b) and b.op == "ite": return _map_ite(b, lambda t: le(a, t))
    return not_(lt(b, a))


def eq(a, b):
    a, b = _lift(a), _lift(b)
    if a is b: return TRUE if a.op != "nan" else FALSE
    if a.sort == "B":
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        if a is not_(b): return FALSE
        if a.id > b.id: a, b = b, a
        return mk("eq", (a, b), None, "B")
    x, y = cv(a), cv(b)
    if x is not None and y is not None: return TRUE if x == y else FALSE
    if is_special(a) or is_special(b):
        o = b if is_special(a) else a
        if o.op == "ite": return _map_ite(o, lambda t: eq(a if o is b else b, t))
        return FALSE
    if y is not None and _const_ite(a): return _map_ite(a, lambda t: eq(t, b))
    if x is not None and _const_ite(b): return _map_ite(b, lambda t: eq(a, t))
    if a.sort == "I" and (x is not None or y is not None):
        r = _count_eq(b, x) if x is not None else _count_eq(a, y)
        if r is not None: return r
    if a.id > b.id: a, b = b, a
    return mk("eq", (a, b), None, "B")


def _count_eq(t, k):
    """sum of (condition ? c1 : c0) == k as a formula over the conditions"""
    parts, st = [], [t]
    while st:
        u = st.pop()
        if u.op == "add": st.extend(u.args)
        elif u.op == "const": parts.append([(TRUE, u.val)])
        elif u.op == "ite" and u.args[1].op == "const" and u.args[2].op == "const": parts.append([(u.args[0], u.args[1].val), (not_(u.args[0]), u.args[2].val)])
        else: return None
    if len(parts) < 2 or len(parts) > 12: return None
    dist = {0: TRUE}
    for p in parts:
        nd = {}
        for s0, f in dist.items():
            for c, v in p:
                nd[s0 + v] = or_(nd.get(s0 + v, FALSE), and_(f, c))
        dist = nd
    return dist.get(k, FALSE)


def ite(c, a, b):
    c, a, b = _lift(c), _lift(a), _lift(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == "B" or b.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not": return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    s = "I" if (a.sort == "I" and b.sort == "I") else _join(a, b)
    return mk("ite", (c, a, b), None, s)


def max_(a, b):
    a, b = _lift(a), _lift(b)
    return ite(lt(a, b), b, a)


def min_(a, b):
    a, b = _lift(a), _lift(b)
    return ite(lt(b, a), b, a)


# ---- generic traversal -----------------------------------------------------
def topo(roots):
    """post-order list of the DAG below roots"""
    seen, out = set(), []
    st = [(r, False) for r in reversed(list(roots))]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, True))
        for a in t.args:
            if a.id not in seen: st.append((a, False))
    return out


def rebuild(t, args):
    o = t.op
    if not t.args: return t
    if o == "add": return add(*args)
    if o == "mul": return mul(*args)
    if o == "div": return div(*args)
    if o == "powi": return powi(args[0], t.val)
    if o == "pow": return pow_(*args)
    if o == "sqrt": return sqrt(args[0])
    if o == "conj": return conj(args[0])
    if o == "re": return real(args[0])
    if o == "im": return imag(args[0])
    if o == "cplx": return cplx(*args)
    if o == "abs": return abs_(args[0])
    if o in ("exp", "sin", "cos"): return fn(o, *args)
    if o == "fn": return fn(t.val, *args, sort=t.sort)
    if o == "not": return not_(args[0])
    if o == "and": return and_(*args)
    if o == "lt": return lt(*args)
    if o == "eq": return eq(*args)
    if o == "ite": return ite(*args)
    raise KeyError(o)


def subst(t, m, memo=None):
    """m: dict T -> T"""
    memo = {} if memo is None else memo
    for n in topo([t]):
        if n.id in memo: continue
        if n in m:
            memo[n.id] = m[n]
            continue
        if not n.args:
            memo[n.id] = n
            continue
        na = [memo[a.id] for a in n.args]
        memo[n.id] = n if all(x is y for x, y in zip(na, n.args)) else rebuild(n, na)
    return memo[t.id]


def free_vars(*ts):
    return [n for n in topo(ts) if n.op == "var"]


def pretty(t, depth=6):
    if t.op == "const": return str(t.val)
    if t.op == "var": return str(t.val)
    if not t.args: return t.op
    if depth == 0: return "..."
    a = [pretty(x, depth - 1) for x in t.args]
    if t.op in ("add", "mul", "div", "lt", "eq"):
        sy = {"add": " + ", "mul": "*", "div": "/", "lt": " < ", "eq": " == "}[t.op]
        return "(" + sy.join(a) + ")"
    if t.op == "powi": return "%s^%d" % (a[0], t.val)
    if t.op == "fn": return "%s(%s)" % (t.val, ", ".join(a))
    return "%s(%s)" % (t.op, ", ".join(a))
