"""Exact normaliser: a term becomes num/den over Q[I, x, xbar, sqrt-atoms,
exp-atoms, opaque atoms]; equality is decided by `is_zero` of the difference
(sound: a zero numerator after applying s^2 = radicand, I^2 = -1,
exp(a+b) = exp(a) exp(b) means the two terms agree wherever both are defined)."""
from fractions import Fraction
import math
from . import poly as P
from . import term as tm
from .poly import Budget

QEXP = 24


class HasIte(Exception):
    def __init__(self, t): self.t = t


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}


def _sqfree(n):
    """n = s^2 * m"""
    s, m, p = 1, 1, 2
    while p * p <= n and p < 1000:
        while n % (p * p) == 0: n //= p * p; s *= p
        if n % p == 0: n //= p; m *= p
        p += 1
    r = math.isqrt(n)
    if r * r == n: return s * r, m
    return s, m * n


class Norm:
    def __init__(self, positive=(), ite_opaque=True):
        self.names = ["I"]
        self.kind = ["I"]
        self.bar = {0: None}
        self.rel = {}          # sqrt var -> radicand poly
        self.inverse_conj = {}  # exp var -> (kind)
        self.base = {}
        self.memo = {}
        self.sq_atoms = []      # (var, radicand)
        self.exp_atoms = {}
        self.op_atoms = {}      # fn name -> list of (argrats, var)
        self.logarg = {}
        self.positive = set(positive)   # term ids assumed > 0
        self.posvar = set()
        self.realvar = set()
        self.ite_opaque = ite_opaque
        self.I = Rat({1: 1})

    # ---- variables ----
    def newvar(self, name, kind):
        self.names.append(name)
        self.kind.append(kind)
        return len(self.names) - 1

    def basevar(self, t):
        v = self.base.get(t.id)
        if v is None:
            v = self.newvar(str(t.val if t.op == "var" else "#%d" % t.id), "base")
            self.base[t.id] = v
            if t.sort == "C":
                b = self.newvar(self.names[v] + "~", "base")
                self.bar[v], self.bar[b] = b, v
            else:
                self.bar[v] = v
                self.realvar.add(v)
                if t.id in self.positive or t.op == "pi": self.posvar.add(v)
        return v

    # ---- Rat arithmetic ----
    def const(self, c):
        return Rat({0: P.norm(Fraction(c))} if c else {})

    def mulden(self, a, b):
        if not a: return b
        if not b: return a
        r = dict(a)
        for k, (p, e) in b.items():
            r[k] = (p, r[k][1] + e) if k in r else (p, e)
        return r

    def cancel_mono(self, n, d):
        """cancel single-variable denominators against monomial content"""
        if not n: return n, {}
        for k, (p, e) in list(d.items()):
            if len(p) == 1:
                (m, _), = p.items()
                g = P.mono_gcd(n)
                c = 0
                i = next(iter(P.exps(m)))
                gi = (g >> (P.W * i)) & P.MASK
                c = min(gi, e)
                if c:
                    n = P.mono_div(n, c << (P.W * i))
                    d = dict(d)
                    if e == c: del d[k]
                    else: d[k] = (p, e - c)
        return n, d

    def add(self, a, b):
        if not a.n: return b
        if not b.n: return a
        if a.d is b.d or a.d.keys() == b.d.keys() and all(a.d[k][1] == b.d[k][1] for k in a.d):
            n = P.padd(a.n, b.n)
            if not n: return Rat({})
            n, d = self.cancel_mono(n, a.d)
            if d and len(n) <= 300: return self._cancel(n, d)
            return Rat(n, d)
        d = dict(a.d)
        for k, (p, e) in b.d.items():
            if k not in d or d[k][1] < e: d[k] = (p, e)
        an, bn = a.n, b.n
        for k, (p, e) in d.items():
            ea = a.d[k][1] if k in a.d else 0
            eb = b.d[k][1] if k in b.d else 0
            if e > ea: an = P.pmul(an, P.ppow(p, e - ea))
            if e > eb: bn = P.pmul(bn, P.ppow(p, e - eb))
        n = P.padd(an, bn)
        if not n: return Rat({})
        n, d = self.cancel_mono(n, d)
        if d and len(n) <= 300: return self._cancel(n, d)
        return Rat(n, d)

    def _cancel(self, n, d):
        for k, (p, e) in list(d.items()):
            if len(p) == 1 or len(p) > len(n): continue
            while e > 0:
                q = P.exact_div(n, p, 400)
                if q is None or P.pmul(q, p) != n: break
                n, e = q, e - 1
            if e != d[k][1]:
                d = dict(d)
                if e == 0: d.pop(k)
                else: d[k] = (p, e)
        return Rat(n, d)

    def mul(self, a, b):
        if not a.n or not b.n: return Rat({})
        an, bn, ad, bd = a.n, b.n, a.d, b.d
        # cross-cancel whole factors
        if bd and len(an) > 1:
            an, bd = self._xc(an, bd)
        if ad and len(bn) > 1:
            bn, ad = self._xc(bn, ad)
        n = P.pmul(an, bn)
        d = self.mulden(ad, bd)
        if self.rel: n, d = self.reduce_rat(n, d)
        else: n, d = self.cancel_mono(n, d)
        if not n: return Rat({})
        return Rat(n, d)

    def _xc(self, n, d):
        pn, c = P.primitive(n)
        k = P.key(pn)
        if k in d:
            p, e = d[k]
            d = dict(d)
            if e == 1: del d[k]
            else: d[k] = (p, e - 1)
            return {0: c}, d
        return n, d

    def _maybe(self, n):
        return bool(self.rel)

    def neg(self, a): return Rat(P.pscale(a.n, -1), a.d)

    def inv(self, a):
        if not a.n: raise ZeroDivisionError("symbolic division by zero")
        n = self.reduce(a.n)
        if not n: raise ZeroDivisionError("symbolic division by zero")
        g = P.mono_gcd(n)
        d = {}
        if g:
            n = P.mono_div(n, g)
            for i, e in P.exps(g).items():
                p = P.var(i)
                d[P.key(p)] = (p, e)
        num = P.ONE
        for k, (p, e) in a.d.items(): num = P.pmul(num, P.ppow(p, e))
        if len(n) == 1:
            (m, c), = n.items()
            if m == 0:
                return Rat(*self.cancel_mono(P.pscale(num, Fraction(1) / c), d))
            if m == 1:  # c*I
                return Rat(*self.cancel_mono(P.pmul(num, {1: -Fraction(1) / c}), d))
        q, c = P.primitive(n)
        d[P.key(q)] = (q, 1)
        return Rat(*self.cancel_mono(P.pscale(num, Fraction(1) / c), d))

    def powi(self, a, n):
        if n == 0: return self.const(1)
        if n < 0: a = self.inv(a); n = -n
        d = {k: (p, e * n) for k, (p, e) in a.d.items()}
        num = P.ppow(a.n, n)
        if self.rel: num, d = self.reduce_rat(num, d)
        return Rat(num, d)

    # ---- conj ----
    def conj_poly(self, n):
        out = []
        top = {}
        for m, c in n.items():
            k, inv = 0, {}
            for i, e in P.exps(m).items():
                if i == 0:
                    k += e
                    c = -c
                    continue
                b = self.bar[i]
                if isinstance(b, tuple):
                    inv[b[1]] = inv.get(b[1], 0) + e
                else:
                    k += e << (P.W * b)
            for b, e in inv.items():
                if e > top.get(b, 0): top[b] = e
            out.append((k, c, inv))
        r = {}
        for k, c, inv in out:
            for b, e in top.items():
                x = e - inv.get(b, 0)
                if x: k += x << (P.W * b)
            s = r.get(k, 0) + c
            if s: r[k] = s
            else: r.pop(k, None)
        d = {}
        for b, e in top.items():
            p = P.var(b)
            d[P.key(p)] = (p, e)
        if not r: return Rat({})
        return Rat(*self.cancel_mono(r, d)) if d else Rat(r)

    def conj(self, a):
        r = self.conj_poly(a.n)
        for k, (p, e) in a.d.items():
            r = self.mul(r, self.powi(self.inv(self.conj_poly(p)), e))
        return r

    # ---- reduction by s^2 = radicand ----
    def reduce(self, n):
        for i in sorted(self.rel, reverse=True):
            rad, den = self.rel[i]
            if den: continue
            hi = (P.MASK - 1) << (P.W * i)
            if not any(m & hi for m in n): continue
            out = {}
            for e, c in P.collect(n, i).items():
                if e > 1: c = P.pmul(c, P.ppow(rad, e // 2))
                if e % 2: c = P.pmul(c, P.var(i))
                out = P.padd(out, c)
            n = out
        return n

    def is_zero(self, a):
        n = a.n
        while n:
            m = self.reduce(n)
            m = self._reduce_phase(m)
            if m == n: break
            n = m
        return not n

    def reduce_rat(self, n, d):
        """apply s^2 = radicand completely; phase denominators go to d"""
        while True:
            ext = []
            m = self._reduce_phase(self.reduce(n), ext)
            for mono in ext:
                for i, e in P.exps(mono).items():
                    p = P.var(i)
                    d = self.mulden(d, {P.key(p): (p, e)})
            if m == n: break
            n = m
        if not n: return n, {}
        return self.cancel_mono(n, d)

    def _reduce_phase(self, n, ext=None):
        """s^2 = N/D with D a monomial in phases: clear by multiplying through"""
        for i in sorted(self.rel, reverse=True):
            rad, den = self.rel[i]
            if not den: continue
            col = P.collect(n, i)
            top = max(col, default=0) // 2
            if top == 0: continue
            if ext is not None: ext.append(den * top)
            out = {}
            for e, c in col.items():
                k = e // 2
                if k: c = P.pmul(c, P.ppow(rad, k))
                if top - k: c = P.pmul(c, {den * (top - k): 1})
                if e % 2: c = P.pmul(c, P.var(i))
                out = P.padd(out, c)
            n = self.reduce(out)
        return n

    def canon(self, a):
        """try to cancel denominators"""
        n, d = self.reduce_rat(a.n, dict(a.d))
        d = dict(d)
        if not n: return Rat({})
        for k, (p, e) in list(d.items()):
            while e > 0:
                q = P.exact_div(n, p, 4000) if len(n) < 4000 else None
                if q is None or P.pmul(q, p) != n: break
                n, e = q, e - 1
            if e == 0: d.pop(k)
            else: d[k] = (p, e)
        return Rat(n, d)

    def equal(self, a, b): return self.is_zero(self.add(a, self.neg(b)))

    # ---- atoms ----
    def isreal_poly(self, n):
        c = self.conj_poly(n)
        return not c.d and c.n == n

    def sqrt_poly(self, p, phase=0):
        """sqrt of p/phase as Rat (numerator only)"""
        p = self.reduce(p)
        if not p: return Rat({})
        out = self.const(1)
        if phase:
            # pull numeric content only
            c = Fraction(p[P.lead(p)])
            if c > 0:
                s, m = _sqfree(c.numerator * c.denominator)
                out = self.const(Fraction(s, c.denominator))
                p = P.pscale(p, m / c)
        elif self.isreal_poly(p):
            g = P.mono_gcd(p)
            if g:
                ge = P.exps(g)
                take = {}
                for i, e in ge.items():
                    if i in self.realvar or i in self.rel:
                        if i in self.posvar or i in self.rel:
                            # s positive: only even powers
                            if e >= 2:
                                take[i] = e - e % 2
                                out = self.mul(out, Rat(P.var(i, e // 2)))
                        elif e >= 2 and len(p) > 1 or e > 2:
                            take[i] = e - e % 2
                            out = self.mul(out, self.powi(self.sqrt_poly(P.var(i, 2)), e // 2))
                    else:
                        b = self.bar.get(i)
                        if isinstance(b, int) and b > i and ge.get(b, 0) >= 1 and (len(p) > 1 or ge[b] > 1 or e > 1 or len(ge) > 2):
                            k = min(e, ge[b])
                            take[i] = take.get(i, 0) + k
                            take[b] = take.get(b, 0) + k
                            out = self.mul(out, self.powi(self.sqrt_poly({(1 << P.W * i) + (1 << P.W * b): 1}), k))
                tm_ = sum(e << (P.W * i) for i, e in take.items())
                if tm_: p = P.mono_div(p, tm_)
            # numeric content
            from math import gcd
            nums = [Fraction(c) for c in p.values()]
            den = 1
            for c in nums: den = den * c.denominator // gcd(den, c.denominator)
            gi = 0
            for c in nums: gi = gcd(gi, int(c * den))
            # p = gi/den * p0 ; sqrt(gi/den) = sqrt(gi*den)/den
            s, m = _sqfree(gi * den)
            p0 = P.pscale(p, Fraction(den, gi))
            out = self.mul(out, self.const(Fraction(s, den)))
            p = P.pscale(p0, m)
            if p == P.ONE: return out
            if len(p) > 1:
                q = P.psqrt(p)
                if q is not None:
                    if self._even_ok(q): return self.mul(out, Rat(q))
                    q = P.pscale(q, -1)
                    if self._even_ok(q): return self.mul(out, Rat(q))
        for v, r in self.sq_atoms:
            if r == (p, phase): return self.mul(out, Rat(P.var(v)))
        v = self.newvar("sqrt%d" % len(self.sq_atoms), "sqrt")
        self.rel[v] = (p, phase)
        self.sq_atoms.append((v, (p, phase)))
        cp = self.conj_poly(p)
        if phase:
            ph = self._phase_rat(phase)
            isre = self.equal(self.mul(cp, ph), self.mul(Rat(p), self.inv(ph)))
            if not isre: raise Budget("sqrt of complex phase expression")
        else: isre = not cp.d and cp.n == p
        if isre:
            # real radicand: assumed >= 0 where the root is used
            self.bar[v] = v
            self.realvar.add(v)
        else:
            b = self.newvar("sqrt%d~" % len(self.sq_atoms), "sqrt")
            if cp.d: raise Budget("conj of sqrt with exp denominators")
            self.rel[b] = (cp.n, 0)
            self.sq_atoms.append((b, (cp.n, 0)))
            self.bar[v], self.bar[b] = b, v
        return self.mul(out, Rat(P.var(v)))

    def abs_factor(self, p):
        """|p| for polynomial p"""
        if len(p) == 1:
            (m, c), = p.items()
            ex = P.exps(m)
            if len(ex) == 1:
                i, = ex
                if i in self.posvar or (i in self.rel and i in self.realvar):
                    return Rat({m: abs(c)})
                if isinstance(self.bar.get(i), tuple):  # |exp(i theta)| = 1
                    return self.const(abs(c))
        cp = self.conj_poly(p)
        sq = self.mul(cp, Rat(p))
        return self.sqrt_rat(sq)

    def _phase_rat(self, phase):
        return Rat({phase: 1})

    def sqrt_rat(self, a):
        a = self.canon(a)
        n = a.n
        den = self.const(1)
        phase = 0
        if n:
            # phases (unit-modulus exponentials) in monomial content / denominators
            for i, e in P.exps(P.mono_gcd(n)).items():
                if isinstance(self.bar.get(i), tuple) and self.bar[i][1] == i:
                    raise Budget("sqrt: phase content")
        for k, (p, e) in a.d.items():
            if len(p) == 1:
                (m, _), = p.items()
                i, = P.exps(m) if len(P.exps(m)) == 1 else (None,)
                if i is not None and isinstance(self.bar.get(i), tuple) and self.bar[i][1] == i:
                    phase += m * e
                    continue
            if e % 2:
                n = P.pmul(n, p)
                e += 1
            f = Rat(p) if self._even_ok(p) else self.abs_factor(p)
            den = self.mul(den, self.powi(f, e // 2))
        return self.mul(self.sqrt_poly(n, phase), self.inv(den))

    def _even_ok(self, p):
        """p known positive"""
        return all(c > 0 and all(i in self.posvar or (i in self.rel and i in self.realvar) or (i in self.realvar and e % 2 == 0)
                                 for i, e in P.exps(m).items()) for m, c in p.items()) and bool(p)

    def abs_rat(self, a):
        a = self.canon(a)
        r = self.const(1)
        n = a.n
        if not n: return Rat({})
        g = P.mono_gcd(n)
        if g:
            n = P.mono_div(n, g)
            for i, e in P.exps(g).items():
                r = self.mul(r, self.powi(self.abs_factor(P.var(i)), e))
        if self._even_ok(n): r = self.mul(r, Rat(n))
        elif self._even_ok(P.pscale(n, -1)): r = self.mul(r, Rat(P.pscale(n, -1)))
        elif len(n) == 1 and 0 in n: r = self.mul(r, self.const(abs(n[0])))
        elif len(n) == 1 and 1 in n: r = self.mul(r, self.const(abs(n[1])))
        else: r = self.mul(r, self.abs_factor(n))
        for k, (p, e) in a.d.items():
            f = Rat(p) if self._even_ok(p) else self.abs_factor(p)
            r = self.mul(r, self.powi(self.inv(f), e))
        return r

    def exp_rat(self, a):
        a = self.canon(a)
        dk = tuple(sorted((hash(k), e) for k, (p, e) in a.d.items()))
        out = self.const(1)
        for m, c in a.n.items():
            c = Fraction(c)
            mm, im = (m - 1, True) if m & 1 else (m, False)
            if not a.d and not im:
                ex = P.exps(mm)
                if len(ex) == 1 and list(ex.values()) == [1]:
                    i, = ex
                    if i in self.logarg:
                        x = self.logarg[i]
                        if c.denominator == 1:
                            out = self.mul(out, self.powi(x, int(c)))
                            continue
                        if c.denominator == 2:
                            out = self.mul(out, self.powi(self.sqrt_rat(x), int(2 * c)))
                            continue
            if im and not a.d:
                ex = P.exps(mm)
                if len(ex) == 1:
                    i, = ex
                    if self.names[i] == "pi" and ex[i] == 1 and (2 * c).denominator == 1:
                        k = int(2 * c) % 4
                        out = self.mul(out, [self.const(1), self.I, self.const(-1), Rat({1: -1})][k])
                        continue
            q = c * QEXP
            if q.denominator == 1: kk, e = (m, dk, 1), int(q)
            else: kk, e = (m, dk, abs(c)), (1 if c > 0 else -1)
            v = self.exp_atoms.get(kk)
            if v is None:
                v = self.newvar("exp%d" % len(self.exp_atoms), "exp")
                self.exp_atoms[kk] = v
                mono_real = self.isreal_poly({mm: 1}) and all(self.isreal_poly(p) for p, _ in a.d.values())
                if mono_real:
                    if im: self.bar[v] = ("inv", v)
                    else:
                        self.bar[v] = v
                        self.realvar.add(v)
                        self.posvar.add(v)
                else:
                    # general complex exponent: conj is exp(conj)
                    cm = self.conj_poly({m: 1})
                    if cm.d or len(cm.n) != 1: raise Budget("conj exp")
                    (m2, s), = cm.n.items()
                    if a.d: raise Budget("conj exp den")
                    k2 = (m2, dk, kk[2])
                    b = self.newvar("exp%d" % len(self.exp_atoms), "exp")
                    self.exp_atoms[k2] = b
                    if s == 1: self.bar[v], self.bar[b] = b, v
                    else: self.bar[v], self.bar[b] = ("inv", b), ("inv", v)
            if e > 0: out = self.mul(out, Rat(P.var(v, e)))
            else:
                p = P.var(v)
                out = self.mul(out, Rat(P.ONE, {P.key(p): (p, -e)}))
        return out

    def opaque(self, name, args, sort):
        args = [self.canon(a) if isinstance(a, Rat) else a for a in args]
        lst = self.op_atoms.setdefault((name, len(args)), [])
        for aa, v in lst:
            if all((x is y) if not isinstance(x, Rat) or not isinstance(y, Rat) else self.equal(x, y) for x, y in zip(aa, args)):
                return Rat(P.var(v))
        v = self.newvar("%s%d" % (name, len(lst)), "op")
        lst.append((args, v))
        if sort == "C":
            b = self.newvar("%s%d~" % (name, len(lst)), "op")
            self.bar[v], self.bar[b] = b, v
        else:
            self.bar[v] = v
            self.realvar.add(v)
        if name == "log": self.logarg[v] = args[0]
        return Rat(P.var(v))

    # ---- terms ----
    def rat(self, t):
        memo = self.memo
        for n in self._topo(t):
            if n.id in memo: continue
            memo[n.id] = self._one(n, memo)
        return memo[t.id]

    def _topo(self, t):
        seen, out, st = set(), [], [(t, False)]
        while st:
            t, done = st.pop()
            if done: out.append(t); continue
            if t.id in seen or t.id in self.memo: continue
            seen.add(t.id)
            st.append((t, True))
            if t.op == "ite":
                if not self.ite_opaque: raise HasIte(t)
                continue
            for a in t.args:
                if a.sort != "B": st.append((a, False))
        return out

    def _one(self, t, memo):
        o = t.op
        if o == "const": return self.const(t.val)
        if o == "I": return self.I
        if o in ("var", "pi"): return Rat(P.var(self.basevar(t)))
        if o == "ite": return Rat(P.var(self.basevar(t)))
        if o in ("inf", "ninf", "nan"): return Rat(P.var(self.basevar(t)))
        a = [memo[x.id] if x.sort != "B" else x for x in t.args]
        if o == "add": return self.add(*a)
        if o == "mul": return self.mul(*a)
        if o == "div": return self.mul(a[0], self.inv(a[1]))
        if o == "powi": return self.powi(a[0], t.val)
        if o == "conj": return self.conj(a[0])
        if o == "re": return self.mul(self.const(Fraction(1, 2)), self.add(a[0], self.conj(a[0])))
        if o == "im":
            d = self.add(a[0], self.neg(self.conj(a[0])))
            return self.mul(Rat({1: Fraction(-1, 2)}), d)
        if o == "cplx": return self.add(a[0], self.mul(self.I, a[1]))
        if o == "abs":
            x = t.args[0]
            if x.op == "mul": return self.mul(self._abs(x.args[0]), self._abs(x.args[1]))
            if x.op == "div": return self.mul(self._abs(x.args[0]), self.inv(self._abs(x.args[1])))
            if x.op == "powi": return self.powi(self._abs(x.args[0]), x.val)
            return self.abs_rat(a[0])
        if o == "sqrt": return self.sqrt_rat(a[0])
        if o == "exp": return self.exp_rat(a[0])
        if o in ("sin", "cos"):
            e = self.exp_rat(self.mul(self.I, a[0]))
            f = self.exp_rat(self.neg(self.mul(self.I, a[0])))
            if o == "cos": return self.mul(self.const(Fraction(1, 2)), self.add(e, f))
            return self.mul(Rat({1: Fraction(-1, 2)}), self.add(e, self.neg(f)))
        if o == "pow":
            return self.exp_rat(self.mul(a[1], self.opaque("log", [a[0]], "R")))
        if o == "fn":
            nm = t.val
            if nm == "tan": return self.mul(self._one(tm.sin(t.args[0]), memo), self.inv(self._one(tm.cos(t.args[0]), memo)))
            if nm in ("sinh", "cosh", "tanh"):
                e, f = self.exp_rat(a[0]), self.exp_rat(self.neg(a[0]))
                s, c = self.add(e, self.neg(f)), self.add(e, f)
                if nm == "tanh": return self.mul(s, self.inv(c))
                return self.mul(self.const(Fraction(1, 2)), s if nm == "sinh" else c)
            if nm == "logistic":
                return self.inv(self.add(self.const(1), self.exp_rat(self.neg(a[0]))))
            return self.opaque(nm, a, t.sort)
        raise Budget("normaliser: op %s" % o)

    def _abs(self, x):
        t = tm.abs_(x)
        for n in self._topo(t):
            if n.id not in self.memo: self.memo[n.id] = self._one(n, self.memo)
        return self.memo[t.id]

    def show(self, n, k=6):
        out = []
        for m, c in list(n.items())[:k]:
            out.append("%s*%s" % (c, "*".join("%s^%d" % (self.names[i], e) for i, e in P.exps(m).items()) or "1"))
        return " + ".join(out) + (" + ...(%d terms)" % len(n) if len(n) > k else "")
