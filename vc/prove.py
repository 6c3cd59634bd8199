"""Discharging goals: exact normalisation, case splitting, SMT; refutation by
high-precision evaluation and directed witness search."""
import random
import time
import cmath
import math
import mpmath as mp
from . import term as tm
from . import smt
from . import poly
from .norm import Norm
from .numeric import evaluate
from .poly import Budget

TOL = mp.mpf(10) ** -22


class Result:
    def __init__(self, status, backend="", env=None, reason=""):
        self.status, self.backend, self.env, self.reason = status, backend, env, reason

    def __repr__(self): return "%s[%s] %s" % (self.status, self.backend, self.reason)


class Domain:
    """how to draw concrete inputs; gens: name-prefix -> f(rng) ; requires: terms"""

    def __init__(self, gens=None, requires=(), seed=1, derived=None):
        self.gens = gens or {}
        self.requires = list(requires)
        self.rng = random.Random(seed)
        self.hot = []     # harvested constants
        self.derived = derived   # f(env by name, rng) -> None: adjust
    def draw1(self, t):
        r = self.rng
        nm = str(t.val)
        for k in (nm, nm.split("[")[0], nm.split("!")[0]):
            if k in self.gens: return self.gens[k](r)
        if t.sort == "B": return r.random() < 0.5
        if t.sort == "I": return r.randrange(0, 6)
        def re():
            q = r.random()
            if self.hot and q < 0.25:
                h = r.choice(self.hot)
                return r.choice([h, -h, h * (1 + 1e-3 * r.uniform(-1, 1)), h * r.uniform(0.5, 2), -h * r.uniform(.5, 2)])
            if q < 0.75: return r.uniform(-2, 2)
            return r.choice([-1, 1]) * 10 ** r.uniform(-3, 2)
        return complex(re(), re()) if t.sort == "C" else re()

    def draw(self, vs):
        env = {t: self.draw1(t) for t in vs}
        if self.derived: self.derived({str(t.val): t for t in vs}, env, self.rng)
        return env


def mpenv(env):
    return {t: (v if isinstance(v, bool) else mp.mpc(v) if isinstance(v, complex) else mp.mpf(v)) for t, v in env.items()}


def _bad(x):
    x = mp.mpc(x)
    return mp.isnan(x.real) or mp.isnan(x.imag) or mp.isinf(x.real) or mp.isinf(x.imag)


def differs(l, r):
    """definite disagreement of two high-precision values"""
    if isinstance(l, bool) or isinstance(r, bool): return bool(l) != bool(r)
    bl, br = _bad(l), _bad(r)
    if bl or br:
        return False
    s = max(abs(l), abs(r), mp.mpf(10) ** -12)
    return abs(l - r) > s * TOL


class Goal:
    def __init__(self, name, lhs, rhs=None, hyps=(), split_hint=(), note=""):
        self.name, self.lhs, self.rhs, self.hyps = name, tm._lift(lhs), (None if rhs is None else tm._lift(rhs)), list(hyps)
        if self.rhs is not None and self.lhs.sort == "B":
            self.lhs, self.rhs = tm.eq(self.lhs, self.rhs), None
        self.note = note

    def terms(self): return [self.lhs] + ([self.rhs] if self.rhs is not None else []) + self.hyps

    def subst(self, m, memo):
        g = Goal(self.name, tm.subst(self.lhs, m, memo), None if self.rhs is None else tm.subst(self.rhs, m, memo),
                 [tm.subst(h, m, memo) for h in self.hyps])
        return g

    def violated(self, env):
        """True if hyps hold and the goal definitely fails at env (mp)"""
        vals = evaluate(self.terms(), mpenv(env))
        hs = vals[1 + (self.rhs is not None):]
        if not all(bool(h) for h in hs): return False
        if self.rhs is None: return not bool(vals[0])
        return differs(vals[0], vals[1])


def harvest(ts):
    out = set()
    for t in tm.topo(ts):
        if t.op in ("lt", "eq"):
            for a in t.args:
                v = tm.cv(a)
                if v is not None and v != 0: out.add(abs(float(v)))
    return sorted(out)


def atoms_of(b):
    out = []
    for n in tm.topo([b]):
        if n.sort == "B" and (n.op in ("lt", "var", "fn") or n.op == "eq" and n.args[0].sort != "B"): out.append(n)
    return out


def first_split(ts):
    """an atom of an innermost ite condition, or None"""
    has = {}
    for n in tm.topo(ts):
        h = any(has[a.id] for a in n.args)
        if n.op == "ite" and not has[n.args[0].id]:
            return atoms_of(n.args[0])[0]
        has[n.id] = h or n.op == "ite"
    return None


class Canon:
    """canonical form of ite-free comparison atoms"""

    def __init__(self, positive=()):
        self.nm = Norm(positive=positive)
        self.table = {}
        self.memo = {}
        self.polys = {}

    def atom(self, a):
        r = self.memo.get(a.id)
        if r is None:
            try: r = self._atom(a)
            except (Budget, ZeroDivisionError):
                # too large for a canonical form: compare opaque values
                o = lambda x: x if not x.args else tm.mk("var", (), ("opq", x.id), x.sort)
                r = tm.rebuild(a, [o(x) for x in a.args]) if a.op in ("lt", "eq") and a.args[0].sort != "B" else a
            self.memo[a.id] = r
        return r

    def _atom(self, a):
        if a.op not in ("lt", "eq"): return a
        x, y = a.args
        if x.sort == "B" or any(tm._has_special(q) for q in (x, y)): return a
        d = self.nm.canon(self.nm.rat(tm.sub(y, x)))   # lt: d > 0
        n = d.n
        for k, (p, e) in d.d.items():
            if e % 2 and not self.nm._even_ok(p):
                if a.op == "lt": n = poly.pmul(n, p)
        n = self.nm.reduce(n)
        if not n: return tm.TRUE if a.op == "eq" else tm.FALSE
        if a.op == "lt":
            # positive monomial content / positivity
            g = poly.mono_gcd(n)
            if g:
                ok = {i: e for i, e in poly.exps(g).items() if i in self.nm.posvar}
                n = poly.mono_div(n, sum(e << (poly.W * i) for i, e in ok.items()))
            if len(n) == 1 and 0 in n: return tm.TRUE if n[0] > 0 else tm.FALSE
            if self.nm._even_ok(n) and any(poly.exps(m) == {} or all(i in self.nm.posvar for i in poly.exps(m)) for m in n): return tm.TRUE
        q, c = poly.primitive(n)
        k = poly.key(q)
        self.polys[k] = q
        s = "zero" if a.op == "eq" else ("pos" if c > 0 else "neg")
        if a.op == "eq" and len(q) == 1 and 0 in q: return tm.FALSE
        return tm.mk("var", (), ("cmp", s, k), "B")

    def formula(self, b, memo=None):
        memo = {} if memo is None else memo
        for n in tm.topo([b]):
            if n.id in memo: continue
            if n.sort != "B": memo[n.id] = n; continue
            if n.op in ("lt",) or n.op == "eq" and n.args[0].sort != "B": memo[n.id] = self.atom(n)
            elif not n.args or n.op == "fn": memo[n.id] = n
            else: memo[n.id] = tm.rebuild(n, [memo[x.id] for x in n.args])
        return memo[b.id]

    def trichotomy(self, fs):
        """sign atoms of one polynomial exclude each other; short polynomials are
        also linear forms over (the real parts of) their monomials"""
        ks = {}
        for n in tm.topo(fs):
            if n.op == "var" and isinstance(n.val, tuple) and n.val[0] == "cmp": ks.setdefault(n.val[2], None)
        out, monos = [], set()
        # group long polynomials by their non-constant part
        for k in ks:
            v = lambda s: tm.mk("var", (), ("cmp", s, k), "B")
            p, n, z = v("pos"), v("neg"), v("zero")
            q = self.polys.get(k)
            if q is None or len(ks) == 1:
                out += [tm.or_(p, n, z), tm.not_(tm.and_(p, n)), tm.not_(tm.and_(p, z)), tm.not_(tm.and_(n, z))]
                continue
            if len(q) <= 14:
                f = tm.ZERO
                for m in sorted(q):
                    if m == 0: f = tm.add(f, tm.const(q[m]))
                    else:
                        monos.add(m)
                        f = tm.add(f, tm.mul(tm.const(q[m]), tm.mk("var", (), ("mono", m), "R")))
            else:
                c0 = q.get(0, 0)
                rest, c = poly.primitive({m: x for m, x in q.items() if m != 0})
                g = tm.mk("var", (), ("grp", poly.key(rest)), "R")
                f = tm.add(tm.mul(tm.const(c), g), tm.const(c0))
            out += [tm.eq(p, tm.lt(tm.ZERO, f)), tm.eq(n, tm.lt(f, tm.ZERO)), tm.eq(z, tm.eq(f, tm.ZERO))]
        for m in monos:
            if all(i in self.nm.posvar for i in poly.exps(m)): out.append(tm.lt(tm.ZERO, tm.mk("var", (), ("mono", m), "R")))
        return out


class Prover:
    def __init__(self, domain=None, positive=(), budget_s=120, samples=10, z3_ms=8000, max_paths=600, refute=True):
        self.dom = domain or Domain()
        self.positive = {t.id for t in positive}
        self.budget, self.samples, self.z3_ms = budget_s, samples, z3_ms
        self.max_paths = max_paths
        self.refute = refute
        self.stats = {"paths": 0, "z3": 0, "ring": 0, "solver_s": 0.0}

    # -- sampling ----------------------------------------------------------
    def try_refute(self, goal, n, extra=()):
        vs = tm.free_vars(*goal.terms(), *self.dom.requires, *extra)
        if not self.dom.hot: self.dom.hot = harvest(goal.terms())
        ok = 0
        for _ in range(n * 6):
            env = self.dom.draw(vs)
            if self.dom.requires and not all(bool(v) for v in evaluate(self.dom.requires, mpenv(env))): continue
            ok += 1
            if goal.violated(env): return env
            if ok >= n: break
        self.last_ok = ok
        return None

    def find_path_witness(self, goal, lits):
        """an input satisfying the path literals at which the goal fails"""
        vs = tm.free_vars(*goal.terms(), *lits, *self.dom.requires)
        fs = list(self.dom.requires) + list(goal.hyps) + list(lits)
        best = None

        def viol(env):
            vals = evaluate_f(_leaves(fs), env)
            return vals
        # directed sampling + coordinate search on the literal violation
        t0 = time.time()
        self.dom.hot = sorted(set(self.dom.hot) | set(harvest(fs)))
        for rnd in range(400):
            if time.time() - t0 > 8: break
            env = self.dom.draw(vs)
            sc = score(fs, env)
            step = 1.0
            for it in range(60):
                if sc <= 0 or time.time() - t0 > 8: break
                t = self.dom.rng.choice(vs)
                if t.sort in ("B", "I"): e2 = dict(env); e2[t] = self.dom.draw1(t)
                else:
                    e2 = dict(env)
                    d = self.dom.rng.gauss(0, 1) * 10 ** self.dom.rng.uniform(-4, 1)
                    if t.sort == "C": d = complex(d, self.dom.rng.gauss(0, 1) * 10 ** self.dom.rng.uniform(-4, 1))
                    e2[t] = env[t] + d if self.dom.rng.random() < .8 else self.dom.draw1(t)
                s2 = score(fs, e2)
                if s2 < sc: env, sc = e2, s2
            if sc <= 0:
                try:
                    if all(bool(v) for v in evaluate(fs, mpenv(env))) and goal.violated(env): return env
                except Exception: pass
        return None

    # -- main --------------------------------------------------------------
    def prove(self, goal):
        poly.Limits.deadline = time.time() + self.budget
        self.t0 = time.time()
        self.npaths = 0
        try:
            if goal.rhs is not None and goal.lhs is goal.rhs: return Result("proved", "syntactic")
            if goal.rhs is None and goal.lhs is tm.TRUE: return Result("proved", "syntactic")
            if self.refute:
                env = self.try_refute(goal, self.samples)
                if env is not None: return Result("refuted", "evaluation", env, "fails at a sampled point")
            cur = self.propagate(goal)
            if goal.rhs is not None:
                r = self._eq(goal, cur, [])
            else:
                r = self._swept_bool(goal, cur) if cur.lhs is not tm.TRUE else None
                if r is not None: r.backend = "sweep+" + r.backend
                else: r = self._bool(goal, cur, [])
            if cur is not goal and r.status == "proved": r.backend = "unit-propagation+" + r.backend
            return r
        except Budget as e:
            return Result("unknown", "", None, "budget: %s" % e)
        except RecursionError as e:
            return Result("unknown", "", None, "recursion")
        finally:
            poly.Limits.deadline = None

    def propagate(self, goal):
        """replace atoms of the goal that the hypotheses decide (unit propagation
        over canonical atoms); the hypotheses themselves are kept"""
        if not goal.hyps and not self.dom.requires: return goal
        cn = Canon(self.positive)
        known = {}

        def learn(f, pos):
            if f.op == "not": return learn(f.args[0], not pos)
            if f.op == "and" and pos: return any([learn(a, True) for a in f.args])
            if f.op in ("var",) and f.sort == "B" or f.op in ("lt", "eq", "fn"):
                if f.id in known: return False
                known[f.id] = tm.TRUE if pos else tm.FALSE
                if pos and f.op == "var" and isinstance(f.val, tuple) and f.val[0] == "cmp":
                    for s in ("pos", "neg", "zero"):
                        if s != f.val[1]: known[tm.mk("var", (), ("cmp", s, f.val[2]), "B").id] = tm.FALSE
                return True
            return False

        def rewrite(roots):
            memo = {}
            for n in tm.topo(roots):
                if not n.args: r = n
                else: r = tm.rebuild(n, [memo[a.id] for a in n.args])
                if r.sort == "B":
                    if r.id in known: r = known[r.id]
                    elif r.op in ("lt", "eq") and r.args[0].sort != "B" and first_split([r]) is None:
                        try: c = cn.atom(r)
                        except (Budget, ZeroDivisionError): c = r
                        if c is tm.TRUE or c is tm.FALSE: r = c
                        elif c.id in known: r = known[c.id]
                memo[n.id] = r
            return [memo[t.id] for t in roots]
        def flat(h):
            if h.op == "and": return [x for q in h.args for x in flat(q)]
            return [h]

        def core(h): return h.args[0] if h.op == "not" else h
        hy = [x for h in list(goal.hyps) + list(self.dom.requires) for x in flat(h)]
        hy.sort(key=lambda h: first_split([h]) is not None)
        better = []
        try:
            for _ in range(4):
                new = False
                for i, h in enumerate(hy):
                    c = core(h)
                    if c.op in ("lt", "eq", "var", "fn") and not (c.op == "eq" and c.args[0].sort == "B"):
                        if first_split([h]) is None: new |= learn(cn.formula(h), True)
                        elif c.id not in known:
                            h2 = rewrite([h])[0]
                            if h2 is not h and h2 is not tm.TRUE and h2 is not tm.FALSE:
                                hy[i] = h2
                                better.append(h2)
                                new = True
                                continue
                        new |= learn(h, True)
                    elif h is not tm.TRUE:
                        hy[i] = h = rewrite([h])[0]
                        c = core(h)
                        if c.id not in known and h is not tm.TRUE:
                            known[c.id] = tm.FALSE if h.op == "not" else tm.TRUE
                            new = True
                hy = [x for h in hy for x in flat(h)]
                if not new: break
            roots = [goal.lhs] + ([goal.rhs] if goal.rhs is not None else [])
            rs = rewrite(roots)
        except Budget:
            return goal
        if all(a is b for a, b in zip(rs, roots)) and not better: return goal
        return Goal(goal.name, rs[0], rs[1] if len(rs) > 1 else None, list(goal.hyps) + [h for h in hy if h is not tm.TRUE and h not in goal.hyps])

    def _check_budget(self):
        self.npaths += 1
        self.stats["paths"] += 1
        if self.npaths > self.max_paths: raise Budget("too many paths")
        if time.time() - self.t0 > self.budget: raise Budget("time")

    def _eq(self, goal, cur, lits):
        self._check_budget()
        if cur.lhs is cur.rhs: return Result("proved", "syntactic")
        for s in (cur.lhs, cur.rhs):
            if tm.is_special(s) and s.op != "nan":
                o = cur.rhs if s is cur.lhs else cur.lhs
                if not tm._has_special(o) : break
        if not lits:
            self._cuts = {}
            a, b = self.sweep(goal, cur)
            if a is b: return Result("proved", "sweep")
            if self._cuts:
                try:
                    nm = Norm(positive=self.positive)
                    if nm.equal(nm.rat(a), nm.rat(b)): return Result("proved", "sweep+ring-normaliser")
                except (Budget, ZeroDivisionError): pass
        r = self._sum_match(goal, cur, lits)
        if r is not None: return r
        nm = Norm(positive=self.positive)
        zd = None
        try:
            if nm.equal(nm.rat(cur.lhs), nm.rat(cur.rhs)):
                self.stats["ring"] += 1
                return Result("proved", "ring-normaliser")
        except ZeroDivisionError as e:
            zd = str(e)
        at = first_split([cur.lhs, cur.rhs])
        if at is None:
            return self._dead(goal, lits, zd or "normal forms differ", cur)
        return self._split(goal, cur, lits, at, self._eq)

    def points(self, goal, vs, n=2):
        pts, tries = [], 0
        hy = self.dom.requires + goal.hyps
        while len(pts) < n and tries < 80:
            tries += 1
            env = self.dom.draw(vs)
            if hy and not all(bool(v) for v in evaluate(hy, mpenv(env))): continue
            pts.append(env)
        return pts

    def _swept_bool(self, goal, cur):
        """goal and hypotheses over shared cut variables"""
        hy = [h for h in list(cur.hyps) + list(self.dom.requires) if h is not tm.TRUE]
        self._cuts = {}
        try: rs = self.sweep(goal, cur, hy)
        except Budget: return None
        if not self._cuts: return None
        ax = [tm.le(tm.ZERO, c) for c, u in self._cuts.items() if c.sort == "R" and u.op in ("abs", "sqrt")]
        g = Goal(goal.name, rs[0], None, rs[1:] + ax)
        sub = Prover(Domain({}, []), (), min(30, self.budget), z3_ms=self.z3_ms, max_paths=60, refute=False)
        sub.t0, sub.npaths, sub.abstract = time.time(), 0, True
        try:
            g2 = sub.propagate(g)
            r = sub._bool(g, g2, [])
            return r if r.status == "proved" else None
        except (Budget, RecursionError): return None

    def sweep(self, goal, cur, extra=()):
        """Equivalence sweeping: walk both sides bottom-up, replace every
        abs/sqrt/fn/ite node by a cut variable, sharing the variable between
        nodes proved equal (equal operator, arguments equal by the normaliser).
        Equality of the rewritten sides implies equality of the originals."""
        roots = [cur.lhs] + ([cur.rhs] if cur.rhs is not None else []) + list(extra)
        nodes = tm.topo(roots)
        CUT = ("abs", "sqrt", "fn", "ite", "pow", "exp")
        cand = [n for n in nodes if n.op in CUT]
        if not cand or len(cand) > 1500: return roots
        vs = tm.free_vars(*roots, *goal.hyps, *self.dom.requires)
        pts = self.points(goal, vs)
        if not pts: return roots
        envs = [mpenv(e) for e in pts]
        from .numeric import _ev
        vals = []
        for e in envs:
            memo = {}
            for t in nodes: memo[t.id] = _ev(t, memo, e)
            vals.append(memo)
        m, buckets = {}, {}
        canon = Canon(self.positive)
        nm, nm0 = Norm(positive=self.positive), Norm(positive=self.positive)
        for t in nodes:
            if t.op in ("lt", "eq") and (t.op == "lt" or t.args[0].sort != "B"):
                u = tm.rebuild(t, [m[a.id] for a in t.args])
                m[t.id] = canon.atom(u)
                continue
            u = t if not t.args else tm.rebuild(t, [m[a.id] for a in t.args])
            if u.op not in CUT or t.op not in CUT or not u.args:
                m[t.id] = u
                continue
            if u.op == "exp":   # exponentials stay transparent to the normaliser
                m[t.id] = u
                continue
            key = (u.op, u.val, t.sort)
            got = None
            for v0, u0, cv_ in buckets.setdefault(key, []):
                if u0 is u: got = cv_; break
                if any(differs(vals[k][t.id], vals[k][v0.id]) for k in range(len(envs))): continue
                if self._args_equal(nm, u, u0) or self._args_equal(nm0, t, v0): got = cv_; break
            if got is None:
                got = tm.mk("var", (), ("cut", len(self._cuts)), t.sort)
                self._cuts[got] = u
                buckets[key].append((t, u, got))
            m[t.id] = got
        return [m[r.id] for r in roots]

    def _args_equal(self, nm, u, v):
        self._check_time()
        for a, b in zip(u.args, v.args):
            if a is b: continue
            if a.sort == "B":
                return False
            try:
                ra, rb = nm.rat(a), nm.rat(b)
                if nm.equal(ra, rb): continue
                if u.op == "abs" and nm.equal(ra, nm.neg(rb)): continue
                return False
            except (Budget, ZeroDivisionError): return False
        return True

    def _check_time(self):
        if time.time() - self.t0 > self.budget: raise Budget("time")

    def _sum_match(self, goal, cur, lits):
        """sum(a_i) == sum(b_i) from pairwise equal addends (found by value)"""
        if not any(n.op == "ite" for n in tm.topo([cur.lhs, cur.rhs])): return None
        A, B = addends(cur.lhs), addends(cur.rhs)
        if len(A) != len(B) or not 1 < len(A) <= 64: return None
        vs = tm.free_vars(cur.lhs, cur.rhs, *goal.hyps, *self.dom.requires)
        pts, tries = [], 0
        while len(pts) < 3 and tries < 60:
            tries += 1
            env = self.dom.draw(vs)
            hy = self.dom.requires + goal.hyps
            if hy and not all(bool(v) for v in evaluate(hy, mpenv(env))): continue
            v = evaluate(A + B, mpenv(env))
            if any(_bad(x) for x in v): continue
            pts.append(v)
        if not pts: return None
        free = list(range(len(B)))
        # prefer same position
        pair = []
        for i in range(len(A)):
            cand = [j for j in ([i] if i in free else []) + [j for j in free if j != i]
                    if all(not differs(v[i], v[len(A) + j]) for v in pts)]
            if not cand: return None
            # several candidates (e.g. all zero at the sample): prefer shared variables
            if len(cand) > 1:
                fa = {t.id for t in tm.free_vars(A[i])}
                cand.sort(key=lambda j: (len(fa ^ {t.id for t in tm.free_vars(B[j])}), j != i))
            free.remove(cand[0])
            pair.append((i, cand[0]))
        backs = set()
        for i, j in pair:
            if A[i] is B[j]: continue
            g2 = Goal(goal.name, A[i], B[j], goal.hyps)
            r = self._eq(g2, g2, lits)
            if r.status != "proved": return None
            backs.add(r.backend)
        return Result("proved", "+".join(sorted(backs | {"sum-matching"})))

    def _congruent(self, goal, a, b, lits):
        """same boolean skeleton over arguments proved equal"""
        if a is b: return True
        if a.op != b.op or len(a.args) != len(b.args) or a.op not in ("not", "and", "lt", "eq"): return False
        for x, y in zip(a.args, b.args):
            if x is y: continue
            if x.sort == "B":
                if not self._congruent(goal, x, y, lits): return False
            else:
                vs = tm.free_vars(x, y, *goal.hyps, *self.dom.requires)
                for e in self.points(goal, vs):
                    l, r = evaluate([x, y], mpenv(e))
                    if differs(l, r): return False
                if not self._same(goal, x, y, lits): return False
        return True

    def _same(self, goal, x, y, lits):
        g = Goal(goal.name, x, y, goal.hyps)
        for ls in ([], lits) if lits else ([],):
            try:
                if self._eq(g, g, ls).status == "proved": return True
            except Budget: self._check_time()
        return False

    def _atom_match(self, goal, f, fs, lits):
        """comparisons of the goal and the hypotheses whose two sides have proved-equal differences are one atom"""
        ats = [a for a in dict.fromkeys(x for g in [f] + fs for x in atoms_of(g)) if a.op in ("lt", "eq")]
        if not 1 < len(ats) <= 24: return None
        vs = tm.free_vars(*ats, *goal.hyps, *self.dom.requires)
        vals = []
        for e in self.points(goal, vs, 3):
            v = evaluate([y for a in ats for y in a.args], mpenv(e))
            if not any(_bad(y) for y in v): vals.append(v)
        if len(vals) < 2: return None
        m, reps = {}, []
        for i, a in enumerate(ats):
            d = lambda v, k: v[2 * k + 1] - v[2 * k]
            for j in reps:
                b = ats[j]
                if a.op != b.op: continue
                sgn = [s for s in ((1,) if a.op == "lt" else (1, -1)) if not any(differs(d(v, i), s * d(v, j)) for v in vals)]
                if not sgn: continue
                same = not any(differs(v[2 * i + k], v[2 * j + k]) for v in vals for k in (0, 1))
                pairs = list(zip(a.args, b.args)) if same else [(tm.sub(a.args[1], a.args[0]), tm.mul(tm.const(sgn[0]), tm.sub(b.args[1], b.args[0])))]
                if all(x is y or self._same(goal, x, y, lits) for x, y in pairs):
                    m[a] = b
                    break
            else: reps.append(i)
        if not m: return None
        opq = {ats[j]: tm.mk("var", (), ("atom", j), "B") for j in reps}
        memo = {}
        gs = [tm.subst(tm.subst(g, m), opq) for g in fs + [f]]
        return gs

    def _split(self, goal, cur, lits, at, rec):
        backend = set()
        for v in (tm.TRUE, tm.FALSE):
            lit = at if v is tm.TRUE else tm.not_(at)
            memo = {}
            c2 = cur.subst({at: v}, memo)
            l2 = lits + [lit]
            if any(h is tm.FALSE for h in c2.hyps): continue
            if self._contradictory(l2, goal, cur.hyps): continue
            r = rec(goal, c2, l2)
            if r.status != "proved": return r
            backend.add(r.backend)
        return Result("proved", "+".join(sorted(backend | {"case-split"})))

    def _contradictory(self, lits, goal, hyps=()):
        """cheap propositional contradiction of canonical literals"""
        if len(lits) < 2 and not goal.hyps and not self.dom.requires: return False
        hyps = list(goal.hyps) + [h for h in hyps if h not in goal.hyps]
        try:
            cn = Canon(self.positive)
            fs = [cn.formula(x) for x in lits + hyps + self.dom.requires if first_split([x]) is None]
            if any(f is tm.FALSE for f in fs): return True
            fs += cn.trichotomy(fs)
            self.stats["z3"] += 1
            t = time.time()
            r, _ = smt.check([f for f in fs], 1000, False)
            self.stats["solver_s"] += time.time() - t
            if r == "unsat": return True
            if len(lits) > 2:
                t = time.time()
                r, _ = smt.check(lits + goal.hyps + self.dom.requires, 250, False)
                self.stats["solver_s"] += time.time() - t
                return r == "unsat"
            return False
        except Budget:
            return False

    def _dead(self, goal, lits, why, cur=None):
        """path where the goal does not follow: infeasible, refuted or unknown"""
        t = time.time()
        fs = list(self.dom.requires) + list(goal.hyps) + lits
        self.stats["z3"] += 1
        r, m = smt.check(fs, self.z3_ms)
        self.stats["solver_s"] += time.time() - t
        if r == "unsat": return Result("proved", "z3(infeasible path)")
        if lits and cur is not None and cur.rhs is not None and cur.lhs.sort in ("R", "I") and len(tm.topo([cur.lhs, cur.rhs])) < 200:
            t = time.time()
            r, m2 = smt.check(fs + [tm.not_(tm.eq(cur.lhs, cur.rhs))], min(self.z3_ms, 3000))
            self.stats["solver_s"] += time.time() - t
            if r == "unsat": return Result("proved", "z3(path equality)")
        if m is not None:
            env = {v: m.get(v, 0.5) for v in tm.free_vars(*goal.terms(), *fs)}
            try:
                if goal.violated(env): return Result("refuted", "z3 model", env, "path: %s" % lits)
            except Exception: pass
        env = self.find_path_witness(goal, lits)
        if env is not None: return Result("refuted", "path witness", env, "path: %s" % str(lits)[:400])
        return Result("unknown", "", None, "%s on path %s" % (why, str(lits)[:400]))

    def _bool(self, goal, cur, lits):
        self._check_budget()
        if cur.lhs is tm.TRUE: return Result("proved", "syntactic")
        at = first_split([cur.lhs])
        if at is not None:
            return self._split(goal, cur, lits, at, self._bool)
        if cur.lhs.op == "eq" and cur.lhs.args[0].sort == "B" and self._congruent(goal, cur.lhs.args[0], cur.lhs.args[1], lits):
            return Result("proved", "congruence")
        cn = Canon(self.positive)
        fs = [x for x in lits + cur.hyps + self.dom.requires if first_split([x]) is None]
        f = tm.not_(cur.lhs)
        cf = [cn.formula(x) for x in fs + [f]]
        if any(x is tm.FALSE for x in cf): return Result("proved", "canonical atoms")
        t = time.time()
        self.stats["z3"] += 1
        r, _ = smt.check(cf + cn.trichotomy(cf), self.z3_ms, False)
        self.stats["solver_s"] += time.time() - t
        if r == "unsat": return Result("proved", "z3(canonical atoms)")
        gs = self._atom_match(goal, f, fs, lits) if not getattr(self, "abstract", False) else None
        if gs is not None and smt.check(gs, self.z3_ms, False)[0] == "unsat": return Result("proved", "z3(matched atoms)")
        t = time.time()
        r, m = smt.check(fs + [f], self.z3_ms)
        self.stats["solver_s"] += time.time() - t
        if r == "unsat": return Result("proved", "z3(nra)")
        if m is not None:
            env = {v: m.get(v, 0.5) for v in tm.free_vars(*goal.terms(), *fs)}
            try:
                if goal.violated(env): return Result("refuted", "z3 model", env)
            except Exception: pass
        if getattr(self, "abstract", False): return Result("unknown")
        env = self.find_path_witness(goal, lits + [f])
        if env is not None: return Result("refuted", "path witness", env)
        return Result("unknown", "", None, "z3: %s for %s" % (r, tm.pretty(cur.lhs)[:300]))


def addends(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if x.op == "add": st += [x.args[1], x.args[0]]
        else: out.append(x)
    return out


# ---- fast float evaluation and path score ----------------------------------
def evaluate_f(roots, env):
    import mpmath
    with mpmath.workdps(17):
        return evaluate(roots, mpenv(env))


def _leaves(fs): return fs


def score(fs, env):
    """0 when all formulas hold; otherwise a distance"""
    import mpmath
    with mpmath.workdps(17):
        e = mpenv(env)
        nodes = set()
        for f in fs: nodes.add(f)
        memo = {}
        from .numeric import _ev
        try:
            for t in tm.topo(fs): memo[t.id] = _ev(t, memo, e)
        except Exception:
            return float("inf")

        def dist(f, pos):
            if f.op == "not": return dist(f.args[0], not pos)
            if f.op == "and":
                ds = [dist(a, pos) for a in f.args]
                return sum(ds) if pos else min(ds)
            v = memo[f.id]
            if bool(v) == pos: return 0.0
            if f.op in ("lt", "eq") and f.args[0].sort != "B":
                d = memo[f.args[0].id] - memo[f.args[1].id]
                try: d = float(abs(d))
                except Exception: return 1e9
                if f.op == "eq" and not pos: return 1e-3
                return min(d, 1e12) + 1e-9
            return 1.0
        try:
            return sum(dist(f, True) for f in fs)
        except Exception:
            return float("inf")
