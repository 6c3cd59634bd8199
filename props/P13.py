from vc.spec import *
from vc.contract import Contract, Custom, Goal
from vc import jx, numeric
from vc.stub import Stub, patched, raw, trace_then_run
from vc.prove import Prover, Domain
from vc.direct import bounded_oracle, nonzero_hooks, Decider
import vc.term as tm
import numpy as np
import itertools
import random
from fractions import Fraction as Fr
from props.P09 import Acc, rec

EXPLAIN = ("Splitting is executed symbolically for every validity, parity and jump pattern of short tracks; the pieces are proved to be the maximal smooth runs, every vertex kept once with its parity. "
           "Joining two pieces is proved for all four connection types; the joining condition is proved to be the documented one for all inputs; the merging loop is checked against the contracts of its helpers for every "
           "choice they can make (order of candidates, first success), so that each step joins whole pieces end to end and removes exactly those pieces.")


def sg():
    import microjax.caustics.extended_source.segments as m
    return m


def lb():
    import microjax.caustics.extended_source.limb as m
    return m


Z0 = tm.to_c(const(0))
JUMP = const(0.1) ** 2
sq = lambda d: tm.real(d) ** 2 + tm.imag(d) ** 2


# ------------------------------------------------------------ splitting
def patterns(N):
    """(state per sample: 0 invalid, +1, -1; jump flags between valid neighbours)"""
    for st in itertools.product((0, 1, -1), repeat=N):
        ad = [i for i in range(N - 1) if st[i] and st[i + 1]]
        for js in itertools.product((False, True), repeat=len(ad)):
            yield st, dict(zip(ad, js))


def runs(st, jump):
    """the maximal runs of valid samples with one parity and no jump"""
    out, cur = [], []
    for i in range(len(st)):
        if cur and (not st[i] or st[i] != st[i - 1] or jump.get(i - 1)):
            out.append(cur)
            cur = []
        if st[i]: cur.append(i)
    if cur: out.append(cur)
    return out


def geometry(r, st, jump):
    """vertices realising a pattern"""
    z, out = complex(r.normal(), r.normal()), []
    for i in range(len(st)):
        out.append(z)
        z = z + (r.uniform(.15, .6) if jump.get(i) else r.uniform(.005, .06)) * np.exp(1j * r.uniform(0, 6.28))
    return np.array(out) * np.array([1 if s else 0 for s in st])


def pieces_of(rows):
    """{(vertices, parities)} of the non-empty rows"""
    out = []
    for s in np.asarray(rows):
        k = np.nonzero(s[0])[0]
        if len(k): out.append((k[0], tuple(np.round(s[0][k[0]:k[-1] + 1], 12).tolist()), tuple(np.real(s[1][k[0]:k[-1] + 1]).tolist())))
    return out


def rnd_pattern(r, N):
    st, cur = [], int(r.choice([0, 1, -1]))
    for i in range(N):
        if r.random() < .15: cur = int(r.choice([0, 1, -1]))
        st.append(cur)
    jump = {i: bool(r.random() < .05) for i in range(N - 1) if st[i] and st[i + 1]}
    return tuple(st), jump


def fals_split(seed, k=300, sizes=(2, 3, 4, 5, 6, 9, 14, 30)):
    import jax.numpy as jnp
    m = sg()
    r = np.random.default_rng(seed)
    for j in range(k):
        N = sizes[j % len(sizes)]
        st, jump = rnd_pattern(r, N) if N > 6 or j % 2 else (tuple(int(v) for v in r.choice([0, 1, -1], N)), None)
        if jump is None: jump = {i: bool(r.random() < .3) for i in range(N - 1) if st[i] and st[i + 1]}
        want = runs(st, jump)
        if len(want) > 10: continue
        z = geometry(r, st, jump)
        seg = np.stack([z, np.array(st), np.abs(st)]).astype(complex)
        got = pieces_of(m._split_segment(jnp.asarray(seg)))
        w = [(q[0], tuple(np.round(z[q], 12).tolist()), tuple(float(st[i]) for i in q)) for q in want]
        if sorted(map(repr, got)) != sorted(map(repr, w)):
            return {"function": "segments._split_segment", "states": st, "jumps": {int(a): b for a, b in jump.items()}, "vertices": repr(z.tolist()), "observed": repr(got), "expected": repr(w)}
    return None


class SymTrack:
    def __init__(self, name, N):
        self.z = jx.symarr(name, (N,), "C")
        self.N = N
        self.lits = [tm.lt(JUMP, sq(self.z[i + 1] - self.z[i])) for i in range(N - 1)]

    def rows(self, st):
        z = np.array([v if s else Z0 for v, s in zip(self.z, st)], dtype=object)
        return z, np.array([tm.to_c(const(s)) for s in st], dtype=object), np.array([tm.to_c(const(abs(s))) for s in st], dtype=object)


def split(N, part, parts):
    def mk():
        def run(seed, thorough):
            m = sg()
            acc = Acc("split_%d_%d" % (N, part), seed, lambda: fals_split(seed))
            T = SymTrack("z", N)
            D = Decider(T.lits, list(T.z), seed)
            cj, _ = jx.trace(lambda s: m._split_segment(s), [((3, N), np.complex128)])
            n = 0
            for c, (st, jump) in enumerate(patterns(N)):
                if c % parts != part: continue
                n += 1
                D.val = {i: v for i, v in jump.items()}
                z, p, mk_ = T.rows(st)
                arg = np.stack([z, p, mk_])
                o = jx.toT(jx.interp(jx.Ctx(hooks=D.hooks()), cj.jaxpr, cj.consts, [arg])[0])
                want = runs(st, jump)
                lab = "%s %s" % (st, jump)
                if not acc.check("capacity", o.shape[0] >= len(want), lab): continue
                for k in range(o.shape[0]):
                    q = want[k] if k < len(want) else []
                    for i in range(N):
                        e = [z[i], p[i], mk_[i]] if i in q else [Z0] * 3
                        if not acc.check("pieces_are_runs" if q else "unused_are_empty", all(eqc(acc, a, b) for a, b in zip(o[k, :, i], e)), "pattern %s piece %d sample %d: %s" % (lab, k, i, [tm.pretty(a, 3)[:60] for a in o[k, :, i]])): break
            acc.check("patterns", n > 0)
            return acc.records()
        return Custom("split_%d_%d" % (N, part), run, functions=["caustics.extended_source.segments._split_segment[samples=%d]" % N])
    return mk


def eqc(acc, a, b):
    if a is b: return True
    ca, cb = tm.cv(a), tm.cv(b)
    if ca is not None and cb is not None: return ca == cb
    return acc.pr.prove(Goal("e", a, b)).status == "proved"


# ------------------------------------------------------------ partition into closed tracks and open pieces
def spec_segments(tracks):
    """tracks: [(states, jumps, ends meet)] -> (closed track numbers, open pieces [(track, samples)])"""
    cl = [t for t, (st, j, meet) in enumerate(tracks) if meet and all(st)]
    op = [(t, q) for t, (st, j, meet) in enumerate(tracks) if t not in cl for q in runs(st, j) if len(q) > 1]
    return cl, op


def fals_segments(seed, k=60):
    import jax.numpy as jnp
    m = sg()
    r = np.random.default_rng(seed)
    for j in range(k):
        n = 2 if j % 3 else 3
        NI, N = n * n + 1, int((4, 6, 12)[j % 3])
        zs, sts, tr = [], [], []
        for t in range(NI):
            st, jump = rnd_pattern(r, N) if r.random() < .6 else ((int(r.choice([-1, 1])),) * N, {})
            jump = {i: bool(v) for i, v in jump.items()}
            z = geometry(r, st, jump)
            meet = all(st) and r.random() < .5
            if meet:
                z = z[0] + .04 * (np.exp(1j * np.linspace(0, 2 * np.pi, N)) - 1)
                jump = {i: abs(z[i + 1] - z[i]) > .1 for i in range(N - 1)}
            zs.append(z + (1 - np.abs(st)) * (r.normal(size=N) + 1j))
            sts.append(st)
            tr.append((st, jump, meet))
        cl, op = spec_segments(tr)
        if len(op) > 3 * NI or max(len(runs(*a[:2])) for a in tr) > 10: continue
        zs, sts = np.array(zs), np.array(sts)
        a, b, c = m._get_segments(jnp.asarray(zs), jnp.asarray(sts != 0), jnp.asarray(np.where(sts == 0, r.choice([-1, 1], sts.shape), sts).astype(float)), nlenses=n)
        row = lambda t, q: (tuple(np.round(zs[t][q], 12).tolist()), tuple(float(sts[t][i]) for i in q))
        ga, gb = [p[1:] for p in pieces_of(a)], [p for p in pieces_of(b)]
        bad = sorted(map(repr, ga)) != sorted(repr(row(t, list(range(N)))) for t in cl) or sorted(repr(p[1:]) for p in gb) != sorted(repr(row(t, q)) for t, q in op) or any(p[0] != 0 for p in gb) or bool(c) != (len(cl) == NI)
        if bad: return {"function": "segments._get_segments", "nlenses": n, "images": repr(zs.tolist()), "states": sts.tolist(), "observed": {"closed": repr(ga), "open": repr(gb), "all_closed": bool(c)}, "expected": {"closed tracks": cl, "open pieces": [(t, q) for t, q in op]}}
    return None


def segments(name, N, cases, nl=2):
    """cases(seed): iterable of [(states, jumps, meet)] per track"""
    def mk():
        def run(seed, thorough):
            m = sg()
            acc = Acc("segments_" + name, seed, lambda: fals_segments(seed))
            D, cj, NT = None, None, None
            for tracks in cases(seed):
                if D is None or NT != len(tracks):
                    NT = len(tracks)
                    T = [SymTrack("z%d" % t, N) for t in range(NT)]
                    lits = [l for t in T for l in t.lits] + [tm.lt(tm.abs_(t.z[0] - t.z[-1]), const(1e-5)) for t in T]
                    D = Decider(lits, [v for t in T for v in t.z], seed)
                    cj, _ = jx.trace(lambda z, k, p: m._get_segments(z, k, p, nlenses=nl), [((NT, N), np.complex128), ((NT, N), np.bool_), ((NT, N), np.float64)])
                D.val = {}
                for t, (st, jump, meet) in enumerate(tracks):
                    for i, v in jump.items(): D.val[t * (N - 1) + i] = v
                    D.val[NT * (N - 1) + t] = meet
                z = np.stack([t.z for t in T])
                mask = np.array([[const(bool(s)) for s in st] for st, _, _ in tracks], dtype=object)
                par = np.array([[const(s) if s else R("ghost_parity") for s in st] for st, _, _ in tracks], dtype=object)
                a, b, c = [jx.toT(o) for o in jx.interp(jx.Ctx(hooks=D.hooks()), cj.jaxpr, cj.consts, [z, mask, par])]
                cl, op = spec_segments(tracks)
                lab = repr(tracks)
                acc.check("all_closed", c[()] is const(len(cl) == NT), lab + tm.pretty(c[()], 2))
                if not acc.check("shapes", a.shape == (NT, 2, N) and b.shape[1:] == (2, N) and b.shape[0] >= len(op), lab): continue
                for t in range(NT):
                    st = tracks[t][0]
                    ok = all(eqc(acc, a[t, 0, i], z[t, i] if t in cl else Z0) and eqc(acc, a[t, 1, i], tm.to_c(const(st[i])) if t in cl else Z0) for i in range(N))
                    acc.check("closed_tracks", ok, lab)
                rest = list(op)
                for k in range(b.shape[0]):
                    row = b[k]
                    hit = None
                    for t, q in rest:
                        e = [z[t, i] for i in q] + [Z0] * (N - len(q)), [tm.to_c(const(tracks[t][0][i])) for i in q] + [Z0] * (N - len(q))
                        if all(eqc_quick(acc, row[0, i], e[0][i]) and eqc_quick(acc, row[1, i], e[1][i]) for i in range(N)): hit = (t, q); break
                    if hit is not None:
                        rest.remove(hit)
                        acc.check("open_pieces", k < len(op), lab + " piece after an empty row")
                    else: acc.check("empty_rows", all(eqc_quick(acc, v, Z0) for v in row.ravel()), lab + " row %d: %s" % (k, [tm.pretty(v, 2)[:40] for v in row[0]]))
                acc.check("every_piece_kept", not rest, lab + " missing %s" % rest)
            return acc.records()
        return Custom("segments_" + name, run, functions=["caustics.extended_source.segments._get_segments", "caustics.extended_source.segments._process_segments"])
    return mk


def eqc_quick(acc, a, b):
    if a is b: return True
    if tm.cv(a) is not None and tm.cv(b) is not None: return tm.cv(a) == tm.cv(b)
    if a.op == "var" and b.op == "var": return False
    if {a.op, b.op} <= {"var", "const"}: return False
    return acc.pr.prove(Goal("e", a, b)).status == "proved"


def one_track(N):
    def f(seed):
        for c, (st, jump) in enumerate(patterns(N)):
            for meet in ((False, True) if all(st) else (False,)):
                other = [((0,) * N, {}, False), ((1,) * N, {i: False for i in range(N - 1)}, True), ((0,) + (-1,) * (N - 1), {i: False for i in range(1, N - 1)}, False)][(c + meet) % 3]
                yield [(st, jump, meet), other]
    return f


def two_tracks(N, k, NT=2):
    def f(seed):
        rnd = random.Random(7)
        P = list(patterns(N))
        full = [p for p in P if all(p[0])]
        for _ in range(k):
            tr = []
            for t in range(NT):
                st, jump = rnd.choice(full if rnd.random() < .3 else P)
                tr.append((st, jump, all(st) and rnd.random() < .6))
            yield tr
    return f


# ------------------------------------------------------------ joining two pieces
def spec_join(a, b, ctype):
    """a, b: lists of (vertex, parity); the joined list"""
    flip = lambda s: [(v, -p) for v, p in reversed(s)]
    if ctype == 0: return a + b            # tail of a to head of b
    if ctype == 1: return b + a            # head of a to tail of b
    if ctype == 2: return flip(b) + a      # head to head
    return a + flip(b)                     # tail to tail


def fals_join(seed, k=80):
    import jax.numpy as jnp
    m = sg()
    r = np.random.default_rng(seed)
    for j in range(k):
        n1, n2, L, ct = int(r.integers(1, 8)), int(r.integers(1, 8)), 20, j % 4
        rows = []
        for n in (n1, n2):
            s = np.zeros((2, L), complex)
            s[0, :n], s[1, :n] = r.normal(size=n) + 1j * r.normal(size=n), r.choice([-1, 1])
            rows.append(s)
        o, t = m._merge_two_segments(jnp.asarray(rows[0]), jnp.asarray(rows[1]), n1 - 1, n2 - 1, ct)
        w = spec_join(*[[(rows[i][0, q], rows[i][1, q]) for q in range(n)] for i, n in ((0, n1), (1, n2))], ct)
        e = np.zeros((2, L), complex)
        for q, (v, p) in enumerate(w): e[0, q], e[1, q] = v, p
        if not np.allclose(np.asarray(o), e, rtol=0, atol=1e-14) or int(t) != n1 + n2 - 1:
            return {"function": "segments._merge_two_segments", "first": repr(rows[0][:, :n1].tolist()), "second": repr(rows[1][:, :n2].tolist()), "connection": ct, "observed": repr(np.asarray(o).tolist()), "tail": int(t), "expected": repr(e.tolist())}
    return None


def sym_piece(name, n, L):
    s = np.empty((2, L), dtype=object)
    for i in range(L): s[0, i], s[1, i] = (C("%s[%d]" % (name, i)), C("%sp[%d]" % (name, i))) if i < n else (Z0, Z0)
    return s


def join(nmax, L):
    def mk():
        def run(seed, thorough):
            m = sg()
            acc = Acc("join_%d" % nmax, seed, lambda: fals_join(seed))
            cj, _ = jx.trace(lambda a, b, t, u, c: m._merge_two_segments(a, b, t, u, c), [((2, L), np.complex128)] * 2 + [((), np.int64)] * 3)
            for n1 in range(1, nmax + 1):
                for n2 in range(1, nmax + 1):
                    if n1 + n2 > L: continue
                    a, b = sym_piece("a", n1, L), sym_piece("b", n2, L)
                    hk = nonzero_hooks(list(a[0]) + list(b[0]))
                    for ct in range(4):
                        o, t = [jx.toT(v) for v in jx.interp(jx.Ctx(hooks=hk), cj.jaxpr, cj.consts, [a, b, A0(const(n1 - 1, "I")), A0(const(n2 - 1, "I")), A0(const(ct, "I"))])]
                        w = spec_join([(a[0, i], a[1, i]) for i in range(n1)], [(b[0, i], b[1, i]) for i in range(n2)], ct)
                        w = w + [(Z0, Z0)] * (L - len(w))
                        nm = ("tail_head", "head_tail", "head_head", "tail_tail")[ct]
                        lab = "%d + %d vertices" % (n1, n2)
                        acc.check(nm + "_vertices", all(eqc(acc, o[0, i], w[i][0]) for i in range(L)), lab)
                        acc.check(nm + "_parity", all(eqc(acc, o[1, i], w[i][1]) for i in range(L)), lab)
                        acc.check(nm + "_tail_index", t[()] is const(n1 + n2 - 1, "I"), lab + tm.pretty(t[()], 2))
            return acc.records()
        return Custom("join_%d" % nmax, run, functions=["caustics.extended_source.segments._merge_two_segments", "caustics.extended_source.segments._concatenate_segments"])
    return mk


# ------------------------------------------------------------ length of a piece
def length(n, L):
    def mk():
        m = sg()
        a = sym_piece("a", n, L)

        def fals(seed, k):
            r = np.random.default_rng(seed)
            for _ in range(20):
                n_ = int(r.integers(1, 8))
                s = np.zeros((2, 12), complex)
                s[0, :n_] = r.normal(size=n_) + 1j * r.normal(size=n_) + 3
                g, w = float(m._get_segment_length(s, n_ - 1)), float(np.abs(np.diff(s[0, :n_])).sum())
                if abs(g - w) > 1e-9: return {"function": "segments._get_segment_length", "vertices": repr(s[0, :n_].tolist()), "observed": g, "expected": w}
            return None
        return Contract("length_%d" % n, lambda a, t: m._get_segment_length(a, t), [a, A0(const(n - 1, "I"))],
                        lambda r: [Goal("chord_length", r[0][()], sum((tm.abs_(a[0, i + 1] - a[0, i]) for i in range(n - 1)), const(0)))], functions=["caustics.extended_source.segments._get_segment_length"], falsify=fals)
    return mk


# ------------------------------------------------------------ joining condition
MIND, MAXD, MAXA = 1e-5, 1e-1, 60.0


def np_condition(s1, s2, t1, t2, ct):
    x, y = s1[0], s2[0]

    def head(x, t): return (x[1], x[0]) if abs(x[1] - x[0]) > 1e-5 or t <= 1 else (x[2], x[1])

    def tail(x, t): return (x[t - 1], x[t]) if abs(x[t] - x[t - 1]) > 1e-5 or t <= 1 else (x[t - 2], x[t - 1])
    l1, l2 = [(tail(x, t1), head(y, t2)), (head(x, t1), tail(y, t2)), (head(x, t1), head(y, t2)), (tail(x, t1), tail(y, t2))][ct]
    same = s1[1, 0].real * s2[1, 0].real > 0
    if same != (ct < 2): return False, 9.
    d = abs(l1[1] - l2[1])
    if d < MIND: return True, abs(d - MIND) / MIND
    u, v = l1[1] - l1[0], l2[1] - l2[0]
    c = (u.conjugate() * v).real / abs(u) / abs(v)
    ang = 180 - np.degrees(np.arccos(np.clip(c, -1, 1)))
    d0 = abs(l1[0] - l2[0])
    return bool(d < MAXD and ang < MAXA and d < d0), min(abs(d - MAXD), abs(ang - MAXA) / 100, abs(d - d0), abs(d - MIND))


def fals_cond(seed, k=400):
    m = sg()
    r = np.random.default_rng(seed)
    import jax
    f = jax.jit(lambda a, b, t, u, c: m._connection_condition(a, b, t, u, c))
    for j in range(k):
        n1, n2, L, ct = int(r.integers(2, 6)), int(r.integers(2, 6)), 12, j % 4
        rows = []
        base = complex(r.normal(), r.normal())
        for n in (n1, n2):
            s = np.zeros((2, L), complex)
            st = r.choice([3e-6, .02, .05]) * np.exp(1j * r.uniform(0, 6.28, n)) if j % 3 == 0 else .03 * np.exp(1j * (r.uniform(0, 6.28) + r.normal(size=n) * .2))
            s[0, :n] = base + np.cumsum(st) - (st.sum() if r.random() < .5 else 0) + 10 ** r.uniform(-6, -1) * np.exp(1j * r.uniform(0, 6.28))
            s[1, :n] = r.choice([-1, 1])
            rows.append(s)
        w, margin = np_condition(rows[0], rows[1], n1 - 1, n2 - 1, ct)
        if margin < 1e-9: continue
        g = bool(f(rows[0], rows[1], n1 - 1, n2 - 1, ct))
        if g != w: return {"function": "segments._connection_condition", "first": repr(rows[0][:, :n1].tolist()), "second": repr(rows[1][:, :n2].tolist()), "connection": ct, "observed": g, "expected": w}
    return None


def condition(ct, t1, t2):
    def mk():
        m = sg()
        L = 5
        a, b = sym_piece("a", t1 + 1, L), sym_piece("b", t2 + 1, L)

        def ens(r):
            def head(x, t): return [tm.ite(far(x[1], x[0]), p, q) if t > 1 else p for p, q in ((x[1], x[2]), (x[0], x[1]))]

            def tail(x, t): return [tm.ite(far(x[t], x[t - 1]), p, q) if t > 1 else p for p, q in ((x[t - 1], x[t - 2]), (x[t], x[t - 1]))]

            def far(p, q): return tm.lt(const(1e-5), tm.abs_(p - q))
            x, y = a[0], b[0]
            l1, l2 = [(tail(x, t1), head(y, t2)), (head(x, t1), tail(y, t2)), (head(x, t1), head(y, t2)), (tail(x, t1), tail(y, t2))][ct]
            same = tm.lt(const(0), tm.real(a[1, 0]) * tm.real(b[1, 0]))
            par = same if ct < 2 else tm.not_(same)
            d = tm.abs_(l1[1] - l2[1])
            u, v = [(l[1] - l[0]) / tm.abs_(l[1] - l[0]) for l in (l1, l2)]
            ang = 180 - tm.fn("acos", tm.real(u) * tm.real(v) + tm.imag(u) * tm.imag(v)) * 180 / tm.PI
            geo = tm.and_(tm.lt(d, const(MAXD)), tm.lt(ang, const(MAXA)), tm.lt(d, tm.abs_(l1[0] - l2[0])))
            return [Goal("documented_condition", tm.iff(r[0][()], tm.and_(par, tm.or_(geo, tm.lt(d, const(MIND))))))]
        args = [a, b]
        return Contract("condition_%d_%d%d" % (ct, t1, t2), lambda a, b: m._connection_condition(a, b, t1, t2, ct), args, ens, functions=["caustics.extended_source.segments._connection_condition"], falsify=fals_cond)
    return mk


# ------------------------------------------------------------ the merging loop
def ends(z):
    k = [i for i, v in enumerate(z) if not (tm.cv(v) is not None and tm.cv(v) == 0)]
    return k[-1] if k else 0


def simulate(pieces, rank, decide, rounds):
    """The documented loop on lists of (vertex, parity).  rank: order of the pieces by length.
    decide(active, buffer) -> (candidates [(connection, slot)] nearest first, accepted set, chosen or None).
    -> contours, [(expected keys, candidate order, accepted)]"""
    left, contours, states = list(range(len(pieces))), [], []
    width = len(pieces)
    for r in range(rounds):
        left.sort(key=lambda k: rank[k])
        buf = (left + [None] * width)[:width]
        act, buf = (list(pieces[buf[0]]) if buf[0] is not None else []), buf[1:]
        left, width = [k for k in buf if k is not None], width - 1
        while left:
            cand, acc, pick = decide(len(act), list(buf))
            first, last = act[0][0], act[-1][0]
            h = lambda k: Z0 if k is None else pieces[k][0][0]
            t = lambda k: Z0 if k is None else pieces[k][-1][0]
            keys = [tm.abs_(last - h(k)) for k in buf] + [tm.abs_(first - t(k)) for k in buf] + [tm.abs_(first - h(k)) for k in buf] + [tm.abs_(last - t(k)) for k in buf]
            states.append((keys, [c * len(buf) + q for c, q in cand], {(c, buf[q]) for c, q in acc}, list(act)))
            if pick is None: break
            c, q = pick
            act = spec_join(act, list(pieces[buf[q]]), c)
            left.remove(buf[q])
            buf[q] = None
        contours.append(act)
    return contours, states


def chooser(rnd, forced):
    """forced: decisions of the first steps as (slot number, connection, rank of the first success) or None"""
    todo = list(forced)

    def decide(n, buf):
        w = len(buf)
        live = [q for q in range(w) if buf[q] is not None]
        allc = [(c, q) for c in range(4) for q in range(w)]
        if todo: f = todo.pop(0)
        else: f = None if rnd.random() < .25 else (rnd.randrange(99), rnd.randrange(4), rnd.randrange(4))
        rnd.shuffle(allc)
        if f is None:
            # none of the four nearest fits; the others may
            return allc, [x for x in allc[4:] if buf[x[1]] is not None], None
        win = (f[1], live[f[0] % len(live)])
        allc.remove(win)
        allc.insert(f[2], win)
        return allc, [win] + [x for x in allc[f[2] + 1:] if buf[x[1]] is not None and rnd.random() < .5], win
    return decide


def scripts_first(seed, n, rounds):
    """every length order with every first decision"""
    rnd = random.Random(11)
    for rank in itertools.permutations(range(n)):
        for f in [None] + [(q, c, j) for q in range(n - 1) for c in range(4) for j in range(4)]: yield rank, [f], rnd


def scripts_random(k):
    def g(seed, n, rounds):
        rnd = random.Random(13)
        for _ in range(k):
            rank = list(range(n))
            rnd.shuffle(rank)
            yield tuple(rank), [], rnd
    return g


def loop(name, fills, L, rounds, scripts, part=0, parts=1):
    """_merge_open_segments against the contracts of its helpers.  A script fixes what the helpers answer: the
    order of the pieces by length, the candidate order at every step and which candidates satisfy the condition."""
    def mk():
        def run(seed, thorough):
            import jax, jax.numpy as jnp
            m = sg()
            S0 = len(fills)
            steps = S0 - 1 + 2 * (rounds - 1)
            acc = Acc("loop_%s_%d" % (name, part), seed, lambda: falsify_loop(seed))
            P = [sym_piece("s%d" % k, fills[k], L) for k in range(S0)]
            who = {P[k][0, i]: k for k in range(S0) for i in range(fills[k])}
            pieces = [[(P[k][0, i], P[k][1, i]) for i in range(fills[k])] for k in range(S0)]
            base = nonzero_hooks(list(who))
            now = {}
            piece = lambda z: next((who[v] for v in z if v in who), None)

            def length_h(c, a, st):
                # contract: positive for a piece, zero for an empty row; the script fixes the order
                k = piece(a["segment"][0])
                return [A0(const(0) if k is None else const(Fr(1 + now["rank"][k], 7)))]

            def cond_h(c, a, st):
                if now["state"] is None: return [A0(tm.FALSE)]
                ct = st["ctype"] if "ctype" in st else int(tm.cv(a["ctype"][()]))
                k = piece(a["seg2"][0])
                keys, order, ok, act = now["state"]
                s1, s2 = a["seg1"], a["seg2"]
                acc.check("condition_active_piece", all(s1[0, i] is act[i][0] for i in range(len(act))) and a["tidx1"][()] is const(len(act) - 1, "I"), now["label"])
                if k is not None: acc.check("condition_candidate", a["tidx2"][()] is const(len(pieces[k]) - 1, "I"), "%s tail index %s" % (now["label"], tm.pretty(a["tidx2"][()], 2)))
                return [A0(const(bool(k is not None and (ct, k) in ok)))]
            cond = Stub("cond", m._connection_condition, lambda f: jnp.zeros((), bool), cond_h)
            ln = Stub("length", m._get_segment_length, lambda f: jnp.zeros(()), length_h)

            def fn(s):
                with patched((m, "_connection_condition", cond), (m, "_get_segment_length", ln)):
                    return m._merge_open_segments(s, max_nr_of_contours=rounds, max_nr_of_segments_in_contour=steps)
            go = trace_then_run(fn, [np.stack(P)], [cond, ln])

            def sort(ctx, eqn, ins):
                k = jx.toT(ins[0])
                if k.ndim != 1 or all(tm.cv(v) is not None or tm.is_special(v) for v in k): return None
                for st in now["states"]:
                    if len(st[0]) == len(k) and all(eqc_quick2(acc, x, y) for x, y in zip(k, st[0])):
                        now["state"] = st
                        acc.check("candidate_distances", True)
                        return [np.array([jx.toT(x)[i] for i in st[1]], dtype=object) for x in ins]
                acc.check("candidate_distances", False, "%s: sorted keys %s are not the end-to-end distances of the documented state" % (now["label"], [tm.pretty(v, 3)[:40] for v in k[:4]]))
                raise RuntimeError("unexpected sort")
            for c, (rank, forced, rnd) in enumerate(scripts(seed, S0, rounds)):
                want, states = simulate(pieces, rank, chooser(rnd, forced), rounds)
                if c % parts != part: continue
                now.update(rank=rank, states=states, state=None, label="lengths %s first decision %s" % (rank, forced))
                h = dict(base)
                h["prim:sort"] = sort
                try: outs, ctx = go(hooks=h)
                except RuntimeError: continue
                o = outs[0]
                if not acc.check("number_of_contours", o.shape[0] == rounds, str(o.shape)): continue
                for r in range(rounds):
                    w = want[r] + [(Z0, Z0)] * (o.shape[2] - len(want[r]))
                    acc.check("contour_vertices", all(eqc(acc, o[r, 0, i], w[i][0]) for i in range(o.shape[2])), "%s contour %d: %s" % (now["label"], r, [tm.pretty(v, 2)[:20] for v in o[r, 0][:8]]))
                    acc.check("contour_parity", all(eqc(acc, o[r, 1, i], w[i][1]) for i in range(o.shape[2])), now["label"])
            return acc.records()
        return Custom("loop_%s_%d" % (name, part), run, functions=["caustics.extended_source.segments._merge_open_segments", "utils.sparse_argsort"])
    return mk


def eqc_quick2(acc, a, b): return a is b or acc.pr.prove(Goal("e", a, b)).status == "proved"


def fals_loop(seed, k=25):
    """closed curves cut into pieces, some of them reversed (with the parity reversed): the curves come back"""
    import jax, jax.numpy as jnp
    m = sg()
    r = np.random.default_rng(seed)
    f = jax.jit(lambda s: m._merge_open_segments(s, max_nr_of_contours=3, max_nr_of_segments_in_contour=20))
    for j in range(k):
        K = 1 + j % 3
        L, rows, curves = 60, [], []
        for c in range(K):
            n = int(r.integers(30, 50))
            R_ = n * .02 / 6.28
            v = (3 * c + 1 + r.normal() * .2) * np.exp(.3j) + R_ * (1 + .1 * r.random()) * np.exp(1j * (np.arange(n) / n * 2 * np.pi + r.uniform(0, 6)))
            curves.append(v)
            cuts = sorted(int(x) for x in r.choice(np.arange(0, n - 4, 5), int(r.integers(1, 5)), replace=False))
            for a, b in zip(cuts, cuts[1:] + [cuts[0] + n]):
                p = v[np.arange(a, b) % n]
                d = int(r.choice([-1, 1]))
                s = np.zeros((2, L), complex)
                s[0, :len(p)], s[1, :len(p)] = p[::d], d * (1 if c % 2 else -1)
                rows.append(s)
        while len(rows) < 15: rows.append(np.zeros((2, L), complex))
        rows = np.array(rows)[r.permutation(len(rows))]
        o = np.asarray(f(jnp.asarray(rows)))
        got = [x[0][np.abs(x[0]) > 0] for x in o]
        got = [g for g in got if len(g)]
        ok = len(got) == K
        for g in got:
            hit = [v for v in curves if np.min(np.abs(v - g[0])) < 1e-12]
            if not hit or len(hit[0]) != len(g): ok = False; break
            ix = np.array([int(np.argmin(np.abs(hit[0] - q))) for q in g])
            st = np.diff(ix) % len(g)
            if len(set(ix.tolist())) != len(g) or not (np.all(st == 1) or np.all(st == len(g) - 1)): ok = False; break
        if not ok: return {"function": "segments._merge_open_segments", "pieces": [[repr(q) for q in s[0][np.abs(s[0]) > 0]] for s in rows if np.any(s)], "parities": [float(s[1, 0].real) for s in rows if np.any(s)], "observed": [repr(g.tolist()) for g in got], "expected": "the %d closed curves the pieces were cut from" % K}
    return None


def np_loop(rows, rounds, steps):
    """the documented joining loop on the pieces themselves -> contours as lists of (vertex, parity), smallest margin of any decision"""
    L = rows.shape[2]
    left = [[(v, p.real) for v, p in s.T if abs(v) > 0] for s in rows]
    left = sorted([p for p in left if p], key=lambda p: sum(abs(np.diff([v for v, _ in p]))))
    row = lambda p: np.pad(np.array([[v for v, _ in p], [q for _, q in p]], complex), ((0, 0), (0, 3)))
    out, margin, width = [], 9., len(rows)
    for _ in range(rounds):
        act, left, width = (left[0], left[1:], width - 1) if left else ([], [], width - 1)
        for _ in range(steps):
            if not left: break
            pts = [(abs([act[-1][0] - b[0][0], act[0][0] - b[-1][0], act[0][0] - b[0][0], act[-1][0] - b[-1][0]][c]), c, k) for c in range(4) for k, b in enumerate(left)]
            if len(left) < width: pts += [(abs(act[-1 if c in (0, 3) else 0][0]), c, -1) for c in range(4)]     # an empty row has its end at the origin
            pts.sort(key=lambda t: t[0])
            margin = min([margin] + [q[0] - p[0] for p, q in zip(pts[:4], pts[1:5])])
            for d, c, k in pts[:4]:
                if k < 0: continue
                ok, m = np_condition(row(act), row(left[k]), len(act) - 1, len(left[k]) - 1, c)
                margin = min(margin, m)
                if ok:
                    act = spec_join(act, left[k], c)
                    del left[k]
                    break
            else: break
        steps -= 2
        out.append(act)
    return out, margin


def fals_decoys(seed, k=25):
    """pieces of a curve together with short pieces that lie nearer to an end than the true continuation but may not be joined to it"""
    import jax, jax.numpy as jnp
    m = sg()
    r = np.random.default_rng(seed)
    f = jax.jit(lambda s: m._merge_open_segments(s, max_nr_of_contours=3, max_nr_of_segments_in_contour=12))
    for j in range(k):
        L, rows = 40, []
        n = int(r.integers(20, 32))
        v = np.exp(.3j) + n * .02 / 6.28 * (1 + .2 * np.cos(2 * np.arange(n) / n * 2 * np.pi)) * np.exp(1j * (np.arange(n) / n * 2 * np.pi + r.uniform(0, 6)))
        cuts = sorted(int(x) for x in r.choice(np.arange(0, n - 4, 5), int(r.integers(2, 5)), replace=False))
        for a, b in zip(cuts, cuts[1:] + [cuts[0] + n]):
            p = v[np.arange(a, b) % n]
            d = int(r.choice([-1, 1]))
            s = np.zeros((2, L), complex)
            s[0, :len(p)], s[1, :len(p)] = p[::d], d
            rows.append(s)
        for _ in range(int(r.integers(1, 4))):
            at, q = v[int(r.choice(cuts)) - int(r.integers(0, 2))], int(r.integers(2, 5))
            s = np.zeros((2, L), complex)
            s[0, :q] = at + (.002 + .002 * np.arange(q) ** r.choice([1, 2])) * np.exp(1j * r.uniform(0, 6.28))
            if r.random() < .5: s[0, :q] = s[0, :q][::-1]
            s[1, :q] = r.choice([-1, 1])
            rows.append(s)
        while len(rows) < 9: rows.append(np.zeros((2, L), complex))
        rows = np.array(rows)[r.permutation(len(rows))]
        want, margin = np_loop(rows, 3, 12)
        if margin < 1e-7: continue
        o = np.asarray(f(jnp.asarray(rows)))
        for g, w in zip(o, want):
            wr = np.zeros(g.shape, complex)
            wr[:, :len(w)] = np.array(w, complex).reshape(-1, 2).T
            if not np.allclose(g, wr, atol=1e-12): return {"function": "segments._merge_open_segments", "pieces": [[repr(q) for q in s[0][np.abs(s[0]) > 0]] for s in rows if np.any(s)], "parities": [float(s[1, 0].real) for s in rows if np.any(s)], "observed": repr(g[:, np.abs(g[0]) > 0].tolist()), "expected": repr(w)}
    return None


def falsify_loop(seed, k=25): return fals_loop(seed, k) or fals_decoys(seed, 4 * k)


# ------------------------------------------------------------ following images along the limb
def fals_permute(seed, k=60):
    m = lb()
    r = np.random.default_rng(seed)
    for j in range(k):
        n, N = 2 + j % 4, 2 + j % 5
        z = r.normal(size=(n, N)) + 1j * r.normal(size=(n, N))
        mk, p = r.random((n, N)) < .5, r.choice([-1., 1.], (n, N))
        a, b, c = map(np.asarray, m._permute_images(z, mk, p))
        for q in range(N):
            if sorted(map(repr, zip(np.round(a[:, q], 12).tolist(), b[:, q].tolist(), np.real(c[:, q]).tolist()))) != sorted(map(repr, zip(np.round(z[:, q], 12).tolist(), mk[:, q].tolist(), p[:, q].tolist()))):
                return {"function": "limb._permute_images", "images": repr(z.tolist()), "mask": mk.tolist(), "parity": p.tolist(), "observed": repr((a.tolist(), b.tolist(), c.tolist())), "sample": q, "expected": "a reordering of the images of every sample"}
            prev = z[:, 0] if q == 0 else a[:, q - 1]
            free = list(range(n))
            for i in range(n):
                t = min(free, key=lambda x: abs(z[x, q] - prev[i]))
                free.remove(t)
                if abs(a[i, q] - z[t, q]) > 1e-12: return {"function": "limb._permute_images", "images": repr(z.tolist()), "observed": repr(a.tolist()), "sample": q, "expected": "greedy nearest continuation of the previous sample"}
    return None


def permute(n, N):
    """every sample is reordered by the permutation that matches it to the previous, reordered, sample"""
    def mk():
        def run(seed, thorough):
            import jax.numpy as jnp
            m = lb()
            acc = Acc("follow_%d_%d" % (n, N), seed, lambda: fals_permute(seed))
            z, mask, p = jx.symarr("z", (n, N), "C"), jx.symarr("mask", (n, N), "B"), jx.symarr("p", (n, N), "R")
            now = {}

            def match_h(c, a, st):
                k = len(now["calls"])
                now["calls"].append((a["a"], a["b"]))
                return [np.array([const(i, "I") for i in now["perm"][k % N]], dtype=object)]
            S = Stub("match", m.match_points, lambda f: jnp.zeros(n, int), match_h)

            def fn(z, mk, p):
                with patched((m, "match_points", S)): return m._permute_images(z, mk, p)
            go = trace_then_run(fn, [z, mask, p], [S])
            perms = list(itertools.permutations(range(n)))
            for pp in itertools.product(perms, repeat=N):
                now.update(perm=pp, calls=[])
                (a, b, c), _ = go()
                if not acc.check("one_match_per_sample", len(now["calls"]) == N, str(len(now["calls"]))): continue
                prev = z[:, 0]
                for q in range(N):
                    x, y = now["calls"][q]
                    acc.check("matched_to_previous", all(eqc(acc, u, v) for u, v in zip(x, prev)) and all(eqc(acc, u, v) for u, v in zip(y, z[:, q])), "sample %d" % q)
                    prev = np.array([z[i, q] for i in pp[q]], dtype=object)
                    for i in range(n):
                        acc.check("images_permuted", eqc(acc, a[i, q], z[pp[q][i], q]), "image %d sample %d" % (i, q))
                        acc.check("mask_moves_along", acc.pr.prove(Goal("m", tm.iff(b[i, q], mask[pp[q][i], q]))).status == "proved", tm.pretty(b[i, q], 4))
                        acc.check("parity_moves_along", eqc(acc, c[i, q], tm.to_c(p[pp[q][i], q])) or eqc(acc, c[i, q], p[pp[q][i], q]))
            return acc.records()
        return Custom("follow_%d_%d" % (n, N), run, functions=["caustics.extended_source.limb._permute_images"])
    return mk


# ------------------------------------------------------------ sampling the limb
def n_samples(npts, niter):
    n = int(.5 * npts)
    step = int(n / niter)
    for _ in range(niter): n += min(step, n - 1)
    return n


def fals_limb(seed, k=8):
    """every column of the traced limb: the images of one limb point, with their own validity and parity; columns in order along the limb"""
    import jax.numpy as jnp
    from microjax.point_source import _images_point_source, lens_eq, lens_eq_det_jac
    m = lb()
    r = np.random.default_rng(seed)
    for j in range(k):
        n = 2 + (j % 4 == 3)
        p = dict(a=float(r.uniform(.3, .7)), e1=float(r.uniform(.05, .5)))
        if n == 3: p = dict(p, e1=.3, e2=.5, r3=float(r.uniform(.4, 1)), psi=float(r.uniform(0, 6)))
        w0, rho = complex(r.normal() * .2, r.normal() * .2), float(r.choice([.05, .2, .4]))
        npts, niter = [(40, 4), (60, 3), (41, 5), (40, 4)][j % 4]
        z, mk, par = [np.asarray(v) for v in m._images_of_source_limb(jnp.asarray(w0), rho, nlenses=n, npts=npts, niter=niter, **p)]
        N = n_samples(npts, niter)
        inp = {"w0": repr(w0), "rho": rho, "nlenses": n, "npts": npts, "niter": niter, **p}
        bad = lambda o, e: {"function": "limb._images_of_source_limb", "inputs": inp, "observed": o, "expected": e}
        if z.shape[1] != N or mk.shape != z.shape or par.shape != z.shape: return bad("shapes %s %s %s" % (z.shape, mk.shape, par.shape), "%d samples" % N)
        w = np.asarray(lens_eq(jnp.asarray(z), nlenses=n, **p))
        det = np.asarray(lens_eq_det_jac(jnp.asarray(z), nlenses=n, **p))
        i = np.abs(det) > 1e-6
        if not np.all(np.sign(det)[i] == par.real[i]): return bad("parity differs from the sign of the Jacobian determinant", "sign of the determinant")
        wc = np.array([np.median(w[mk[:, q], q].real) + 1j * np.median(w[mk[:, q], q].imag) for q in range(N)])
        if not np.all(np.abs(np.abs(wc - w0) - rho) < 1e-5): return bad("images of points off the limb", "images of the limb")
        th = np.angle((wc - w0) / rho)
        if th[0] > 3: th[0] -= 2 * np.pi
        if not (np.all(np.diff(th) > 0) and th[0] < -np.pi + 1e-4 and th[-1] > np.pi - 1e-4): return bad("angles of the samples: " + repr(th.tolist()), "increasing from -pi to pi")
        zz, mm = [np.asarray(v) for v in _images_point_source(jnp.asarray(wc), nlenses=n, **p)]
        for q in range(N):
            a, b = z[mk[:, q], q], zz[mm[:, q], q]
            sure = np.abs(det[mk[:, q], q]).min() > 1e-2      # away from caustics the number of images is not in doubt
            if sure and (len(a) != len(b) or max(np.min(np.abs(a[:, None] - b[None]), axis=1)) > 1e-4): return bad("sample %d: images %s" % (q, a.tolist()), repr(b.tolist()))
    return None


def limb(n_lens, npts, niter, twin, count, start=0):
    """_images_of_source_limb against the contracts of the solver (images as opaque functions of the source point),
    of the Jacobian determinant and of _permute_images; the choice of the intervals to refine is an arbitrary script."""
    tag = "limb_%d_%d_%d%s" % (n_lens, npts, niter, "_twin" if twin else "")

    def mk():
        def run(seed, thorough):
            import jax, jax.numpy as jnp
            m = lb()
            acc = Acc(tag, seed, lambda: fals_limb(seed))
            NI = 2
            w0, rho = C("w0"), R("rho")
            lens = {"a": R("a"), "e1": R("e1")}
            if n_lens == 3: lens.update(e2=R("e2"), r3=R("r3"), psi=R("psi"))
            now = {}

            def point(w):
                """number of the limb point, by its angle"""
                base = tm.subst(w, {w0: tm.to_c(const(0)), rho: const(1)})
                v = complex(numeric.evaluate([base], {})[0])
                if abs(abs(v) - 1) > 1e-12: acc.check("on_the_limb", False, "|w - w0| = %r rho" % abs(v))
                if base.id not in now["ok"]: now["ok"][base.id] = acc.eq("on_the_limb", w, w0 + rho * base)
                th = float(np.angle(v))
                if th > np.pi - 1e-12: th = -np.pi
                for t, k in now["pts"].items():
                    if abs(t - th) < 1e-11: return k
                now["pts"][th] = len(now["pts"])
                return now["pts"][th]

            def image(i, k):
                # twin: two images of different limb points that agree exactly
                return C("z%d_%d" % ((0, 1) if twin and (i, k) == (1, 2) else (i, k)))
            valid = lambda i, k: tm.var("v%d_%d" % (i, k), "B")
            dets = {}

            def det_of(z):
                if z.id not in dets: dets[z.id] = R("det%d" % len(dets))
                return dets[z.id]

            def images_h(c, a, st):
                ws = [t for t in np.ravel(a["w"])]
                acc.check("solver_lens", st.get("nlenses") == n_lens, str(st))
                for q, v in lens.items(): acc.eq("solver_" + q, a[q][()], v)
                ks = [point(t) for t in ws]
                return [np.array([[image(i, k) for k in ks] for i in range(NI)], dtype=object), np.array([[valid(i, k) for k in ks] for i in range(NI)], dtype=object)]

            def det_h(c, a, st):
                acc.check("determinant_lens", st.get("nlenses") == n_lens, str(st))
                for q, v in lens.items(): acc.eq("determinant_" + q, a[q][()], v)
                z = a["z"]
                return [np.array([det_of(t) for t in z.ravel()], dtype=object).reshape(z.shape)]
            import microjax.point_source as ps
            shape = lambda f: (jnp.zeros((NI,) + jnp.shape(f["w"]), complex), jnp.zeros((NI,) + jnp.shape(f["w"]), bool))
            seq = Stub("seq", raw(ps._images_point_source_sequential), shape, images_h)
            par = Stub("images", raw(ps._images_point_source), shape, images_h)
            det = Stub("det", raw(ps.lens_eq_det_jac), lambda f: jnp.zeros(jnp.shape(f["z"])), det_h)
            last = {}

            def perm_h(c, a, st):
                last.update(a)
                return [last["oz"], last["om"], last["op"]]
            perm = Stub("permute", m._permute_images, lambda f: (jnp.zeros(jnp.shape(f["z"]), complex), jnp.zeros(jnp.shape(f["z"]), bool), jnp.zeros(jnp.shape(f["z"]))), perm_h)

            def fn(w0, rho, *v):
                with patched((m, "_images_point_source_sequential", seq), (m, "_images_point_source", par), (m, "lens_eq_det_jac", det), (m, "_permute_images", perm)):
                    return raw(m._images_of_source_limb)(w0, rho, nlenses=n_lens, npts=npts, niter=niter, **dict(zip(lens, v)))
            go = trace_then_run(fn, [A0(w0), A0(rho)] + [A0(v) for v in lens.values()], [seq, par, det, perm])
            N = n_samples(npts, niter)
            for nm, so in (("oz", "C"), ("om", "B"), ("op", "R")): last[nm] = jx.symarr(nm, (NI, N), so)
            small = []

            def uniform_h(ctx, eqn, ins):
                lo, hi = [tm.cv(jx.toT(x).ravel()[0]) for x in ins[-2:]]
                sh = eqn.outvars[0].aval.shape
                o = np.empty(sh, dtype=object)
                for i in np.ndindex(*sh):
                    o[i] = R("u%d" % len(small))
                    small.append((o[i], max(abs(float(lo)), abs(float(hi)))))
                return [o]

            def zeros_h(ctx, eqn, ins):
                return [np.full(v.aval.shape, const(0, "I"), dtype=object) for v in eqn.outvars]

            def unique_h(ctx, eqn, ins):
                a = jx.toT(ins[0])
                if a.ndim != 1: return None
                order = sorted(range(len(a)), key=lambda i: (pretty_key(a[i]), i))
                s = np.array([a[i] for i in order], dtype=object)
                first = np.array([tm.TRUE if i == 0 or s[i] is not s[i - 1] else tm.FALSE for i in range(len(s))], dtype=object)
                return [s, first, np.array([const(i, "I") for i in order], dtype=object)]

            def sort_h(ctx, eqn, ins):
                k = jx.toT(ins[0])
                if k.ndim != 1 or all(tm.cv(v) is not None for v in k): return None
                p = list(range(len(k)))
                if any(tm.free_vars(v) for v in k): now["rnd"].shuffle(p)
                else: p.sort(key=lambda i: (float(np.real(numeric.evaluate([k[i]], {})[0])), i))
                return [np.array([jx.toT(x)[i] for i in p], dtype=object) for x in ins]
            def topk_h(ctx, eqn, ins):
                k = jx.toT(ins[0])
                if k.ndim != 1 or all(tm.cv(v) is not None for v in k): return None
                p = list(range(len(k)))
                now["rnd"].shuffle(p)
                p = p[:eqn.params["k"]]
                return [np.array([k[i] for i in p], dtype=object), np.array([const(i, "I") for i in p], dtype=object)]
            for c in range(start, start + count):
                now.update(ok={}, pts={}, rnd=random.Random(1000 + c))
                small.clear()
                H = {"_uniform": uniform_h, "prim:sort": sort_h, "prim:top_k": topk_h, "_unique_sorted_mask": unique_h}
                for q in ("random_wrap", "random_unwrap", "random_seed", "random_split", "random_fold_in"): H["prim:" + q] = zeros_h
                outs, _ = go(hooks=H)
                lab = "script %d" % c
                for nm, o in zip(("oz", "om", "op"), outs): acc.check("followed_images_returned", all(x is y for x, y in zip(o.ravel(), last[nm].ravel())), lab)
                Z, M, P = last["z"], last["z_mask"], last["z_parity"]
                if not acc.check("number_of_samples", Z.shape == (NI, N) == M.shape == P.shape, "%s %s %s" % (Z.shape, M.shape, P.shape)): continue
                if not acc.check("every_sample_is_new", len(now["pts"]) == N, "%d distinct limb points" % len(now["pts"])): continue
                angle = {k: t for t, k in now["pts"].items()}
                strip = {u: const(0) for u, _ in small}
                ends = sorted(angle.values())
                acc.check("whole_limb", ends[0] == -np.pi and ends[-1] > np.pi - 1e-6 and max(np.diff(ends)) <= 2 * np.pi / (int(.5 * npts) - 1) + 1e-9, str(ends))
                used = []
                for q in range(N):
                    col = [tm.subst(t, strip) for t in Z[:, q]]
                    ks = [k for k in angle if all(col[i] is image(i, k) or col[i] is tm.to_c(image(i, k)) for i in range(NI))]
                    if not acc.check("images_of_one_limb_point", len(ks) == 1, "%s column %d: %s" % (lab, q, [tm.pretty(t) for t in col])): break
                    k = ks[0]
                    used.append(k)
                    for i in range(NI):
                        acc.check("images_moved_by_rounding_only", moved_by(Z[i, q], col[i], small) <= 4e-9, "%s: %s" % (lab, tm.pretty(Z[i, q])))
                        acc.check("validity_of_the_same_image", M[i, q] is valid(i, k) or acc.pr.prove(Goal("v", tm.iff(M[i, q], valid(i, k)))).status == "proved", "%s column %d: %s" % (lab, q, tm.pretty(M[i, q])))
                        acc.check("parity_of_the_same_image", P[i, q] is sign_of(det_of(image(i, k))) or eqc(acc, P[i, q], sign_of(det_of(image(i, k)))), "%s column %d: %s" % (lab, q, tm.pretty(P[i, q])))
                else:
                    if twin: acc.check("equal_images_made_distinct", len({t.id for t in Z.ravel()}) == Z.size, lab)
                    th = [angle[k] for k in used]
                    acc.check("in_order_along_the_limb", all(x < y for x, y in zip(th, th[1:])), "%s: %s" % (lab, th))
            return acc.records()
        return Custom(tag, run, functions=["caustics.extended_source.limb._images_of_source_limb"], trusted=["jax.random.uniform lies between its bounds", "jnp.unique groups equal entries (returns the first index of each)", "distinct images are not exactly equal unless the script says so"])
    return mk


def moved_by(t, still, small):
    """a bound on |t - still|, from the bounds of the numbers in small that t uses (each enters linearly)"""
    fv = tm.free_vars(t)
    us = [(u, b) for u, b in small if u in fv]
    if not us: return 0.
    d, tot = t - still, 0.
    vals = lambda e, w: complex(numeric.evaluate([e], {v: w for v in tm.free_vars(e)})[0])
    for u, b in us:
        # linear in u: the second difference vanishes
        f = [tm.subst(d, {u: const(k)}) for k in (0, 1, 2)]
        if Prover().prove(Goal("linear", f[2] - f[1], f[1] - f[0])).status != "proved": return 1e9
        tot += b * abs(vals(f[1] - f[0], .37))
    return tot


def sign_of(t): return tm.ite(tm.lt(const(0), t), const(1), tm.ite(tm.lt(t, const(0)), const(-1), const(0)))


def pretty_key(t): return t.id


def contracts():
    d = {}
    for N in (2, 3, 4): d["split_%d" % N] = split(N, 0, 1)
    for k in range(4): d["split_5_%d" % k] = split(5, k, 4)
    d["segments_1"] = segments("one_track", 4, one_track(4))
    d["segments_2"] = segments("two_tracks", 4, two_tracks(4, 250))
    d["segments_5"] = segments("five_tracks", 3, two_tracks(3, 80, 5))
    d["join_3"] = join(3, 7)
    for n in (1, 2, 4): d["length_%d" % n] = length(n, 6)
    for ct in range(4):
        for t in ((1, 1), (2, 2), (3, 1)): d["condition_%d_%d%d" % ((ct,) + t)] = condition(ct, *t)
    for k in range(2): d["loop_first_%d" % k] = loop("first", (2, 1, 2), 3, 2, scripts_first, k, 2)
    d["loop_random4"] = loop("random4", (2, 3, 1, 2), 3, 3, scripts_random(60))
    d["loop_random5"] = loop("random5", (1, 2, 2, 3, 2), 3, 3, scripts_random(40))
    d["follow_2_3"] = permute(2, 3)
    d["follow_3_2"] = permute(3, 2)
    d["limb_2_8_2"] = limb(2, 8, 2, False, 25)
    d["limb_2_8_2_twin"] = limb(2, 8, 2, True, 25)
    d["limb_3_9_4"] = limb(3, 9, 4, False, 25)
    d["limb_2_12_2"] = limb(2, 12, 2, False, 25)
    d["execution_limb"] = bounded_oracle("execution_limb", fals_limb, 8, ["caustics.extended_source.limb._images_of_source_limb"], "8 random limbs of two and three lenses")
    S = "caustics.extended_source.segments."
    d["execution_split"] = bounded_oracle("execution_split", fals_split, 120, [S + "_split_segment"], "random tracks of 2..30 samples")
    d["execution_segments"] = bounded_oracle("execution_segments", fals_segments, 45, [S + "_get_segments"], "random images of two and three lenses, 4..12 samples")
    d["execution_loop"] = bounded_oracle("execution_loop", falsify_loop, 25, [S + "_merge_open_segments"], "random closed curves cut into pieces, with and without nearer pieces that may not be joined")
    d["execution_condition"] = bounded_oracle("execution_condition", fals_cond, 300, [S + "_connection_condition"], "random pairs of pieces")
    return d
