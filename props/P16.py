from vc.spec import *
from vc.contract import Contract, Custom, Goal
from vc import jx
from vc.moments import Moments, same_program
from vc.prove import Prover, Domain
import vc.term as tm
from vc.direct import bounded_oracle
import numpy as np

EXPLAIN = ("Completing the square is proved as a polynomial identity in the flux offsets: for every (fs, fb) the joint exponent equals the returned Mahalanobis part plus the quadratic form of the posterior "
           "precision around the posterior mean, and the returned log-determinants are those of C, of the prior and of the posterior precision; the two-dimensional Gaussian integral then gives the marginal. "
           "Diagonal noise: any number of points (moment symbols). Dense noise: any number of points with C behind the contracts of the linear solver and the LU factorisation.")

SIZES = [11, 13, 17, 101, 257, 1009]


def lk():
    import microjax.likelihood as m
    return m


def split_logs(t):
    """t = rest + log(prod) for positive arguments: (rest, [(argument, coefficient)])"""
    from fractions import Fraction as Fr
    logs, rest = [], tm.ZERO

    def go(t, k):
        nonlocal rest
        if t.op == "ite" and any(tm.is_special(a) for a in t.args[1:]):
            # slogdet of a singular matrix is -inf; regular instances only
            go(t.args[2] if tm.is_special(t.args[1]) else t.args[1], k)
        elif t.op == "add":
            for a in t.args: go(a, k)
        elif t.op == "mul" and any(tm.cv(a) is not None for a in t.args):
            c, o = tm.ONE, tm.ONE
            for a in t.args:
                if tm.cv(a) is not None: c = tm.mul(c, a)
                else: o = tm.mul(o, a)
            go(o, tm.mul(k, c))
        elif t.op == "div" and tm.cv(t.args[1]) is not None: go(t.args[0], tm.div(k, t.args[1]))
        elif t.op == "fn" and t.val == "log": logs.append((t.args[0], k))
        else: rest = tm.add(rest, tm.mul(k, t))
    go(t, tm.ONE)
    return rest, logs


def log_product(logs, scale):
    """prod of arguments raised to scale*coefficient (integers)"""
    r = tm.ONE
    for a, k in logs:
        c = tm.cv(tm.mul(k, const(scale)))
        q = int(round(float(c)))
        if abs(float(c) - q) > 1e-12: return None
        r = tm.mul(r, tm.powi(a, q))
    return r


def exact(flux, M, C, mu, L):
    """-log N(flux; M mu, C + M L M^T) - n/2 log 2 pi, by a route different from the code's"""
    S = C + M @ L @ M.T
    r = flux - M @ mu
    return 0.5 * (r @ np.linalg.solve(S, r) + np.linalg.slogdet(S)[1])


def real_check(which, seed, k, sizes=(1, 2, 3, 5, 40, 200)):
    m = lk()
    import jax.numpy as jnp
    for j in range(k):
        r = np.random.default_rng(77 * seed + j)
        n = sizes[j % len(sizes)]
        D = np.stack([r.normal(size=n) * 2, np.ones(n) if j % 2 else r.normal(size=n)], 1)
        f = r.normal(size=n) * 3 + 1
        if which == "diag":
            s2 = r.uniform(.1, 2, n)
            a, b = r.uniform(.1, 3, 2)
            want = exact(f, D, np.diag(s2), np.zeros(2), np.diag([a, b]))
            got = float(m.nll_ulens(jnp.asarray(f), jnp.asarray(D), jnp.asarray(s2), a, b))
            inp = {"flux": f.tolist(), "M": D.tolist(), "sigma2_obs": s2.tolist(), "sigma2_fs": a, "sigma2_fb": b}
        else:
            A = r.normal(size=(n, n)) / np.sqrt(n)
            C_ = A @ A.T + 0.3 * np.eye(n)
            B = r.normal(size=(2, 2))
            L = B @ B.T + 0.2 * np.eye(2)
            mu = r.normal(size=2)
            want = exact(f, D, C_, mu, L)
            got = float(m.nll_ulens_general(*[jnp.asarray(v) for v in (f, D, C_, mu, L)]))
            inp = {"flux": f.tolist(), "M": D.tolist(), "C": C_.tolist(), "mu": mu.tolist(), "Lambda": L.tolist()}
        if not abs(got - want) <= 1e-7 * max(1, abs(want), n):
            return {"function": "likelihood.nll_ulens" + ("" if which == "diag" else "_general"), "inputs": inp, "observed": got, "expected": want}
    return None


def diagonal():
    m = lk()
    N = 7
    f, m0, m1, s2 = [jx.symarr(x, (N,)) for x in ("flux", "m_s", "m_b", "sig2")]
    lf, lb, tf, tb = R("sigma2_fs"), R("sigma2_fb"), R("theta_s"), R("theta_b")
    D = np.empty((N, 2), dtype=object)
    D[:, 0], D[:, 1] = m0, m1
    M = Moments([f, m0, m1, s2])

    def ens(r):
        rest, logs = split_logs(r[0][()])
        F, X, Y, V = f[0], m0[0], m1[0], s2[0]
        # posterior precision and mean (spec)
        a11, a12, a22 = M.sum(X * X / V) + 1 / lf, M.sum(X * Y / V), M.sum(Y * Y / V) + 1 / lb
        b1, b2 = M.sum(X * F / V), M.sum(Y * F / V)
        det = a11 * a22 - a12 * a12
        p, q = (a22 * b1 - a12 * b2) / det, (a11 * b2 - a12 * b1) / det
        joint = M.sum((F - tf * X - tb * Y) ** 2 / V) + tf ** 2 / lf + tb ** 2 / lb
        quad = a11 * (tf - p) ** 2 + 2 * a12 * (tf - p) * (tb - q) + a22 * (tb - q) ** 2
        # the log terms: coefficient of the per-datum logs is a moment symbol
        mom = M.sum(tm.log(V))
        P = log_product(logs, 2)
        goals = [Goal("completed_square", 2 * (rest - mom / 2) + quad, joint)]
        goals.append(Goal("log_determinants", P if P is not None else R("non_integer_log_coefficient"), lf * lb * det))
        return goals
    g = {"sigma2": lambda r: r.uniform(.1, 3), "sig2": lambda r: r.uniform(.1, 3), "sigma2_fs": lambda r: r.uniform(.1, 3), "sigma2_fb": lambda r: r.uniform(.1, 3)}
    return Contract("diagonal", lambda *v: m.nll_ulens(*v), [f, D, s2, A0(lf), A0(lb)], ens, gens=g, hooks=M.hooks(), functions=["likelihood.nll_ulens"],
                    min_goals=2, refute=False, falsify=lambda s, k: real_check("diag", s, k), note="any number of points; log|C| is the moment of log(sigma2)")


def diag_sized(N):
    def mk():
        m = lk()
        f, s2, D = jx.symarr("flux", (N,)), jx.symarr("sig2", (N,)), jx.symarr("M", (N, 2))
        lf, lb, tf, tb = R("sigma2_fs"), R("sigma2_fb"), R("theta_s"), R("theta_b")

        def ens(r):
            rest, logs = split_logs(r[0][()])
            S = lambda g: sum((g(i) for i in range(N)), const(0))
            a11, a12, a22 = S(lambda i: D[i, 0] ** 2 / s2[i]) + 1 / lf, S(lambda i: D[i, 0] * D[i, 1] / s2[i]), S(lambda i: D[i, 1] ** 2 / s2[i]) + 1 / lb
            b1, b2 = S(lambda i: D[i, 0] * f[i] / s2[i]), S(lambda i: D[i, 1] * f[i] / s2[i])
            det = a11 * a22 - a12 * a12
            p, q = (a22 * b1 - a12 * b2) / det, (a11 * b2 - a12 * b1) / det
            joint = S(lambda i: (f[i] - tf * D[i, 0] - tb * D[i, 1]) ** 2 / s2[i]) + tf ** 2 / lf + tb ** 2 / lb
            quad = a11 * (tf - p) ** 2 + 2 * a12 * (tf - p) * (tb - q) + a22 * (tb - q) ** 2
            P = log_product(logs, 2)
            c = tm.ONE
            for i in range(N): c = c * s2[i]
            return [Goal("completed_square", 2 * rest + quad, joint), Goal("log_determinants", P if P is not None else R("bad"), c * lf * lb * det)]
        pos = lambda r: r.uniform(.1, 3)
        return Contract("diagonal_%d_points" % N, lambda *v: m.nll_ulens(*v), [f, D, s2, A0(lf), A0(lb)], ens,
                        gens={"sig2": pos, "sigma2_fs": pos, "sigma2_fb": pos}, functions=["likelihood.nll_ulens"], min_goals=2, refute=False, falsify=lambda s, k: real_check("diag", s, k))
    return mk


def det_sym(A):
    n = len(A)
    if n == 1: return A[0][0]
    r = const(0)
    for j in range(n):
        minor = [[A[i][k] for k in range(n) if k != j] for i in range(1, n)]
        r = r + (const(1) if j % 2 == 0 else const(-1)) * A[0][j] * det_sym(minor)
    return r


def ldl(tag, n):
    """generic symmetric regular matrix through its LDL^T factors, and its LU factors"""
    G = np.full((n, n), tm.ZERO, dtype=object)
    for i in range(n):
        G[i, i] = tm.ONE
        for j in range(i): G[i, j] = R("%s_g_%d_%d" % (tag, i, j))
    d = [R("%s_d_%d" % (tag, i)) for i in range(n)]
    A = np.empty((n, n), dtype=object)
    LU = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            A[i, j] = sum((G[i, k] * d[k] * G[j, k] for k in range(min(i, j) + 1)), const(0))
            LU[i, j] = G[i, j] if j < i else d[i] * G[j, i]
    return A, LU, d


def linear_algebra_hooks(factors, solves):
    """contracts of lu and of the linear solver on the matrices of the problem: the answers are the known factors and
    solutions once the arguments are proved to be those matrices; anything else is expanded"""
    pr = Prover(Domain({}, []), budget_s=30)

    def same(a, b):
        a, b = jx.toT(a), jx.toT(b)
        if a.shape != b.shape: return False
        for i in np.ndindex(*a.shape):
            if a[i] is not b[i] and pr.prove(Goal("same", a[i], b[i])).status != "proved": return False
        return True

    def lu(ctx, eqn, ins):
        for A, LU in factors:
            if np.shape(ins[0]) == A.shape and same(ins[0], A):
                p = np.arange(len(A), dtype=np.int32)
                return [LU, p, p.copy()]
        return None

    def solve(ctx, eqn, args):
        cl = eqn.params["const_lengths"]
        mats = [x for x in args[:cl.matvec] if np.ndim(x) == 2]
        b = jx.toT(args[cl.matvec + cl.vecmat + cl.solve + cl.transpose_solve])
        known = [(B.reshape(len(B), -1)[:, c], X.reshape(len(B), -1)[:, c]) for A, B, X in solves for c in range(B.size // len(B)) if any(np.shape(x) == A.shape and same(x, A) for x in mats)]
        if not known: return None
        n = len(known[0][0])

        def columns(cols):
            r = [next((X for B, X in known if same(c, B)), None) for c in cols]
            return None if any(x is None for x in r) else r
        # right-hand sides are matched column by column; the batch of columns may lie along either axis
        if b.shape == (n,):
            r = columns([b])
            return None if r is None else [r[0]]
        for ax in (1, 0):
            if b.ndim == 2 and b.shape[1 - ax] == n:
                r = columns([b[:, j] if ax else b[j] for j in range(b.shape[ax])])
                if r is not None: return [np.stack(r, ax)]
        return None
    return {"prim:lu": lu, "prim:custom_linear_solve": solve}


def dense(N):
    """C symmetric; M = C X, flux = M mu + C y parametrise every regular instance"""
    def mk():
        m = lk()
        Cm, LUc, dc = ldl("C", N)
        L, LUl, dL = ldl("Lam", 2)
        X, y, mu, d = jx.symarr("X", (N, 2)), jx.symarr("y", (N,)), jx.symarr("mu", (2,)), jx.symarr("d", (2,))
        S = lambda n, g: sum((g(i) for i in range(n)), const(0))
        M = np.empty((N, 2), dtype=object)
        F = np.empty((N,), dtype=object)
        rr = np.empty((N,), dtype=object)
        for i in range(N):
            for k in range(2): M[i, k] = S(N, lambda j: Cm[i, j] * X[j, k])
        for i in range(N):
            rr[i] = S(N, lambda j: Cm[i, j] * y[j])
            F[i] = S(2, lambda k: M[i, k] * mu[k]) + rr[i]
        dl = dL[0] * dL[1]
        Li = [[L[1, 1] / dl, -L[0, 1] / dl], [-L[0, 1] / dl, L[0, 0] / dl]]
        LiA = np.array([[Li[a][b] for b in range(2)] for a in range(2)], dtype=object)
        eye = np.array([[tm.ONE, tm.ZERO], [tm.ZERO, tm.ONE]], dtype=object)
        hooks = linear_algebra_hooks([(Cm, LUc), (L, LUl)], [(Cm, M, X), (Cm, rr, y), (Cm, F, y + X @ mu), (L, eye, LiA)])

        def ens(r):
            rest, logs = split_logs(r[0][()])
            G = [[Li[a][b] + S(N, lambda i: M[i, a] * X[i, b]) for b in range(2)] for a in range(2)]
            # exponent at theta = mu + d:  (r - M d)^T C^-1 (r - M d) + d^T L^-1 d, with C^-1 (r - M d) = y - X d
            e = [y[i] - X[i, 0] * d[0] - X[i, 1] * d[1] for i in range(N)]
            joint = S(N, lambda i: e[i] * S(N, lambda j: Cm[i, j] * e[j])) + S(2, lambda a: d[a] * S(2, lambda b: Li[a][b] * d[b]))
            b = [S(N, lambda i: M[i, a] * y[i]) for a in range(2)]
            dA = G[0][0] * G[1][1] - G[0][1] * G[1][0]
            p = [(G[1][1] * b[0] - G[0][1] * b[1]) / dA, (G[0][0] * b[1] - G[1][0] * b[0]) / dA]
            u = [d[a] - p[a] for a in range(2)]
            quad = S(2, lambda a: u[a] * S(2, lambda c: G[a][c] * u[c]))
            P = log_product(logs, 4)          # squared so that signs of |det| drop out
            c = dl * dA
            for t in dc: c = c * t
            return [Goal("completed_square", 2 * rest + quad, joint), Goal("log_determinants", P if P is not None else R("bad"), c * c)]
        return Contract("dense_%d_points" % N, lambda *v: m.nll_ulens_general(*v), [F, M, Cm, mu, L], ens, hooks=hooks, functions=["likelihood.nll_ulens_general"],
                        trusted=["LU factorisation and linear solver of jax.numpy.linalg: factors and solution of a regular system, pivoting included"],
                        min_goals=2, refute=False, falsify=lambda s, k: real_check("dense", s, k), budget=300)
    return mk


def dense_any():
    """dense noise, any number of points: <u,v> = u^T C^-1 v is a symmetric bilinear form, X = C^-1 M and y = C^-1 r"""
    m = lk()
    N = 7
    Cm, LU = np.empty((N, N), dtype=object), np.empty((N, N), dtype=object)
    dc = jx.symarr("d_C", (N,))
    for i in range(N):
        for j in range(N):
            Cm[i, j] = R("C_%d_%d" % (min(i, j), max(i, j)))
            LU[i, j] = dc[i] if i == j else R("LU_%d_%d" % (i, j))
    L, LUl, dL = ldl("Lam", 2)
    M0, M1, X0, X1, rr, y = [jx.symarr(k, (N,)) for k in ("M_s", "M_b", "X_s", "X_b", "r", "y")]
    mu, d = jx.symarr("mu", (2,)), jx.symarr("d", (2,))
    M, X = np.stack([M0, M1], 1), np.stack([X0, X1], 1)
    F = np.empty((N,), dtype=object)
    for i in range(N): F[i] = rr[i] + M0[i] * mu[0] + M1[i] * mu[1]
    vec = {M0[0]: ("s", 0), M1[0]: ("b", 0), rr[0]: ("r", 0), X0[0]: ("s", 1), X1[0]: ("b", 1), y[0]: ("r", 1)}

    def form(mono):
        """moment of a product u_i (C^-1 v)_i"""
        f = [x for x, k in mono for _ in range(k) if k > 0]
        if len(f) != 2 or any(x not in vec for x in f) or sum(k for _, k in mono) != 2: return None
        if sorted(vec[x][1] for x in f) != [0, 1]: return None
        return R("<%s,%s>" % tuple(sorted(vec[x][0] for x in f)))
    mom = Moments([M0, M1, X0, X1, rr, y, dc], canon=form)
    dl = dL[0] * dL[1]
    Li = [[L[1, 1] / dl, -L[0, 1] / dl], [-L[0, 1] / dl, L[0, 0] / dl]]
    LiA = np.array([[Li[a][b] for b in range(2)] for a in range(2)], dtype=object)
    eye = np.array([[tm.ONE, tm.ZERO], [tm.ZERO, tm.ONE]], dtype=object)
    hooks = linear_algebra_hooks([(Cm, LU), (L, LUl)], [(Cm, M, X), (Cm, rr, y), (Cm, F, y + X @ mu), (L, eye, LiA)])
    hooks.update(mom.hooks())

    def ens(r):
        rest, logs = split_logs(r[0][()])
        B = lambda u, v: R("<%s,%s>" % tuple(sorted((u, v))))
        nm = "sb"
        G = [[Li[a][b] + B(nm[a], nm[b]) for b in range(2)] for a in range(2)]
        joint = B("r", "r") - 2 * (d[0] * B("r", "s") + d[1] * B("r", "b"))
        for a in range(2):
            for b in range(2): joint = joint + d[a] * d[b] * G[a][b]
        bb = [B("r", "s"), B("r", "b")]
        dA = G[0][0] * G[1][1] - G[0][1] * G[1][0]
        p = [(G[1][1] * bb[0] - G[0][1] * bb[1]) / dA, (G[0][0] * bb[1] - G[1][0] * bb[0]) / dA]
        u = [d[a] - p[a] for a in range(2)]
        quad = const(0)
        for a in range(2):
            for b in range(2): quad = quad + u[a] * u[b] * G[a][b]
        P = log_product(logs, 4)
        ld = mom.sum(tm.log(tm.abs_(dc[0])))          # log|det C| from its pivots
        return [Goal("completed_square", 2 * (rest - ld / 2) + quad, joint), Goal("log_determinants", P if P is not None else R("bad"), (dl * dA) ** 2)]
    return Contract("dense", lambda *v: m.nll_ulens_general(*v), [F, M, Cm, mu, L], ens, hooks=hooks, functions=["likelihood.nll_ulens_general"],
                    trusted=["LU factorisation and linear solver of jax.numpy.linalg: factors and solution of a regular system, pivoting included"],
                    min_goals=2, refute=False, falsify=lambda s, k: real_check("dense", s, k), note="any number of points")


def length_independent():
    import jax, jax.numpy as jnp
    m = lk()
    v = lambda *s: jax.ShapeDtypeStruct(s, jnp.float64)

    def run(seed, thorough):
        out = []
        for nm, fn, av in (("diagonal", m.nll_ulens, lambda n: [v(n), v(n, 2), v(n), v(), v()]), ("dense", m.nll_ulens_general, lambda n: [v(n), v(n, 2), v(n, n), v(2), v(2, 2)])):
            bad = same_program(lambda n: (lambda *a: fn(*a), av(n)), SIZES)
            f = real_check("diag" if nm == "diagonal" else nm, seed, 24 if not bad else 200, (tuple(bad) if bad else ()) + (1, 2, 3, 4, 5, 6, 7, 8, 10, 20, 30, 64, 100, 128, 200, 500, 1000))
            if f: out.append({"name": "length_independent/" + nm, "status": "refuted", "backend": "execution", "reason": "", "replay": f})
            else: out.append({"name": "length_independent/" + nm, "status": "proved" if not bad else "bounded-ok", "backend": "jaxpr-comparison", "reason": "lengths %s" % bad if bad else ""})
        return out
    return Custom("length_independent", run, functions=["likelihood.nll_ulens", "likelihood.nll_ulens_general"])


def contracts():
    d = {"diagonal": diagonal, "length_independent": length_independent}
    for N in (1, 2, 3): d["diag_%d" % N] = diag_sized(N)
    d["dense"] = dense_any
    for N in (1, 2): d["dense_%d" % N] = dense(N)
    d["end_to_end_diagonal"] = bounded_oracle("end_to_end_diagonal", lambda s, k: real_check("diag", s, k), 24, ["likelihood.nll_ulens"], "random data sets of 1..200 points")
    d["end_to_end_dense"] = bounded_oracle("end_to_end_dense", lambda s, k: real_check("dense", s, k), 18, ["likelihood.nll_ulens_general"], "random data sets of 1..200 points")
    return d
