"""Q43: passage times between Markov levels against the power series of the first-passage transform."""
import math
import numpy as np
from mq.core import sut
from mq.fam import logu, gamma_moments
from mq.qbd import mh2n, h2_fit

PROPERTY = "Q43"
ROUND = True
RULE = "distinct (chain kind, level sizes, load bucket, time-unit bucket, matrix type) chains whose passages were compared"
NEED = {"scalar": 20, "random": 40, "phase": 20, "complex": 8, "gaps": 60, "no_up": 5, "no_down": 5}

MAXIT = 3000   # levels above the repeating one: slower chains are skipped


def step(A, B, C, D, up):
    """Coefficients of the transform G(s) of one level from those of the level above: (D + s - C - A up(s)) G = B."""
    n = len(D)
    H = [np.diag(D) - C - A @ up[0]] + [-(A @ up[r]) for r in range(1, 4)]
    H[1] = H[1] + np.eye(n)
    lu = np.linalg.inv(H[0])
    G = [lu @ B]
    for r in range(1, 4):
        G.append(-lu @ sum(H[m] @ G[r - m] for m in range(1, r + 1)))
    return G


def oracle(A, B, C, D, flat):
    """M[l][r] = E[T^r; exit state] for going down from level l = 1..flat."""
    n = B[flat].shape[0]
    unit = max(abs(D[flat]))
    G = [np.zeros((n, n), complex) for _ in range(4)]
    for it in range(MAXIT):
        N = step(A[flat], B[flat], C[flat], D[flat], G)
        ch = max(np.max(abs(N[r] - G[r])) / max(np.max(abs(N[r])), 1e-300) for r in range(4))
        G = N
        if ch < 1e-14:
            break
    else:
        return 0, None
    out = {flat: G}
    slow = 1 / (1 - radius((C[flat] + A[flat] @ G[0]) / D[flat][:, None]))
    for lv in range(flat - 1, 0, -1):
        slow = max(slow, 1 / (1 - radius((C[lv] + A[lv] @ out[lv + 1][0]) / D[lv][:, None])))
        out[lv] = step(A[lv], B[lv], C[lv], D[lv], out[lv + 1])
    f = [1, -1, 2, -6]
    if not slow < MAXIT:
        return 0, None
    return max(it, slow), {lv: [g * f[r] for r, g in enumerate(x)] for lv, x in out.items()}


def radius(M):
    return max(abs(np.linalg.eigvals(M))) if M.size else 0


def gap(M, flat, a, b):
    """Moments of the passage from level a down to level b: product of the transforms of the single steps."""
    cur = None
    for lv in range(a, b, -1):
        m = M[min(lv, flat)]
        cur = m if cur is None else [sum(math.comb(r, i) * cur[i] @ m[r - i] for i in range(r + 1)) for r in range(4)]
    return cur


def judge(t, kind, A, B, C, D, flat, extra, dtype, is_clx, unit):
    from most_queue.theory.utils.passage_time import passage_time_calc
    try:
        it, M = oracle(A, B, C, D, flat)
    except np.linalg.LinAlgError:   # a closed class that never goes down
        it, M = 0, None
    if M is None or any(abs(M[lv][0].sum(axis=1) - 1).max() > 1e-9 for lv in M):
        t.count("skipped")
        return
    big = max(abs(m[0]).max() for m in M.values())
    cast = [[np.array(x, dtype=dtype) for x in Y] for Y in (A, B, C, [np.diag(d) for d in D])]
    tol = 2e-3 if dtype == "complex64" else max(2e-5, 1e-6 * it)   # slowly settling chains stop further from the limit
    # the steps have to be well conditioned for the tolerance to mean anything
    if big > 3:
        t.count("skipped")
        return
    before = [[x.copy() for x in Y] for Y in cast]
    kw = {} if extra == 0 else dict(l_tilda=flat)
    with sut(t, "exception"):
        p = passage_time_calc(*cast, is_clx=is_clx, **kw)
        p.calc()
        t.require("args", all(np.array_equal(x, y) for X, Y in zip(before, cast) for x, y in zip(X, Y)), "the calculator changed its arguments")
        G, Gr, Z = p.G, p.Gr, p.Z
        for lv in range(1, flat + 1):
            compare(t, f"level {lv}", G[lv], Gr[lv], Z[lv], M[lv], tol)
        for _ in range(3):
            b = int(t.rng.integers(0, flat + 1))
            a = b + int(t.rng.integers(1, 5))
            t.count("gaps")
            compare(t, f"gap {a}->{b}", p.G_gap_calc(a, b), p.Gr_gap_calc(a, b), p.Z_gap_calc(a, b), gap(M, flat, a, b), tol)
    t.count(kind)
    t.sig(kind, tuple(len(d) for d in D), unit, dtype, is_clx)
    t.sample(kind=kind, sizes=[len(d) for d in D], first=float(abs(M[1][1]).max()))


def compare(t, where, G, Gr, Z, M, tol):
    G = np.asarray(G)
    if not t.require("shape", G.shape == M[0].shape, f"{where}: shape {G.shape}, expected {M[0].shape}"):
        return
    t.require("G", np.max(abs(G - M[0])) < tol, f"{where}: transition probabilities off by {np.max(abs(G - M[0])):.2e}", got=G, want=M[0])
    for r in range(1, 4):
        s = abs(M[r]).max()
        e = np.max(abs(np.asarray(Gr[r - 1]) - M[r])) / s
        if not t.require("Gr", e < tol, f"{where}: joint moment {r} off by {e:.2e} of the largest", got=Gr[r - 1], want=M[r]):
            return
        z = np.asarray(Z[r - 1])
        for i, j in np.argwhere(abs(M[0]) > 1e-3):
            w = M[r][i, j] / M[0][i, j]
            if not t.require("Z", abs(z[i, j] - w) < 30 * tol * s, f"{where}: conditional moment {r} from {i} to {j}: {z[i, j]}, expected {w}"):
                return
        for i, j in np.argwhere(abs(M[0]) < 1e-14):
            t.require("Z0", abs(z[i, j]) < 1e300 and z[i, j] == z[i, j], f"{where}: moment of an impossible passage is not a number")


def kinds(t):
    return t.rng.choice(["float64", "complex128"]), bool(t.rng.integers(0, 2))


def scalar(t):
    """M/M/n: one state on every level."""
    rng = t.rng
    n = int(rng.integers(1, 7))
    mu = logu(rng, 1e-4, 1e4)
    ro = float(rng.uniform(.05, .9))
    l = ro * n * mu
    extra = int(rng.integers(0, 3))
    K = n + 1 + extra
    A = [np.array([[l]])] * K
    B = [np.array([[0.0]])] + [np.array([[min(i, n) * mu]]) for i in range(1, K)]
    C = [np.zeros((1, 1))] * K
    D = [np.array([l + min(i, n) * mu]) for i in range(K)]
    dtype, clx = kinds(t)
    if rng.integers(0, 4) == 0 and 1e-2 < mu < 1e2:
        dtype, clx = "complex64", True
    clx = clx or dtype != "float64"
    t.params(kind="scalar", n=n, mu=mu, ro=ro, dtype=dtype, clx=clx, extra=extra)
    judge(t, "scalar", A, B, C, D, n, extra, dtype, clx, round(math.log10(mu)))


def phase(t):
    """M/H2/n, real and complex parameters."""
    rng = t.rng
    n = int(rng.integers(1, 4))
    b1 = logu(rng, 1e-3, 1e3)
    cv = float(rng.choice([rng.uniform(.6, .9), rng.uniform(1.1, 2.2)]))
    y, m1, m2 = h2_fit(gamma_moments(b1, cv, 4))
    ro = float(rng.uniform(.05, .85))
    extra = int(rng.integers(0, 3))
    K = n + 2 + extra
    ch = mh2n(n, ro * n / b1, (y, 1 - y), (m1, m2), K + 4)
    A, B, C, D = ([ch.blocks[k][i] for k in range(K)] for i in range(4))
    B[0] = np.zeros((1, 1))
    cplx = abs(complex(m1).imag) > 0
    if not cplx:
        A, B, C, D = ([np.asarray(x).real for x in Y] for Y in (A, B, C, D))
    dtype, clx = ("complex128", True) if cplx else kinds(t)
    clx = clx or dtype != "float64"
    t.params(kind="phase", n=n, b1=b1, cv=cv, ro=ro, dtype=dtype, clx=clx, extra=extra)
    judge(t, "complex" if cplx else "phase", A, B, C, D, n + 1, extra, dtype, clx, round(math.log10(b1)))


def rand_rates(rng, n, m, dens):
    X = rng.exponential(1, (n, m)) * (rng.random((n, m)) < dens)
    return np.array([[float(f"{v:.1e}") for v in r] for r in X]) if t_round(rng) else X


def t_round(rng):
    return type(rng).__name__ == "RoundRng"


def random_chain(t):
    """Any level chain: 1-4 states a level, states without ways up or down, unequal boundary levels."""
    rng = t.rng
    flat = int(rng.integers(1, 5))
    unit = logu(rng, 1e-4, 1e4)
    for _ in range(200):
        m = int(rng.integers(1, 5))
        sizes = [int(rng.integers(1, 5)) for _ in range(flat)] + [m] * 6
        sizes[flat - 1] = m if rng.integers(0, 2) or flat == 1 else sizes[flat - 1]
        dens = float(rng.choice([.4, .7, 1]))
        a, b, c = (rand_rates(rng, m, m, dens) for _ in range(3))
        np.fill_diagonal(c, 0)
        q = a + b + c
        Q = q - np.diag(q.sum(1))
        if m > 1 and np.sum(np.linalg.svd(Q)[1] > 1e-9) < m - 1:
            continue
        x = np.linalg.lstsq(np.vstack([Q.T, np.ones(m)]), np.r_[np.zeros(m), 1], rcond=None)[0]
        up, dn = x @ a.sum(1), x @ b.sum(1)
        if dn < 1e-6:
            continue
        if up > 1e-9:
            a = a * float(rng.uniform(.05, .8)) * dn / up
            q = a + b + c
            Q = q - np.diag(q.sum(1))
            x = np.linalg.lstsq(np.vstack([Q.T, np.ones(m)]), np.r_[np.zeros(m), 1], rcond=None)[0]
            if not x @ a.sum(1) < .85 * (x @ b.sum(1)):
                continue
        A, B, C = [], [], []
        for k in range(flat + 3):
            if k >= flat:
                A.append(a); C.append(c)
                B.append(b)
            else:
                A.append(rand_rates(rng, sizes[k], sizes[k + 1], dens))
                C.append(rand_rates(rng, sizes[k], sizes[k], dens))
                np.fill_diagonal(C[-1], 0)
                B.append(rand_rates(rng, sizes[k], sizes[k - 1], dens) if k else np.zeros((sizes[0], sizes[0])))
        if sizes[flat - 1] != m:
            continue
        D = [A[k].sum(1) + B[k].sum(1) + C[k].sum(1) for k in range(flat + 3)]
        if all(d.min() > 1e-3 for d in D):
            break
    else:
        t.count("skipped")
        return
    A, B, C, D = ([x * unit for x in Y] for Y in (A, B, C, D))
    extra = int(rng.integers(0, 3))
    K = flat + 1 + extra
    for k in range(1, flat + 1):
        t.count("no_up", int((A[k].sum(1) == 0).sum()))
        t.count("no_down", int((B[k].sum(1) == 0).sum()))
    dtype, clx = kinds(t)
    clx = clx or dtype != "float64"
    t.params(kind="random", sizes=sizes[:K], unit=unit, dtype=dtype, clx=clx, extra=extra)
    judge(t, "random", A[:K], B[:K], C[:K], D[:K], flat, extra, dtype, clx, round(math.log10(unit)))


GROUPS = {"scalar": (scalar, 200, 2000), "phase": (phase, 240, 2000), "random": (random_chain, 400, 5000)}
