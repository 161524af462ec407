"""Q39: network analysis against the traffic equations and exact node formulas."""
import math
import numpy as np
from mq.core import sut
from mq.fam import logu, gamma_moments
from mq import ser
from mq.orc import add_moments
from mq.qbd import h2_fit, mh2n
from checks.q37 import queue

PROPERTY = "Q39"
ROUND = True
RULE = "distinct (nodes, classes, channels, priorities, routing support) networks whose flows, loads, node and network sojourns were judged"
NEED = {"flows": 60, "networks": 15, "jackson": 8, "permuted": 6, "skipped_node": 5}


def routing(rng, m, skip=()):
    """Routing with feedback: source row 0, exit column m; nodes in skip get no inflow. Always leads out."""
    R = np.zeros((m + 1, m + 1))
    live = [i for i in range(m) if i not in skip]
    keep = float(rng.uniform(.3, 1))
    for r in range(m + 1):
        w = np.zeros(m + 1)
        for j in live:
            if rng.random() < keep:
                w[j] = rng.uniform(.05, 1)
        if r:
            w[m] = rng.uniform(.2, 1.5)
        elif not w.sum():
            w[live[int(rng.integers(len(live)))]] = 1
        R[r] = w / w.sum()
    return R


def flows(R, L):
    m = len(R) - 1
    return np.linalg.solve(np.eye(m) - R[1:, :m].T, L * R[0, :m])


def as_given(rng, R):
    return np.matrix(R) if rng.random() < .5 else R


def traffic(t):
    from most_queue.theory.network_calc import balance_equation
    rng = t.rng
    m = int(rng.integers(1, 9)) if rng.random() < .9 else int(rng.integers(9, 25))
    skip = [i for i in range(m) if rng.random() < .2]
    if len(skip) == m:
        skip = skip[1:]
    R = routing(rng, m, skip)
    L = logu(rng, .001, 1000)
    t.params(R=R, L=L)
    t.sig("flows", m, tuple((R > 0).ravel()))
    keep = R.copy()
    G = as_given(rng, R)
    with sut(t, "flows"):
        l = balance_equation(L, G)
        want = flows(keep, L)
        t.require("flows-len", len(l) == m, f"{len(l)} intensities for {m} nodes")
        t.closev("flows", l, want, rtol=1e-8, atol=1e-12 * L, msg="node intensity")
        out = sum(x * keep[i + 1, m] for i, x in enumerate(l))
        t.close("conservation", out, L * (1 - keep[0, m]), rtol=1e-8, msg="flow out of the network")
        t.require("arguments", np.array_equal(np.array(G), keep), "the routing matrix was changed")
    t.count("flows")
    t.count("skipped_node", bool(skip))


def node_sojourns(l, b, n, kind):
    """Exact sojourn moments by class rank (one channel), or the invariant approximation from exact ingredients."""
    b1 = [[x[k] / n ** (k + 1) for k in range(4)] for x in b]
    L = sum(l)
    if L == 0:
        return [x[:3] for x in b]
    f = 1.0
    if n > 1:
        mixed = [sum(a * x[k] for a, x in zip(l, b)) / L for k in range(4)]
        y, m1, m2 = h2_fit(mixed)
        ch = mh2n(n, L, (y, 1 - y), (m1, m2), 300)
        wn = ch.waits(L, lambda k, s: max(k - n, 0), 1)[0]
        f = wn / (sum(a * x[1] for a, x in zip(l, b1)) / 2 / (1 - sum(a * x[0] for a, x in zip(l, b1))))
    out = []
    for j in range(len(l)):
        W, C, X, P = queue(l, b1, j, kind, 3)
        out.append(add_moments([f * z for z in ser.moments(W if kind == "NP" else X)], b[j]))
    return out


def network_moments(R, v):
    """Moments of the total sojourn given independent node sojourns v[node]: series of P (I - N Q)^-1 N T."""
    m = len(R) - 1
    Q, T, P = R[1:, :m], R[1:, m], R[0, :m]
    N = [np.diag([x[k] if k >= 0 else 1.0 for x in ([1.0, z[0], z[1] / 2, z[2] / 6] for z in v)]) for k in range(4)]
    u = []
    for k in range(4):
        rhs = N[k] @ T + sum((N[i] @ Q @ u[k - i] for i in range(1, k + 1)), np.zeros(m))
        u.append(np.linalg.solve(np.eye(m) - N[0] @ Q, rhs))
    return [float(P @ u[k]) * math.factorial(k) for k in (1, 2, 3)]


def network(t, single=False):
    from most_queue.theory.network_calc import network_prty_calc
    rng = t.rng
    m = int(rng.integers(1, 5))
    K = 1 if single else int(rng.integers(1, 5))
    if rng.random() < .1:
        m, K = int(rng.integers(1, 9)), 1 if single else int(rng.integers(1, 8))
    scale = logu(rng, .01, 100)
    n = [int(rng.integers(1, 4)) if rng.random() < .9 else int(rng.integers(4, 15)) for _ in range(m)]
    prty = [str(rng.choice(["NP", "PR"])) for _ in range(m)]
    perm = [[int(x) for x in rng.permutation(K)] for _ in range(m)]
    skip = [[i for i in range(m) if rng.random() < .15] for _ in range(K)]
    skip = [s if len(s) < m else s[1:] for s in skip]
    R = [routing(rng, m, s) for s in skip]
    few = .2 if rng.random() < .85 else .005
    L0 = [logu(rng, few, 1) for _ in range(K)]
    lam = np.array([flows(r, x) for r, x in zip(R, L0)])
    b = [[None] * m for _ in range(K)]
    for i in range(m):
        tot = lam[:, i].sum()
        ro = float(rng.uniform(.1, .75)) if rng.random() < .9 else float(rng.uniform(.03, .1))
        mean = [logu(rng, .5, 2) for _ in range(K)]
        f = ro * n[i] / max(1e-9, sum(lam[k, i] * mean[k] for k in range(K))) if tot > 0 else 1.0
        cv = float(rng.uniform(1.2, 1.6))
        for k in range(K):
            mm = f * mean[k] * scale
            b[k][i] = [math.factorial(j) * mm ** j for j in (1, 2, 3, 4)] if single else gamma_moments(mm, cv, 4)
    L = [x / scale for x in L0]
    lam = lam / scale
    t.params(R=R, L=L, n=n, prty=prty, nodes_prty=perm, b=b)
    t.sig("network", m, K, tuple(n), tuple(prty), str(perm))
    given = [as_given(rng, r.copy()) for r in R]
    with sut(t, "network"):
        r = network_prty_calc(given, b, n, L, prty, perm)
        loads = [sum(lam[k, i] * b[k][i][0] for k in range(K)) / n[i] for i in range(m)]
        t.closev("loads", r["loads"], loads, rtol=1e-7, atol=1e-12, msg="node load")
        tol = 1e-2 if single else 5e-3
        v = [None] * m
        for i in range(m):
            order = sorted(range(K), key=lambda k: perm[i][k])
            if single:
                a, mu = lam[0, i], 1 / b[0][i][0]
                c = a / mu
                e = c ** n[i] / math.factorial(n[i]) / (1 - c / n[i])
                e = e / (sum(c ** j / math.factorial(j) for j in range(n[i])) + e)
                th = n[i] * mu - a
                v[i] = [add_moments([e / th, 2 * e / th ** 2, 6 * e / th ** 3], b[0][i])]
            else:
                by_rank = node_sojourns([lam[k, i] for k in order], [b[k][i] for k in order], n[i], prty[i])
                v[i] = [by_rank[perm[i][k]] for k in range(K)]
            for k in range(K):
                t.closev("node", r["v_node"][i][k], v[i][k], rtol=tol, msg=f"sojourn of class {k} in node {i} (rank {perm[i][k]})")
        for k in range(K):
            visits = flows(R[k], 1.0)
            own = [r["v_node"][i][k] for i in range(m)]
            t.close("sum", r["v"][k][0], sum(visits[i] * own[i][0] for i in range(m)), rtol=1e-6, msg=f"mean network sojourn of class {k} is the sum over its visits")
            t.closev("network", r["v"][k], network_moments(R[k], [v[i][k] for i in range(m)]), rtol=2 * tol, msg=f"network sojourn of class {k}")
        t.require("arguments", all(np.array_equal(np.array(g), x) for g, x in zip(given, R)), "a routing matrix was changed")
    t.count("jackson" if single else "networks")
    t.count("permuted", any(p != list(range(K)) for p in perm))
    t.count("skipped_node", any(skip))
    t.sample(v=r["v"] if not t.fails else None)


def jackson(t):
    """One exponential class: Jackson's means."""
    network(t, True)


GROUPS = {"flows": (traffic, 640, 8000), "network": (network, 200, 2500), "jackson": (jackson, 80, 1000)}
