"""Q37: single-server priority formulas against exact transforms (power series of the priority queue's transforms)."""
import math
import numpy as np
from mq.core import sut
from mq.fam import logu, gamma_moments, any_load, any_cv
from mq import ser
from mq.orc import add_moments
from mq.qbd import h2_fit, mh2n

PROPERTY = "Q37"
ROUND = True
RULE = "distinct (discipline, number of classes, load bucket, law shape) parameter sets whose moments were compared with the exact transforms"
NEED = {"np": 25, "pr": 25, "busy": 20, "metamorphic": 15, "plain": 15, "channels": 8}


def moments_of(rng, mean, k, wide=True):
    kind = rng.integers(0, 4)
    if kind == 0:
        return gamma_moments(mean, any_cv(rng, .3, 2.5, .05, 6) if wide else float(rng.uniform(.3, 2.5)), k)
    if kind == 1:
        return [mean ** i for i in range(1, k + 1)]
    if kind == 2:
        return [math.factorial(i) * mean ** i for i in range(1, k + 1)]
    # mixture of two exponentials
    p = float(rng.uniform(.1, .9))
    r = logu(rng, 1.5, 8)
    m1 = mean / (p + (1 - p) * r)
    return [math.factorial(i) * (p * m1 ** i + (1 - p) * (m1 * r) ** i) for i in range(1, k + 1)]


def system(t, k, nmax=5, nmin=1, romax=.95, wide=True):
    rng = t.rng
    n = int(rng.integers(nmin, nmax + 1)) if nmax < 5 or rng.random() < .9 else int(rng.integers(nmax + 1, 10))
    scale = logu(rng, .01, 100)
    ro = any_load(rng, .05, romax) if romax == .95 else float(rng.uniform(.05, romax))
    spread = 100 if wide and rng.random() < .15 else 5
    means = [scale * logu(rng, 1 / spread, spread) for _ in range(n)]
    same = rng.random() < .2
    if same:
        one = moments_of(rng, scale, k, wide)
        b = [list(one) for _ in range(n)]
    else:
        b = [moments_of(rng, m, k, wide) for m in means]
    few = 1e-4 if wide and rng.random() < .1 else .02
    share = rng.dirichlet(np.ones(n)) * (1 - few) + few / n
    l = [float(ro * s / x[0]) for s, x in zip(share, b)]
    t.params(l=l, b=b, ro=ro)
    return l, b, ro, scale


def queue(l, b, j, kind, K):
    """Series of the class-j wait before service starts, of its completion time, of its total wait and of the busy period."""
    B = [ser.ser(x, K + 1) for x in b]
    n = len(l)
    above = list(range(j))
    upto = above + [j]
    La, Lu = sum(l[i] for i in above), sum(l[i] for i in upto)
    Ba = ser.mix([l[i] for i in above], [B[i] for i in above]) if above else ser.ser([0] * (K + 1), K + 1)
    Bu = ser.mix([l[i] for i in upto], [B[i] for i in upto])
    P = ser.busy(La, Ba) if La else ser.ser([0] * (K + 1), K + 1)
    # work found: U(x) (1 - Lu Bu'(x)) = 1 - ro_u [- ro_lower + L_lower Bl'(x)]
    num = np.zeros(K + 1)
    num[0] = 1 - Lu * Bu[1]
    if kind == "NP":
        for i in range(j + 1, n):
            num[0] -= l[i] * B[i][1]
            num = num + l[i] * ser.shift(B[i])
    den = -Lu * ser.shift(Bu)
    den[0] += 1
    U = ser.div(num, den)
    th = ser.stretch(La, P)[:K + 1]
    W = ser.compose(U, th)
    C = ser.compose(B[j][:K + 1], th)
    x = La * P[:K + 1].copy()
    x[0] = 0
    inter = ser.compose(B[j][:K + 1], x)
    return W, C, ser.mul(W, inter), ser.busy(Lu, Bu)[:K + 1]


def shape(b):
    return tuple(round(math.sqrt(max(x[1] / x[0] ** 2 - 1, 0)), 1) for x in b)


def nonpre(t):
    from most_queue.theory import priority_calc as pc
    l, b, ro, scale = system(t, 4)
    t.sig("np", len(l), round(ro, 1), shape(b))
    with sut(t, "np"):
        w, v, w1 = pc.get_w_np(l, b), pc.get_v_np(l, b), pc.get_w1_np(l, b)
        for j in range(len(l)):
            W, *_ = queue(l, b, j, "NP", 3)
            want = ser.moments(W)
            t.closev("np-w", w[j], want, rtol=1e-6, atol=0, msg=f"non-preemptive wait of class {j}")
            t.closev("np-v", v[j], add_moments(want, b[j]), rtol=1e-6, atol=0, msg=f"non-preemptive sojourn of class {j}")
            t.close("np-w1", w1[j], want[0], rtol=1e-9, atol=0, msg=f"mean non-preemptive wait of class {j}")
    t.count("np", len(l))
    t.sample(w=w if not t.fails else None)


def preempt(t):
    from most_queue.theory import priority_calc as pc
    K = int(t.rng.choice([4, 5]))
    l, b, ro, scale = system(t, K)
    num = int(t.rng.choice([2, 3, 3]))
    bb = [x[:3] for x in b] if num == 2 and K == 5 else b
    t.params(num=num, given=K)
    t.sig("pr", len(l), round(ro, 1), shape(b), num)
    with sut(t, "pr"):
        r = pc.calc_pr1(l, bb, num=num)
        w1 = pc.get_w1_pr(l, bb)
        kl = pc.climov_w_pr_calc(l, bb)
        for j in range(len(l)):
            W, C, X, P = queue(l, b, j, "PR", 3)
            V = ser.mul(W, C)
            for key, s, k in (("w", W, num), ("v", V, num), ("h", C, num), ("w_with_pr", X, num), ("pnz", P, num)):
                t.closev("pr-" + key, r[key][j], ser.moments(s)[:k], rtol=1e-7, atol=0, msg=f"preemptive {key} of class {j}")
            t.close("pr-w1", w1[j], X[1], rtol=1e-9, atol=0, msg=f"mean preemptive wait of class {j}")
            t.closev("climov", kl[j], ser.moments(W)[:2], rtol=1e-7, atol=0, msg=f"Klimov wait of class {j}")
    t.count("pr", len(l))
    t.sample(w=r["w"] if not t.fails else None)


def busyp(t):
    from most_queue.theory import priority_calc as pc
    rng = t.rng
    k = int(rng.integers(2, 7))
    mean = logu(rng, .01, 100)
    b = moments_of(rng, mean, k)
    ro = any_load(rng)
    l = ro / mean
    f = moments_of(rng, mean * logu(rng, .1, 10), k)
    num = int(rng.integers(1, 6))
    t.params(l=l, b=b, f=f, num=num)
    t.sig("busy", k, num, round(ro, 1))
    with sut(t, "busy"):
        p = pc.ppnz_calc(l, b, num)
        n = min(num, k)
        P = ser.busy(l, ser.ser(b, k))
        want = ser.moments(P)
        t.require("len", len(p) == n, f"{len(p)} busy-period moments instead of {n}")
        t.closev("busy", p, want[:n], rtol=1e-8, atol=0, msg="busy period moment")
        d = pc.ppnz_calc_warm_up(l, f, want, num)
        D = ser.compose(ser.ser(f, k), ser.stretch(l, P))
        t.require("len", len(d) == n, f"{len(d)} delay busy-period moments instead of {n}")
        t.closev("delay-busy", d, ser.moments(D)[:n], rtol=1e-8, atol=0, msg="busy period with initial delay, moment")
    t.count("busy")


def metamorphic(t):
    """Conservation law, one class is M/G/1, higher classes do not see lower preemptible ones, equal split of a class."""
    from most_queue.theory import priority_calc as pc
    from most_queue.theory.mg1_calc import get_w
    rng = t.rng
    l, b, ro, scale = system(t, 4, nmin=2)
    n = len(l)
    t.sig("meta", n, round(ro, 1), shape(b))
    with sut(t, "metamorphic"):
        w = pc.get_w_np(l, b)
        w0 = sum(a * x[1] for a, x in zip(l, b)) / 2
        t.close("conservation", sum(a * x[0] * y[0] for a, x, y in zip(l, b, w)), ro * w0 / (1 - ro), rtol=1e-6, msg="conservation law of the waits")
        perm = list(rng.permutation(n))
        wp = pc.get_w_np([l[i] for i in perm], [b[i] for i in perm])
        t.close("conservation", sum(l[i] * b[i][0] * y[0] for i, y in zip(perm, wp)), ro * w0 / (1 - ro), rtol=1e-6,
                msg="conservation law of the waits after permuting the classes")
        j = int(rng.integers(n))
        one = get_w(l[j], b[j])
        t.closev("single", pc.get_w_np([l[j]], [b[j]])[0], one, rtol=1e-6, msg="one class, non-preemptive")
        r1 = pc.calc_pr1([l[j]], [b[j]])
        t.closev("single", r1["w"][0], one, rtol=1e-8, msg="one class, preemptive")
        # adding lower classes changes nothing above
        m = int(rng.integers(1, n))
        full, part = pc.calc_pr1(l, b), pc.calc_pr1(l[:m], b[:m])
        for key in ("v", "w", "h", "w_with_pr", "pnz"):
            for i in range(m):
                t.closev("isolation", full[key][i], part[key][i], rtol=1e-8, atol=0, msg=f"preemptive {key} of class {i} with lower classes present")
        # wait is nondecreasing in the class index for equal laws
        eq = pc.get_w1_np(l, [b[0]] * n) if sum(l) * b[0][0] < .98 else None
        if eq is not None:
            t.require("order", all(x <= y * (1 + 1e-12) for x, y in zip(eq, eq[1:])), "a higher class waits longer than a lower one of the same law")
    t.count("metamorphic")


def plain(t):
    """Classes without priorities: every class waits as in M/G/1 with the mixed law; sojourn adds the own service."""
    from most_queue.theory import priority_calc as pc
    l, b, ro, scale = system(t, 4, romax=.9)
    n = len(l)
    t.sig("plain", n, round(ro, 1), shape(b))
    L = sum(l)
    mixed = [sum(a * x[k] for a, x in zip(l, b)) / L for k in range(4)]
    W, *_ = queue([L], [mixed], 0, "NP", 3)
    want = ser.moments(W)
    with sut(t, "plain"):
        w, v = pc.get_w_mg1_bp(l, b), pc.get_v_mg1_bp(l, b)
        for j in range(n):
            t.closev("bp-w", w[j], want, rtol=1e-8, atol=0, msg=f"wait of class {j} without priorities")
            t.closev("bp-v", v[j], add_moments(want, b[j]), rtol=1e-8, atol=0, msg=f"sojourn of class {j} without priorities")
    t.count("plain")


def channels(t):
    """Several channels: exact for one channel; otherwise the invariant approximation with exact ingredients."""
    from most_queue.theory import priority_calc as pc
    rng = t.rng
    while True:
        l, b, ro, scale = system(t, 4, romax=.75, wide=False)
        n = int(rng.integers(1, 5)) if rng.random() < .85 else int(rng.integers(5, 9))
        L = sum(l)
        mixed = [sum(a * x[k] for a, x in zip(l, b)) / L for k in range(4)]
        cv = math.sqrt(max(mixed[1] / mixed[0] ** 2 - 1, 0))
        if not (.5 < cv < 1.8 and abs(cv - 1) > .08 and abs(cv - .5 ** .5) > .02):   # the fit replaces laws next to exponential and E2
            continue
        y, m1, m2 = h2_fit(mixed)
        if abs(1 / m1 - 1 / m2) > .15 * mixed[0] and min(m1.real, m2.real) > .15 / mixed[0] and abs(y - .5) < 3:
            break
    l = [x * n for x in l]
    L = sum(l)
    kind = str(rng.choice(["NP", "PR"]))
    t.params(l=l, b=b, n=n, type=kind)
    t.sig("channels", n, kind, round(ro, 1))
    ch = mh2n(n, L, (y, 1 - y), (m1, m2), 300)
    wait_n = ch.waits(L, lambda k, s: max(k - n, 0))
    b1 = [[x[k] / n ** (k + 1) for k in range(4)] for x in b]
    mixed1 = [mixed[k] / n ** (k + 1) for k in range(4)]
    wait_1 = L * mixed1[1] / (2 * (1 - ro))
    f = wait_n[0] / wait_1
    with sut(t, "channels"):
        w = pc.get_w_prty_invar(l, b, n, kind)
        v = pc.get_v_prty_invar(l, b, n, kind)
        nw, nv = pc.get_w_MxGn_no_pr(l, b, n), pc.get_v_MxGn_no_pr(l, b, n)
        for j in range(len(l)):
            W, C, X, P = queue(l, b1, j, kind, 3)
            want = [f * x for x in ser.moments(W if kind == "NP" else X)]
            t.closev("invar-w", w[j], want, rtol=5e-3, atol=0, msg=f"{kind} wait of class {j} in {n} channels")
            t.closev("invar-v", v[j], add_moments(want, b[j]), rtol=5e-3, atol=0, msg=f"{kind} sojourn of class {j} in {n} channels")
            t.closev("nopr-w", nw[j], wait_n, rtol=1e-2, atol=0, msg=f"wait of class {j} in {n} channels without priorities")
            t.closev("nopr-v", nv[j], add_moments(wait_n, b[j]), rtol=5e-3, atol=0, msg=f"sojourn of class {j} in {n} channels without priorities")
    t.count("channels")


GROUPS = {"np": (nonpre, 320, 4000), "pr": (preempt, 320, 4000), "busy": (busyp, 320, 4000), "meta": (metamorphic, 200, 2500),
          "plain": (plain, 200, 2500), "channels": (channels, 128, 1600)}
