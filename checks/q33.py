"""Q33: M/D/n and Ek/D/n against the chain observed every service time (phases for Erlang arrivals)."""
import math
import numpy as np
from scipy import stats
from mq.core import sut
from mq.fam import logu
from mq.orc import stationary

PROPERTY = "Q33"
ROUND = True
RULE = "distinct (n, k, load bucket, time unit, size) parameter sets whose law was compared with the exact chain"
NEED = {"mdn": 60, "ekdn": 60}


def exact(phase_rate_b, k, n, K):
    """Stationary law of jobs*k + phase when observed every b: serve min(jobs, n) jobs, add Poisson phases."""
    size = (K + 1) * k
    q = stats.poisson.pmf(np.arange(size), phase_rate_b)
    P = np.zeros((size, size))
    for s in range(size):
        j, f = divmod(s, k)
        left = max(j - n, 0) * k + f
        P[s, left:] = q[:size - left]
        P[s, -1] += 1 - P[s].sum()
    return stationary(P)


def domain(t, kmax):
    rng = t.rng
    n, k = int(rng.integers(1, 8)), int(rng.integers(1, kmax + 1))
    if rng.random() < .1:
        n = int(rng.integers(8, 61)) if kmax == 1 else int(rng.integers(8, 25))
    while n * k > 24 and k > 1:
        k -= 1
    ro = float(rng.choice([rng.uniform(.1, .95), rng.uniform(.1, .6)])) if rng.random() < .9 else logu(rng, 2e-3, .1)
    b = logu(rng, 1e-2, 1e2)
    l = ro * n * k / b
    return n, k, ro, b, l


def check(t, p, exact_p, num):
    t.require("count", len(p) == num, f"{len(p)} probabilities instead of {num}")
    top = min(num, len(exact_p))
    t.closev("p", p[:top], exact_p[:top], rtol=1e-4, atol=3e-8, msg="state probability")
    t.require("non-negative", min(p) >= -1e-9, f"negative probability {min(p)}")
    t.require("sum", sum(p) <= 1 + 1e-6, f"probabilities sum to {sum(p)}")


def mdn(t):
    from most_queue.theory.m_d_n_calc import M_D_n
    n, k, ro, b, l = domain(t, 1)
    ro = min(ro, .93)
    l = ro * n / b
    num = int(t.rng.choice([100, 60, 200])) if t.rng.random() < .9 else n + int(t.rng.integers(1, 20))
    t.params(n=n, l=l, b=b, ro=ro, p_num=num)
    t.sig("mdn", n, round(ro, 1), round(math.log10(b)))
    K = 300 if ro > .8 else 120
    x = exact(l * b, 1, n, K)
    with sut(t, "mdn"):
        m = M_D_n(l, b, n) if num == 100 else M_D_n(l, b, n, p_num=num)
        p = list(m.calc_p())
        check(t, p, list(x), num)
        if sum(x[:num]) > 1 - 1e-9:
            t.close("sum", sum(p), 1, rtol=1e-6)
            t.close("busy", sum(min(i, n) * q for i, q in enumerate(p)), l * b, rtol=1e-6, msg="mean number of busy channels")
            t.close("mean", sum(i * q for i, q in enumerate(p)), sum(i * q for i, q in enumerate(x)), rtol=1e-5)
    t.count("mdn")
    t.sample(p=p[:4] if not t.fails else None)


def ekdn(t):
    from most_queue.theory.ek_d_n_calc import Ek_D_n
    from most_queue.theory.m_d_n_calc import M_D_n
    n, k, ro, b, l = domain(t, 6 if t.rng.random() < .9 else 14)
    if t.idx % 5 == 0:
        k = 1; l = ro * n / b
    ro = min(ro, .92); l = ro * n * k / b
    num = int(t.rng.choice([100, 200]))
    if n * k > num // 2:
        num = 200
    if t.rng.random() < .1:
        num = n + int(t.rng.integers(1, 20))
    t.params(n=n, k=k, l=l, b=b, ro=ro, p_num=num)
    t.sig("ekdn", n, k, round(ro, 1), round(math.log10(b)))
    if k == 1 and ro > .8:
        K = 250
    else:
        K = min(250, int(700 / k))
    x = exact(l * b, k, n, K).reshape(-1, k).sum(axis=1)
    with sut(t, "ekdn"):
        m = Ek_D_n(l, k, b, n) if num == 100 else Ek_D_n(l, k, b, n, p_num=num)
        p = list(m.calc_p())
        check(t, p, list(x), num)
        if sum(x[:num]) > 1 - 1e-9:
            t.close("sum", sum(p), 1, rtol=1e-6)
            t.close("busy", sum(min(i, n) * q for i, q in enumerate(p)), l * b / k, rtol=1e-6, msg="mean number of busy channels")
        if k == 1:
            d = list(M_D_n(l, b, n, p_num=num).calc_p())
            t.closev("E1", p[:num // 2], d[:num // 2], rtol=1e-5, atol=3e-8, msg="E1/D/n equals M/D/n")
    t.count("ekdn")
    t.sample(p=p[:4] if not t.fails else None)


GROUPS = {"mdn": (mdn, 160, 2400), "ekdn": (ekdn, 160, 2400)}
