"""Q30: M/M/n/r calculator against the birth-death chain."""
import math
import numpy as np
from mq.core import sut
from mq.fam import logu
from mq.orc import birth_death, rising, add_moments

PROPERTY = "Q30"
ROUND = True
RULE = "distinct (n, r, load bucket) parameter sets whose every output was compared with the chain"
NEED = {"cases": 150}


def mmnr(t):
    from most_queue.theory.mmnr_calc import MMnr_calc as M
    rng = t.rng
    n, r = int(rng.integers(1, 15)), int(rng.integers(0, 31))
    if rng.random() < .12:
        n, r = int(rng.integers(1, 100)), int(rng.integers(0, 161))
    if t.idx % 6 == 0:
        r = 0
    if t.idx % 7 == 0:
        n = 1
    mu = logu(rng, .01, 100)
    ro = float(rng.choice([1.0, rng.uniform(.02, .99), rng.uniform(1, 3), rng.uniform(.97, 1.03)])) if rng.random() < .93 else logu(rng, 1e-3, 12)
    l = ro * n * mu
    if ro == 1.0:
        mu = 2.0 ** int(rng.integers(-3, 4)); l = n * mu
    t.params(l=l, mu=mu, n=n, r=r)
    t.sig(n, r, round(ro, 1), round(math.log10(mu)))
    p = birth_death(lambda i: l, lambda i: min(i, n) * mu, n + r)
    with sut(t, "mmnr"):
        got = M.get_p(l, mu, n, r)
        t.require("count", len(got) == n + r + 1, f"{len(got)} states instead of {n + r + 1}")
        t.closev("p", got, p, rtol=1e-8, atol=1e-13)
        t.close("sum", sum(got), 1, rtol=1e-9)
        t.require("non-negative", min(got) >= 0, "negative probability")
        t.close("loss", M.getPI(l, mu, n, r), p[n + r], rtol=1e-8)
        t.close("queue", M.getQ(l, mu, n, r), sum((i - n) * p[i] for i in range(n, n + r + 1)), rtol=1e-8)
        qs = M.get_qs(l, mu, n, r)
        t.closev("queue-factorial", qs, [sum(math.perm(i - n, k) * p[i] for i in range(n, n + r + 1)) for k in (1, 2, 3)], rtol=1e-8, atol=1e-14)
        acc = 1 - p[n + r]
        w = [sum(p[n + i] * rising(i + 1, k) for i in range(r)) / acc / (n * mu) ** k for k in (1, 2, 3)]
        # p[n+r] close to one loses digits of acc
        tol = 1e-9 / acc
        t.closev("wait", M.get_w(l, mu, n, r), w, rtol=tol, atol=1e-14 / mu)
        num = int(rng.integers(1, 4))
        t.closev("wait-num", M.get_w(l, mu, n, r, num), w[:num], rtol=tol, atol=1e-14 / mu)
        t.require("wait-count", len(M.get_w(l, mu, n, r, num)) == num, "wrong number of wait moments")
        t.closev("sojourn", M.get_v(l, mu, n, r), add_moments(w, [math.factorial(k) / mu ** k for k in (1, 2, 3)]), rtol=tol)
        # Little over accepted jobs
        N = sum(i * q for i, q in enumerate(got))
        t.close("little", N, l * (1 - got[n + r]) * M.get_v(l, mu, n, r)[0], rtol=1e-7)
    t.count("cases")
    if not t.fails:
        t.sample(p=got[:5], w=w)


GROUPS = {"mmnr": (mmnr, 6400, 40000)}
