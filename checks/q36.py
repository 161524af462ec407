"""Q36: batch-arrival M/M/1, Engset and M/M/1 with impatience against their exact chains."""
import math
import numpy as np
from mq.core import sut
from mq.fam import logu
from mq.orc import birth_death, rising, add_moments

PROPERTY = "Q36"
ROUND = True
RULE = "distinct (model, size, load bucket, time unit) parameter sets whose outputs were all compared with the chain"
NEED = {"batch": 60, "engset": 60, "impatience": 60, "ws": 60}


def batch_law(l, mu, g, num):
    """Stationary law of M^[X]/M/1 by cuts between i-1 and i: mu p_i = l sum_{j<i} p_j P(X >= i-j)."""
    G = np.concatenate([np.cumsum(g[::-1])[::-1], np.zeros(1)])     # G[k] = P(X >= k+1)
    p = [1 - l * sum((i + 1) * q for i, q in enumerate(g)) / mu]
    for i in range(1, num):
        p.append(l / mu * sum(p[j] * G[i - j - 1] for j in range(max(0, i - len(g)), i)))
    return np.array(p)


def batch(t):
    from most_queue.theory.batch_mm1 import BatchMM1
    rng = t.rng
    k = int(rng.integers(1, 9)) if rng.random() < .9 else int(rng.integers(9, 40))
    g = rng.dirichlet(np.ones(k) * float(rng.choice([.3, 1, 5])))
    if t.idx % 5 == 0 or not np.all(np.isfinite(g)):
        g = np.eye(k)[-1]
    elif t.idx % 5 == 1:
        g[int(rng.integers(k))] = 0
        g = g / g.sum() if g.sum() > 1e-6 else np.eye(k)[-1]
    g = [float(x) for x in g]
    mean, m2 = sum((i + 1) * q for i, q in enumerate(g)), sum((i + 1) ** 2 * q for i, q in enumerate(g))
    ro = float(rng.choice([rng.uniform(.02, .9), rng.uniform(.9, .97)])) if rng.random() < .9 else logu(rng, 1e-4, .02)
    mu = logu(rng, .01, 100)
    l = ro * mu / mean
    t.params(l=l, mu=mu, probs=g, ro=ro)
    t.sig("batch", k, round(ro, 1), round(math.log10(mu)), round(mean))
    kept = list(g)
    with sut(t, "batch"):
        m = BatchMM1(l, mu, g)
        p = m.get_p()
        x = batch_law(l, mu, g, len(p))
        t.closev("p", p, x, rtol=1e-7, atol=1e-12, msg="state probability")
        t.require("non-negative", min(p) >= 0, "negative probability")
        t.close("sum", sum(p), 1, rtol=1e-6, msg="sum of probabilities")
        N = (m2 + mean) * l / mu / 2 / (1 - ro)
        t.close("N", m.get_N(), N, rtol=1e-9, msg="mean number in system")
        t.close("N-sum", m.get_N(), sum(i * q for i, q in enumerate(p)), rtol=1e-5, msg="mean number against get_p")
        t.close("Q", m.get_Q(), N - ro, rtol=1e-8, atol=1e-12, msg="mean queue")
        t.close("w1", m.get_w1(), (N - ro) / (l * mean), rtol=1e-8, atol=1e-12 / mu, msg="mean wait")
        t.close("v1", m.get_v1(), N / (l * mean), rtol=1e-9, msg="mean sojourn")
        t.close("mean-batch", m.calc_l(), mean, rtol=1e-12, msg="mean batch")
        t.require("argument", g == kept, "batch probabilities changed")
        if len(p) > 20:                                   # limits on the list
            t.closev("p_num", BatchMM1(l, mu, g, p_num=10).get_p(), p[:10], rtol=1e-9, msg="p_num=10 does not give the first ten")
        if k == 1:
            t.closev("mm1", p, [(1 - ro) * ro ** i for i in range(len(p))], rtol=1e-7, atol=1e-12, msg="M/M/1")
    t.count("batch")
    t.sample(N=N)


def engset(t):
    from most_queue.theory.engset_model import Engset
    rng = t.rng
    m = 1 if t.idx % 7 == 0 else int(rng.choice([rng.integers(1, 12), rng.integers(12, 61), rng.integers(61, 400)]))
    mu = logu(rng, .01, 100)
    l = mu * (logu(rng, 1e-2, 10) if rng.random() < .85 else logu(rng, 1e-4, 1e3)) / float(rng.choice([1, m]))
    t.params(l=l, mu=mu, m=m)
    t.sig("engset", m, round(math.log10(l / mu)), round(math.log10(mu)))
    p = birth_death(lambda i: (m - i) * l, lambda i: mu, m)
    N = sum(i * x for i, x in enumerate(p))
    lamD = l * (m - N)
    # a source that submits sees the queue of the others
    lamD = l * sum((m - i) * x for i, x in enumerate(p))
    seen = np.array([(m - i) * p[i] for i in range(m)])
    seen /= seen.sum()
    w = [sum(seen[i] * rising(i, k) for i in range(1, m)) / mu ** k for k in (1, 2, 3)]
    v = add_moments(w, [math.factorial(k) / mu ** k for k in (1, 2, 3)])
    with sut(t, "engset"):
        e = Engset(l, mu, m)
        got = e.get_p()
        t.require("count", len(got) == m + 1, f"{len(got)} states instead of {m + 1}")
        t.closev("p", got, p, rtol=1e-9, atol=1e-14)
        t.close("sum", sum(got), 1, rtol=1e-9)
        t.close("N", e.get_N(), N, rtol=1e-9, msg="mean number")
        Q = sum((i - 1) * p[i] for i in range(1, m + 1))
        t.close("Q", e.get_Q(), Q, rtol=1e-9, atol=1e-12 * m, msg="mean queue")
        t.close("kg", e.get_kg(), lamD / l / m, rtol=1e-8 / (1 - N / m + 1e-12) ** .5, msg="readiness")
        acc = 1e-12 * m / (m - N)
        t.close("lamD", e.get_lamD(), lamD, rtol=1e-9 + acc, msg="effective intensity")
        t.close("w1", e.get_w1(), w[0], rtol=1e-8 + acc, atol=1e-11 * m / mu, msg="mean wait")
        t.close("v1", e.get_v1(), v[0], rtol=1e-8 + acc, msg="mean sojourn")
        t.closev("w", e.get_w(), w, rtol=1e-8 + acc, atol=1e-14 / mu, msg="wait moments")
        t.closev("v", e.get_v(), v, rtol=1e-8 + acc, msg="sojourn moments")
        for _ in range(4):
            s = mu * logu(rng, 1e-3, 1e2)
            t.close("ws", e.ws(s, got[0], e.get_N()), sum(seen[i] * (mu / (mu + s)) ** i for i in range(m)), rtol=1e-8 + acc, msg="transform of wait")
            t.count("ws")
    t.count("engset")
    t.sample(p=got[:4], w=w)


def impatience(t):
    from most_queue.theory import impatience_calc as M
    rng = t.rng
    mu = logu(rng, .01, 100)
    ro = float(rng.choice([rng.uniform(.05, 1), rng.uniform(1, 4), logu(rng, .01, 8)])) if rng.random() < .9 else logu(rng, 1e-4, 200)
    l = ro * mu
    g = mu * (logu(rng, .02, 20) if rng.random() < .85 else logu(rng, 2e-3 if ro < 3 else .05, 300))
    if t.idx % 6 == 0:
        j = int(rng.integers(1, 5)); g = mu * 2.0 ** int(rng.integers(-4, 3)); l = mu + j * g     # a repeated most probable state
    if t.idx % 6 == 1:
        l = mu
    K = 60
    while True:
        p = birth_death(lambda i: l, lambda i: mu + (i - 1) * g, K)
        if p[-1] < 1e-18:
            break
        K *= 2
    t.params(l=l, mu=mu, gamma=g)
    t.sig("imp", round(math.log(l / mu)), round(math.log(g / mu)), round(math.log10(mu)))
    N = sum(i * x for i, x in enumerate(p))
    Q = sum((i - 1) * x for i, x in enumerate(p) if i)
    with sut(t, "impatience"):
        got = M.get_p(l, mu, g)
        t.closev("p", list(got) + [0] * max(0, K - len(got)), p[:K], rtol=1e-8, atol=1e-11, msg="state probability")
        t.close("p0", M.get_p0(l, mu, g), p[0], rtol=1e-8)
        t.close("sum", sum(got), 1, rtol=1e-8, atol=0)
        t.close("N", M.get_N(l, mu, g), N, rtol=1e-7, msg="mean number")
        t.close("Q", M.get_Q(l, mu, g), Q, rtol=1e-7, atol=1e-10, msg="mean queue")
        t.close("w1", M.get_w1(l, mu, g), Q / l, rtol=1e-7, atol=1e-10 / l, msg="mean wait")
        t.close("v1", M.get_v1(l, mu, g), N / l, rtol=1e-7, msg="mean sojourn")
        # flow balance: arrivals = served + lost
        t.close("balance", mu * (1 - got[0]) + g * M.get_Q(l, mu, g), l, rtol=1e-7, msg="served + impatient rate")
        few = M.get_p(l, mu, g, max_num=3)
        t.closev("max_num", few, got[:len(few)], rtol=1e-12)
        t.require("max_num", len(few) <= 3, "max_num ignored")
    t.count("impatience")
    t.sample(N=N)


GROUPS = {"batch": (batch, 480, 12000), "engset": (engset, 480, 12000), "impatience": (impatience, 540, 13500)}
