"""Q34: Takahashi-Takami M/H2/n(/r) solver against the exact Markov chain."""
import math
import numpy as np
from mq.core import sut
from mq.fam import logu, gamma_moments
from mq.orc import add_moments, birth_death
from mq.qbd import mh2n, h2_fit

PROPERTY = "Q34"
ROUND = True
RULE = "distinct (n, buffer, load bucket, variation bucket, time unit) parameter sets whose law was compared with the exact chain"
NEED = {"infinite": 25, "finite": 25, "mmn": 10}


def service(rng, cv=None):
    """Moments of a service law and the H2 fit: Gamma law, or a three-moment law off the Gamma line."""
    b1 = logu(rng, .01, 100)
    cv = cv or float(rng.choice([rng.uniform(.4, .9), rng.uniform(1.1, 2.5)]))
    b = gamma_moments(b1, cv, 4)
    if rng.random() < .3:
        y = float(rng.uniform(.1, .9)); m1 = logu(rng, .1, 10) / b1; m2 = logu(rng, .1, 10) / b1
        b = [math.factorial(k) * (y / m1 ** k + (1 - y) / m2 ** k) for k in range(1, 5)]
    elif rng.random() < .3:
        k = int(rng.integers(2, 6)); lam = k / b1
        b = [math.prod(range(k, k + j)) / lam ** j for j in range(1, 5)]
    cv = math.sqrt(b[1] / b[0] ** 2 - 1)
    return b, cv


def fit_ok(b):
    """Away from the laws whose H2 fit is degenerate (exponential, Erlang-2): those the package perturbs."""
    if abs(math.sqrt(b[1] / b[0] ** 2 - 1) - 1) < .08:
        return False
    y, m1, m2 = h2_fit(b)
    return abs(1 / m1 - 1 / m2) > .15 * b[0]


def setup(t, nmax=6):
    rng = t.rng
    while True:
        b, cv = service(rng)
        if fit_ok(b) and cv < 2.7:
            break
    return b, cv, int(rng.integers(1, nmax + 1)) if rng.random() < .9 else int(rng.integers(nmax + 1, 13))


def levels(n, ro, cv):
    """Enough levels for the tail beyond to be negligible."""
    return n + int(24 / ((1 - ro) * 2 / (1 + max(cv, 1) ** 2))) + 10


def solve(t, n, l, b, **kw):
    """Run the solver to its fixed point: each run() continues the iteration where the last one stopped."""
    from most_queue.theory.mgn_tt import MGnCalc
    acc = float(t.rng.choice([1e-6, 1e-8]))
    m = MGnCalc(n, l, b, accuracy=acc, **kw)
    prev = None
    for i in range(60):
        m.run()
        p = np.array([complex(x) for x in m.get_p()])
        t.require("real", np.max(abs(p.imag)) < 1e-7, "complex probability")
        p = p.real
        if prev is None:
            first = (p, m.get_w()[0], m.get_v()[0])
        elif np.max(abs(p - prev)) < 1e-13:
            break
        prev = p
    t.count("runs", i + 1)
    return m, p, first


def single(t, first, x, w1, b1):
    """The first run, stopped by the default rule, is within its loose accuracy."""
    p, w, v = first
    t.closev("single-p", p[:len(x)], x[:len(p)], rtol=1e-3, atol=1e-4, msg="state probability after one run")
    t.close("single-w", w, w1, rtol=5e-3, atol=1e-3 * b1, msg="mean wait after one run")
    t.close("single-v", v, w1 + b1, rtol=3e-3, msg="mean sojourn after one run")


def infinite(t):
    b, cv, n = setup(t)
    rng = t.rng
    while True:
        ro = float(rng.choice([rng.uniform(.1, .6), rng.uniform(.5, .92)])) if rng.random() < .9 else logu(rng, 1e-3, .1)
        N = levels(n, ro, cv)
        if N <= (400 if t.thorough else 170):
            break
    l = ro * n / b[0]
    t.params(n=n, l=l, b=b[:3], cv=cv, ro=ro, N=N)
    t.sig(n, round(ro, 1), round(cv, 1), round(math.log10(b[0])))
    y1, m1, m2 = h2_fit(b)
    ch = mh2n(n, l, (y1, 1 - y1), (m1, m2), N + 60)
    x = ch.p
    kept = list(b)
    with sut(t, "mgn"):
        # the default size is enough for small loads
        m, p, first = solve(t, n, l, b, **({} if N < 110 and t.idx % 2 else dict(N=N)))
        t.require("arguments", b == kept, "service moments changed")
        N = len(p)
        single(t, first, x, ch.waits(l, lambda k, s: max(k - n, 0))[0], b[0])
        t.closev("p", p, x[:N], rtol=1e-5, atol=1e-8, msg="state probability")
        t.close("sum", p.sum(), 1, rtol=1e-9, msg="sum of probabilities")
        w = ch.waits(l, lambda k, s: max(k - n, 0))
        t.closev("wait", m.get_w(), w, rtol=2e-4, atol=1e-7 * b[0], msg="wait moments")
        v = add_moments(w, b[:3])
        t.closev("sojourn", m.get_v(), v, rtol=2e-4, msg="sojourn moments")
        t.close("little", m.get_v()[0] * l, sum(k * q for k, q in enumerate(p)), rtol=1e-5, msg="Little's law")
        w2 = m.get_w()
        t.closev("getters", m.get_w(), w2, rtol=0, atol=0, msg="second call of get_w")
        t.closev("getters", m.get_p(), p, rtol=0, atol=0, msg="second call of get_p")
    t.count("infinite")
    t.sample(p=p[:4] if not t.fails else None, w=w)


def finite(t):
    b, cv, n = setup(t)
    rng = t.rng
    r = 0 if t.idx % 6 == 0 else int(rng.choice([rng.integers(1, 6), rng.integers(6, 40)]))
    if t.idx % 15 == 4:
        r = int(rng.integers(146, 160))
        n = min(n, 2)
    ro = 1.0 if t.idx % 9 == 2 else float(rng.uniform(.1, 1.6)) if rng.random() < .85 else float(rng.choice([logu(rng, 1e-3, .1), logu(rng, 1.6, 2.5)]))
    if r > 100:
        ro = min(ro, .6)
    l = ro * n / b[0]
    t.params(n=n, l=l, b=b[:3], cv=cv, ro=ro, buffer=r)
    t.sig(n, r, round(ro, 1), round(cv, 1), round(math.log10(b[0])))
    y1, m1, m2 = h2_fit(b)
    ch = mh2n(n, l, (y1, 1 - y1), (m1, m2), n + r + 1)
    x = ch.p
    with sut(t, "mgn"):
        m, p, first = solve(t, n, l, b, buffer=r)
        p = np.concatenate([p, np.zeros(max(0, n + r + 1 - len(p)))])
        t.closev("p", p[:n + r + 1], x, rtol=1e-5, atol=1e-8, msg="state probability with buffer")
        t.close("sum", p.sum(), 1, rtol=1e-9, msg="sum of probabilities")
        t.require("cut", all(abs(q) < 1e-12 for q in p[n + r + 1:]), "states beyond the buffer")
        acc = l * (1 - x[n + r])
        q = sum(max(k - n, 0) * z for k, z in enumerate(x))
        single(t, first, x, q / acc, b[0])
        t.close("wait", m.get_w()[0], q / acc, rtol=1e-4, atol=1e-8 * b[0], msg="mean wait of accepted jobs")
        t.close("sojourn", m.get_v()[0], q / acc + b[0], rtol=1e-4, msg="mean sojourn of accepted jobs")
        t.close("little", m.get_v()[0] * acc, sum(k * z for k, z in enumerate(p)), rtol=1e-4, msg="Little's law")
    t.count("finite")
    t.sample(p=p[:4] if not t.fails else None)


def mmn(t):
    """Exponential and Erlang-2 service: the fitted phases coincide there and are moved apart, which costs well below a per cent."""
    rng = t.rng
    n, b1 = int(rng.integers(1, 7)), logu(rng, .01, 100)
    ro = float(rng.uniform(.1, .8)) if rng.random() < .9 else logu(rng, 5e-3, .1)
    l = ro * n / b1
    expo = t.idx % 2 == 0
    sp = 1.0 if expo else math.sqrt(.5)
    b = gamma_moments(b1, sp, 4)
    if t.idx % 4 < 2:
        b = b[:3]
    t.params(n=n, l=l, b=b, ro=ro)
    t.sig("mmn" if expo else "me2n", n, round(ro, 1))
    if expo:
        x = birth_death(lambda i: l, lambda i: min(i, n) / b1, 300)
        w = [sum(math.perm(max(k - n, 0), j) * z for k, z in enumerate(x)) / l ** j for j in (1, 2, 3)]
    else:
        # the exact law is smooth in the variation: mean of the two sides
        two = []
        for d in (-3e-3, 3e-3):
            y1, m1, m2 = h2_fit(gamma_moments(b1, sp + d, 3))
            two.append(mh2n(n, l, (y1, 1 - y1), (m1, m2), 250))
        x = (two[0].p + two[1].p) / 2
        w = [sum(v) / 2 for v in zip(*(c.waits(l, lambda k, s: max(k - n, 0)) for c in two))]
    with sut(t, "mmn"):
        m, p, first = solve(t, n, l, b)
        t.closev("mmn-p", p[:40], x[:40], rtol=.01, atol=1e-3, msg="state probability")
        for k in range(3):
            t.close("mmn-wait", m.get_w()[k], w[k], rtol=.015, atol=1e-5 * b1 ** (k + 1), msg=f"wait moment {k + 1}")
        t.close("mmn-wait", m.get_w()[0], w[0], rtol=.005, atol=1e-5 * b1, msg="mean wait")
        t.close("sum", p.sum(), 1, rtol=1e-9)
    t.count("mmn")
    t.sample(w=w)


GROUPS = {"infinite": (infinite, 225, 3375), "finite": (finite, 300, 4500), "mmn": (mmn, 60, 900)}
