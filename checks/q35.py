"""Q35: solvers with warm-up, cooling and cooling delay against their exact chains."""
import math
import numpy as np
from mq.core import sut
from mq.fam import logu, gamma_moments
from mq.orc import add_moments
from mq.qbd import vacation, first_special, h2_fit, mh2n

PROPERTY = "Q35"
ROUND = True
RULE = "distinct (model, n, load bucket, phase-length buckets) parameter sets whose law was compared with the exact chain"
NEED = {"warm": 15, "first": 15, "cold": 15, "delay": 15, "small": 8, "room": 60}


def law(rng, mean, real=False):
    """Moments and H2 fit away from the degenerate (exponential, Erlang-2) fits."""
    while True:
        cv = float(rng.choice([rng.uniform(.55, .9), rng.uniform(1.1, 2.0)]))
        if real:
            cv = float(rng.uniform(1.1, 2.0))
        b = gamma_moments(mean, cv, 4)
        y, m1, m2 = h2_fit(b)
        if abs(cv - 1) > .08 and abs(1 / m1 - 1 / m2) > .15 * mean:
            return b, ((y, 1 - y), (m1, m2)), cv


def phase_mean(t, b1):
    return b1 * (logu(t.rng, .05, 5) if t.rng.random() < .9 else logu(t.rng, .01, .05))


def cut(build, n):
    """Number of levels beyond which only a negligible part of the third moment lies, and the chain."""
    K = 200
    while True:
        ch = build(K)
        m = np.arange(K) ** 3.0 * ch.p
        tail = np.cumsum(m[::-1])[::-1] / m.sum()
        if tail[K - 60] < 1e-8 or K > 1000:
            # the last level of the solver is closed by an approximation whose effect dies out only over some levels
            return max(int(np.argmax(tail < 1e-8)), n + 5) + 30, ch
        K *= 2


def setup(t, nmax):
    rng = t.rng
    n = int(rng.integers(1, nmax + 1)) if rng.random() < .93 else int(rng.integers(nmax + 1, nmax + 4))
    b1 = logu(rng, .05, 20)
    ro = float(rng.uniform(.1, .8)) if rng.random() < .9 else logu(rng, .02, .1)
    return n, b1, ro, ro * n / b1


def converge(t, m, key):
    prev = None
    for i in range(40):
        m.Y = []
        m.run()
        p = np.array([complex(x) for x in m.get_p()])
        t.require("real", np.max(abs(p.imag)) < 1e-6, "complex probability")
        p = p.real
        # with complex parameters further iterations lose accuracy again: stop at the first standstill
        if prev is not None and np.max(abs(p - prev)) < 1e-8:
            break
        prev = p
    return p


def judge(t, m, ch, n, l, b, key, waiting, phases, wtol=1e-3):
    p = converge(t, m, key)
    N = len(p)
    x = ch.p
    t.closev("p", p, x[:N], rtol=1e-4, atol=1e-6, msg=f"{key}: state probability")
    t.close("sum", p.sum(), 1, rtol=1e-9, msg="sum of probabilities")
    for name, f, got in phases:
        t.close(name, got(), ch.expect(f), rtol=1e-4, atol=1e-6, msg=f"{key}: {name}")
    w = ch.waits(l, waiting)
    gw = [complex(z).real for z in m.get_w()]
    t.close("w1", gw[0], w[0], rtol=wtol, atol=1e-5 * b[0], msg=f"{key}: mean wait")
    t.close("w2", gw[1], w[1], rtol=5 * wtol, atol=1e-4 * b[0] ** 2, msg=f"{key}: second wait moment")
    t.close("w3", gw[2], w[2], rtol=.05, atol=2e-2 * b[0] ** 3, msg=f"{key}: third wait moment")
    return p, w


def own_sojourn(t, m, v, b, key):
    """The sojourn of a job is its wait and an independent service: every moment."""
    gw = [complex(z).real for z in m.get_w()]
    t.closev("sojourn-of-wait", v[:3], add_moments(gw, b[:3])[:3], rtol=5e-3, msg=f"{key}: sojourn moments against the wait and the service")


def phase_prob(kind):
    return lambda k, s: 1.0 if isinstance(s, tuple) and s[0] == kind else 0.0


def not_served(n):
    """Jobs not in service: all of them outside the service states."""
    return lambda k, s: max(k - n, 0) if s[0] == "s" else k


def warm(t):
    from most_queue.theory.m_h2_h2warm import Mh2h2Warm
    n, b1, ro, l = setup(t, 4)
    b, S, cv = law(t.rng, b1)
    bw, W, cw = law(t.rng, phase_mean(t, b1))
    N, ch = cut(lambda K: vacation(n, l, S, K, warm=W), n)
    t.params(n=n, l=l, b=b[:3], b_warm=bw[:3], ro=ro, N=N)
    t.sig("warm", n, round(ro, 1), round(math.log2(bw[0] / b1)))
    with sut(t, "warm"):
        m = Mh2h2Warm(l, b, bw, n, N=N, accuracy=1e-8)
        p, w = judge(t, m, ch, n, l, b, "warm", not_served(n), [])
        v = [complex(z).real for z in m.get_v()]
        t.close("little", v[0] * l, sum(k * q for k, q in enumerate(ch.p)), rtol=1e-3, msg="warm: Little's law")
        t.closev("sojourn", v[:2], add_moments(w, b[:3])[:2], rtol=5e-3, msg="warm: sojourn moments")
        own_sojourn(t, m, v, b, "warm")
    t.count("warm")
    t.sample(w=w if not t.fails else None)


def first(t):
    from most_queue.theory.m_h2_h2warm import Mh2h2Warm
    n, b1, ro, l = setup(t, 4)
    b, S, cv = law(t.rng, b1)
    bw, W, cw = law(t.rng, phase_mean(t, b1))
    N, ch = cut(lambda K: first_special(n, l, S, W, K), n)
    t.params(n=n, l=l, b=b[:3], b_warm=bw[:3], ro=ro, N=N)
    t.sig("first", n, round(ro, 1), round(math.log2(bw[0] / b1)))
    with sut(t, "first"):
        m = Mh2h2Warm(l, b, bw, n, N=N, accuracy=1e-8, is_only_first=True)
        p, w = judge(t, m, ch, n, l, b, "first", lambda k, s: max(k - n, 0), [])
        v = [complex(z).real for z in m.get_v()]
        t.close("little", v[0] * l, sum(k * q for k, q in enumerate(ch.p)), rtol=1e-3, msg="first: Little's law")
        x = ch.p[0]
        want = [wk + add_moments(w, b[:3])[i] - wk - b[i] + (1 - x) * b[i] + x * bw[i] for i, wk in enumerate(w)]
        t.closev("sojourn", v, want, rtol=5e-3, msg="first: sojourn moments")
    t.count("first")
    t.sample(w=w if not t.fails else None)


def cold(t):
    from most_queue.theory.mmn_with_h2_cold_and_h2_warmup import MMn_H2warm_H2cold
    n, b1, ro, l = setup(t, 4)
    bw, W, cw = law(t.rng, phase_mean(t, b1))
    bc, C, cc = law(t.rng, phase_mean(t, b1))
    mu = 1 / b1
    b = [math.factorial(k) / mu ** k for k in (1, 2, 3)]
    N, ch = cut(lambda K: vacation(n, l, ((1, 0), (mu, mu)), K, warm=W, cold=C), n)
    t.params(n=n, l=l, mu=mu, b_warm=bw[:3], b_cold=bc[:3], ro=ro, N=N)
    t.sig("cold", n, round(ro, 1), round(math.log2(bw[0] / b1)), round(math.log2(bc[0] / b1)))
    with sut(t, "cold"):
        m = MMn_H2warm_H2cold(l, mu, bw, bc, n, N=N, accuracy=1e-8)
        p, w = judge(t, m, ch, n, l, b, "cold", not_served(n),
                     [("warm-probability", phase_prob("w"), m.get_warmup_prob), ("cold-probability", phase_prob("c"), m.get_cold_prob)])
        v = [complex(z).real for z in m.get_v()]
        t.close("little", v[0] * l, sum(k * q for k, q in enumerate(ch.p)), rtol=1e-3, msg="cold: Little's law")
        t.closev("sojourn", v[:2], add_moments(w, b)[:2], rtol=5e-3, msg="cold: sojourn moments")
        own_sojourn(t, m, v, b, "cold")
    t.count("cold")
    t.sample(w=w if not t.fails else None)


def delay(t):
    from most_queue.theory.mgn_with_h2_delay_cold_warm import MGnH2ServingColdWarmDelay
    n, b1, ro, l = setup(t, 4)
    b, S, cv = law(t.rng, b1)
    bw, W, cw = law(t.rng, phase_mean(t, b1))
    bc, C, cc = law(t.rng, phase_mean(t, b1))
    bd, D, cd = law(t.rng, phase_mean(t, b1))
    N, ch = cut(lambda K: vacation(n, l, S, K, warm=W, cold=C, delay=D), n)
    t.params(n=n, l=l, b=b[:3], b_warm=bw[:3], b_cold=bc[:3], b_delay=bd[:3], ro=ro, N=N)
    t.sig("delay", n, round(ro, 1), *(round(math.log2(z[0] / b1)) for z in (bw, bc, bd)))
    with sut(t, "delay"):
        # w_pls_dt is a step in units of 1 / b[0]
        m = MGnH2ServingColdWarmDelay(l, b, bw, bc, bd, n, N=N, accuracy=1e-8, w_pls_dt=3e-3 * b1 / (b1 + bw[0] + bc[0]))
        p, w = judge(t, m, ch, n, l, b, "delay", not_served(n),
                     [("warm-probability", phase_prob("w"), m.get_warmup_prob), ("cold-probability", phase_prob("c"), m.get_cold_prob),
                      ("delay-probability", phase_prob("d"), m.get_cold_delay_prob)])
        t.close("idle", complex(m.get_idle_prob()).real, ch.expect(lambda k, s: s == "off"), rtol=1e-4, atol=1e-6, msg="idle probability")
        v = [complex(z).real for z in m.get_v()]
        t.close("little", v[0] * l, sum(k * q for k, q in enumerate(ch.p)), rtol=1e-3, msg="delay: Little's law")
        t.closev("sojourn", v[:2], add_moments(w, b[:3])[:2], rtol=5e-3, msg="delay: sojourn moments")
        own_sojourn(t, m, v, b, "delay")
    t.count("delay")
    t.sample(w=w if not t.fails else None)


def small(t):
    """Negligible phases: the plain queue."""
    from most_queue.theory.m_h2_h2warm import Mh2h2Warm
    from most_queue.theory.mgn_with_h2_delay_cold_warm import MGnH2ServingColdWarmDelay
    n, b1, ro, l = setup(t, 4)
    ro = min(ro, .7); l = ro * n / b1
    b, S, cv = law(t.rng, b1)
    e = b1 * 1e-4
    tiny = gamma_moments(e, 1.3, 4)
    N, ch = cut(lambda K: mh2n(n, l, *S, K), n)
    t.params(n=n, l=l, b=b[:3], ro=ro, N=N)
    t.sig("small", n, round(ro, 1), round(cv, 1))
    with sut(t, "small"):
        which = t.idx % 3
        if which == 0:
            m = Mh2h2Warm(l, b, tiny, n, N=N, accuracy=1e-8)
        elif which == 1:
            # warmed first service equal to the usual one
            m = Mh2h2Warm(l, b, list(b), n, N=N, accuracy=1e-8, is_only_first=True)
        else:
            m = MGnH2ServingColdWarmDelay(l, b, tiny, tiny, tiny, n, N=N, accuracy=1e-8, w_pls_dt=3e-3)
        p = converge(t, m, "small")
        t.closev("small-p", p, ch.p[:len(p)], rtol=5e-3, atol=1e-4, msg="plain queue: state probability")
        w = ch.waits(l, lambda k, s: max(k - n, 0))
        t.close("small-w", complex(m.get_w()[0]).real, w[0], rtol=5e-3, atol=1e-3 * b1, msg="plain queue: mean wait")
        t.close("small-v", complex(m.get_v()[0]).real, w[0] + b1, rtol=5e-3, msg="plain queue: mean sojourn")
    t.count("small")


def room(t):
    """A finite number of places: jobs that find them all taken are lost; waits are those of the jobs taken. Loads above one too."""
    from most_queue.theory.m_h2_h2warm import Mh2h2Warm
    from most_queue.theory.mgn_with_h2_delay_cold_warm import MGnH2ServingColdWarmDelay
    from most_queue.theory.mmn_with_h2_cold_and_h2_warmup import MMn_H2warm_H2cold
    rng = t.rng
    n, b1, ro, l = setup(t, 4)
    ro = float(rng.uniform(.1, 1.5)); l = ro * n / b1
    r = int(rng.choice([0, 1, 2, 3, int(rng.integers(4, 40)), int(rng.integers(145, 170))]))
    which = ("warm", "first", "cold", "delay")[t.idx % 4]
    real = rng.random() < .25
    kw = dict(buffer=r, accuracy=1e-9)
    if real:
        kw["dtype"] = "f8"
    b, S, cv = law(rng, b1, real)
    bw, W, cw = law(rng, phase_mean(t, b1), real)
    bc, C, cc = law(rng, phase_mean(t, b1), real)
    bd, D, cd = law(rng, phase_mean(t, b1), real)
    K = n + r + 1
    t.params(kind=which, n=n, r=r, l=l, b=b[:3], b_warm=bw[:3], b_cold=bc[:3], b_delay=bd[:3], ro=ro, real=real)
    t.sig("room", which, n, r, round(ro, 1), real)
    with sut(t, "room"):
        if which == "warm":
            m, ch, phases = Mh2h2Warm(l, b, bw, n, **kw), vacation(n, l, S, K, warm=W), []
        elif which == "first":
            m, ch, phases = Mh2h2Warm(l, b, bw, n, is_only_first=True, **kw), first_special(n, l, S, W, K), []
        elif which == "cold":
            mu = 1 / b1
            b = [math.factorial(k) / mu ** k for k in (1, 2, 3)]
            m, ch = MMn_H2warm_H2cold(l, mu, bw, bc, n, **kw), vacation(n, l, ((1, 0), (mu, mu)), K, warm=W, cold=C)
            phases = [("warm-probability", "w", m.get_warmup_prob), ("cold-probability", "c", m.get_cold_prob)]
        else:
            m, ch = MGnH2ServingColdWarmDelay(l, b, bw, bc, bd, n, w_pls_dt=3e-3 * b1 / (b1 + bw[0] + bc[0]), **kw), vacation(n, l, S, K, warm=W, cold=C, delay=D)
            phases = [("warm-probability", "w", m.get_warmup_prob), ("cold-probability", "c", m.get_cold_prob), ("delay-probability", "d", m.get_cold_delay_prob)]
        p = converge(t, m, "room")
        t.closev("room-p", p[:K], ch.p, rtol=1e-4, atol=1e-6, msg=f"{which}: state probability with a finite room")
        t.require("room-cut", all(abs(q) < 1e-12 for q in p[K:]), "states beyond the room")
        t.close("sum", p.sum(), 1, rtol=1e-9, msg="sum of probabilities")
        for name, kind, got in phases:
            t.close(name, got(), ch.expect(phase_prob(kind)), rtol=1e-4, atol=1e-6, msg=f"{which}, finite room: {name}")
        waiting = (lambda k, s: max(k - n, 0)) if which == "first" else not_served(n)
        w = ch.waits_taken(waiting)
        taken = 1 - ch.p[-1]
        lq = ch.expect(waiting)
        # the two ways of finding the mean in our own chain agree
        assert abs(w[0] * l * taken - lq) < 1e-6 * max(lq, 1e-9), (w[0], lq / l / taken)
        gw = [complex(z).real for z in m.get_w()]
        t.close("room-w1", gw[0], w[0], rtol=1e-3, atol=1e-5 * b[0], msg=f"{which}: mean wait of the jobs taken")
        if which != "first":
            t.close("room-w2", gw[1], w[1], rtol=5e-3, atol=1e-4 * b[0] ** 2, msg=f"{which}: second wait moment of the jobs taken")
            t.close("room-w3", gw[2], w[2], rtol=.05, atol=2e-2 * b[0] ** 3, msg=f"{which}: third wait moment of the jobs taken")
        v = [complex(z).real for z in m.get_v()]
        if which != "first":
            own_sojourn(t, m, v, b, which)
        t.close("room-little", v[0] * l * taken, sum(k * q for k, q in enumerate(ch.p)), rtol=1e-3, msg=f"{which}: Little's law of the jobs taken")
    t.count("room")
    t.sample(w=w if not t.fails else None)


GROUPS = {"room": (room, 160, 2400), "warm": (warm, 100, 1500), "first": (first, 100, 1500), "cold": (cold, 100, 1500), "delay": (delay, 100, 1500), "small": (small, 60, 900)}
