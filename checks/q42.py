"""Q42: numerical helpers return what they name."""
import math
from fractions import Fraction
import numpy as np
from scipy import stats
from scipy.integrate import quad
from mq.core import sut
from mq.fam import Law, random_law, logu

PROPERTY = "Q42"
ROUND = True
RULE = "distinct (helper, arguments bucket) calls judged"
NEED = {"diff": 100, "q": 90, "student": 100, "binom": 20, "flow": 100, "flow_exact": 20}


def diff(t):
    from most_queue.theory.utils.diff5dots import diff5dots
    rng = t.rng
    n = [3, 4, 5][t.idx % 3]
    c = rng.normal(size=n)
    h = logu(rng, 1e-3, 10)
    x0 = float(rng.uniform(-2, 2)) * h
    P = np.polynomial.Polynomial(c / h ** np.arange(n))
    f = [float(P(x0 + i * h)) for i in range(n)]
    t.params(n=n, h=h, x0=x0, c=c)
    with sut(t, "diff5dots"):
        d = diff5dots(f, h)
        t.require("diff-count", len(d) == 3, f"{len(d)} derivatives")
        for k in (1, 2, 3):
            # exact for the polynomial through the points (third derivative of a parabola: 0)
            t.close(f"diff{n}-{k}", d[k - 1], float(P.deriv(k)(x0)) if k < n else 0.0, rtol=1e-8, atol=1e-9 / h ** k)
        t.require("diff-other", list(diff5dots([1.0], h)) == [0, 0, 0], "one point has no derivative")
    t.count("diff")
    t.sig("diff", n, round(math.log10(h), 1))


def mixed_poisson(l, law, j):
    """P(j Poisson arrivals during the law) by integration of the density."""
    lf = math.lgamma(j + 1)
    K, p = law.kind, law.p
    if K == "Uniform":
        lo, hi = p[0] - p[1], p[0] + p[1]
        return (stats.gamma.cdf(hi, j + 1, scale=1 / l) - stats.gamma.cdf(lo, j + 1, scale=1 / l)) / (l * (hi - lo))
    if K == "Gamma":
        mu, al = p
        return stats.nbinom.pmf(j, al, mu / (mu + l))
    if K == "Pa":
        a, m = p
        f = lambda u: a * math.exp(-a * u + j * (math.log(l * m) + u) - l * m * math.exp(u) - lf)
        top = max(math.log((700 + 5 * j) / (l * m)), 1)
        peak = min(max(math.log(max((j - a), .1) / (l * m)), 0), top)
        return quad(f, 0, peak, epsabs=1e-14, epsrel=1e-11, limit=400)[0] + quad(f, peak, top, epsabs=1e-14, epsrel=1e-11, limit=400)[0]


def q(t):
    import most_queue.theory.utils.q_poisson_arrival_calc as Q
    rng = t.rng
    kind = ["Gamma", "Uniform", "Pa"][t.idx % 3]
    l = logu(rng, .01, 10)
    ro = float(rng.uniform(.05, .99)) if rng.random() < .8 else logu(rng, 1e-7, 20)
    law = random_law(rng, kind, ro / l)
    if kind == "Pa" and rng.random() < .25:
        a = float(rng.integers(2, 6))
        law = Law("Pa", [a, ro / l * (a - 1) / a])
    elif kind == "Pa" and rng.random() < .3:      # hardly any mean
        a = 1 + logu(rng, .02, 1)
        law = Law("Pa", [a, ro / l * (a - 1) / a])
    elif kind == "Uniform" and rng.random() < .3:  # from zero, or almost
        law = Law("Uniform", [ro / l, ro / l * float(rng.choice([1, 1 - logu(rng, 1e-9, .01)]))])
    num = int(rng.integers(3, 60))
    t.params(law=repr(law), l=l, num=num)
    with sut(t, "q"):
        f = {"Gamma": Q.get_q_Gamma, "Uniform": Q.get_q_uniform, "Pa": Q.get_q_Pareto}[kind]
        v = f(l, law.p[0], law.p[1], num)
        t.require(f"q-{kind}-count", len(v) == num, f"{len(v)} values instead of {num}")
        for j in range(0, num, max(1, num // 12)):
            w = mixed_poisson(l, law, j)
            lost = 4e-15 / (l * law.p[1]) if kind == "Uniform" else 0     # both sides are differences over a narrow interval
            t.close(f"q-{kind}", v[j], w, rtol=1e-7, atol=1e-11 + lost, msg=f"P({j} arrivals) for {law}")
    t.count("q")
    t.sig("q", kind, round(ro, 1), round(math.log10(l), 1))
    t.sample()


def student(t):
    from most_queue.theory.utils import student_stat as S
    tab = [5 + i for i in range(16)] + [25, 30, 35, 40, 45, 50, 60, 70, 80, 90, 100, 120]
    for g in (0.95, 0.99, 0.999):
        n = [tab[t.idx % len(tab)], 5 + t.idx, int(t.rng.integers(5, 400))]
        for i, m in enumerate(n):
            t.params(gamma=g, n=m)
            w = float(stats.t.ppf((1 + g) / 2, m - 1))
            with sut(t, "student"):
                v = S.get_ty(g, m)
                t.close("student", v, w, rtol=0.006 if i == 0 else 0.035, msg=f"Student coefficient for n={m}, {g}")
                lo, hi = S.get_conf_intervals(g, m, 3.0, 2.0)
                t.close("interval", (lo + hi) / 2, 3.0, rtol=1e-9)
                t.close("interval", (hi - lo) / 2, v * 2.0 / math.sqrt(m), rtol=1e-9)
            t.count("student")
            t.sig("student", g, m)
    with sut(t, "student-refusal"):
        t.require("refusal", S.get_ty(.95, 4) == 0 and S.get_ty(.9, 10) == 0, "unsupported arguments are not refused with 0")


def binom(t):
    from most_queue.theory.utils.binom_probs import calc_binom_probs
    n, y = int(t.rng.choice([t.rng.integers(1, 12), t.rng.integers(12, 60)])), float(t.rng.choice([0, 1, t.rng.random(), t.rng.random()]))
    t.params(size=n, y=y)
    with sut(t, "binom"):
        v = calc_binom_probs(n, y)
        t.require("binom-count", len(v) == n, f"{len(v)} values instead of {n}")
        t.closev("binom", v, [stats.binom.pmf(i, n - 1, 1 - y) for i in range(n)], rtol=1e-9)
    t.count("binom")
    t.sig("binom", n, y)


def flow_sum_class():
    import matplotlib
    keep = matplotlib.use
    matplotlib.use = lambda *a, **k: None      # the module asks for a GUI backend at import
    try:
        from most_queue.theory.utils.flow_sum import SummatorNumeric
    finally:
        matplotlib.use = keep
    return SummatorNumeric


def semi_sum(a, b):
    """Moments of the interval of the flow whose count semi-invariants per unit of time are the sums of those of flows a and b."""
    def counts(m):
        F = [Fraction(x) for x in m]
        c = [F[0], F[1] - F[0] ** 2, F[2] - 3 * F[1] * F[0] + 2 * F[0] ** 3]
        return [1 / c[0], c[1] / c[0] ** 3, 3 * c[1] ** 2 / c[0] ** 5 - c[2] / c[0] ** 4]
    v = [x + y for x, y in zip(counts(a), counts(b))]
    c1 = 1 / v[0]
    c2 = v[1] * c1 ** 3
    c3 = (3 * c2 ** 2 / c1 ** 5 - v[2]) * c1 ** 4
    return [float(c1), float(c2 + c1 ** 2), float(c3 + 3 * c1 * c2 + c1 ** 3)]


def flow(t):
    """Superposition of renewal flows: exact interval law for H2 flows, semi-invariants as inverses, Poisson stays Poisson."""
    N = flow_sum_class()
    rng = t.rng
    kinds = ["H", "H"]
    ls = [random_law(rng, "H", logu(rng, .05, 20)) for _ in range(2)]
    def cv2(l):
        return l.var() / l.mean() ** 2
    t.params(flows=[repr(l) for l in ls])
    t.sig("flow", round(cv2(ls[0]), 1), round(cv2(ls[1]), 1))
    a = [l.moments(3) for l in ls]
    if all(cv2(l) > 1.1 for l in ls):
        r = [1 / l.mean() for l in ls]
        def tail(l, x):
            return 1 - float(l.cdf(x))
        def rtail(l, x):
            y, m1, m2 = l.p
            return (y / m1 * math.exp(-m1 * x) + (1 - y) / m2 * math.exp(-m2 * x)) / l.mean()
        S = lambda x: (r[0] * tail(ls[0], x) * rtail(ls[1], x) + r[1] * tail(ls[1], x) * rtail(ls[0], x)) / (r[0] + r[1])
        slow = 1 / max(min(ls[0].p[1:]) + min(ls[1].p[1:]), 1e-12)
        fast = 1 / (max(ls[0].p[1:]) + max(ls[1].p[1:]))
        cuts = [0.0] + list(np.geomspace(fast, 45 * slow, 14))
        w = [sum(quad(lambda x: k * x ** (k - 1) * S(x), lo, hi, epsrel=1e-11)[0] for lo, hi in zip(cuts, cuts[1:])) for k in (1, 2, 3)]
        with sut(t, "flow"):
            f = N.sum_2_H2_flows(list(a[0]), list(a[1]))
            t.closev("flow-H2", f, w, rtol=2e-5, msg="moments of the superposed flow")
            s = N([list(x) for x in a]); s.sum_flows()
            t.closev("flow-H2", s.result_flow, w, rtol=2e-5, msg="moments of the superposed flow (sum_flows)")
            t.close("flow-coev", s.coevs[0], math.sqrt(w[1] / w[0] ** 2 - 1), rtol=1e-4)
        t.count("flow_exact")
    # intensities add up in any fold
    many = [random_law(rng, "H", logu(rng, .05, 20)).moments(3) for _ in range(int(rng.integers(2, 5)) if rng.random() < .9 else int(rng.integers(5, 10)))]
    tot = sum(1 / m[0] for m in many)
    with sut(t, "flow"):
        for semi in (False, True):
            s = N([list(m) for m in many], is_semi=semi); s.sum_flows()
            t.require("flow-count", len(s.flows_) == len(many) - 1, f"{len(s.flows_)} partial sums for {len(many)} flows")
            t.close("flow-intensity", 1 / complex(s.result_flow[0]).real, tot, rtol=1e-2)
            t.require("flow-partial", list(s.a1_sum) == [x[0] for x in s.flows_] and list(s.a2_sum) == [x[1] for x in s.flows_]
                      and list(s.result_flow) == list(s.flows_[-1]), "partial sums are not those of the successive flows")
            own = [list(m) for m in many]
            for i, f in enumerate(s.flows_):
                own[:2] = [semi_sum(own[0], own[1]) if semi else [complex(x).real for x in f] if i == 0 else N.sum_2_H2_flows(own[0], own[1])]
                t.closev("flow-fold", [complex(x).real for x in f], [complex(x).real for x in own[0]], rtol=1e-6, msg=f"sum of the first {i + 2} flows, semi-invariants {semi}")
                c2 = complex(own[0][1]).real / complex(own[0][0]).real ** 2 - 1
                if c2 > 1e-4:
                    t.close("flow-coev", complex(s.coevs[i]).real, math.sqrt(c2), rtol=1e-5)
        # Poisson flows
        p = [logu(rng, .05, 20) for _ in range(2)]
        m = [[math.factorial(k) / x ** k for k in (1, 2, 3, 4)] for x in p]
        w = [math.factorial(k) / sum(p) ** k for k in (1, 2, 3, 4)]
        t.closev("flow-poisson", N.sum_2_flows_semiinvariants(m[0], m[1]), w, rtol=1e-8)
        x = a[0] + [0]
        x = ls[0].moments(4)
        t.closev("semi-inverse", N.get_a(N.get_k(x)), x, rtol=1e-8)
        k = N.get_k(x)
        t.closev("semi-inverse-v", N.get_k_by_v(N.get_v(k)), k, rtol=1e-6, atol=1e-8 * abs(k[3]))
        t.closev("flow-residual", N.get_residual_distr_moments(x), [x[i] / ((i + 1) * x[0]) for i in (1, 2, 3)], rtol=1e-9)
        t.count("flow", 4)


GROUPS = {"flow": (flow, 720, 9000), "diff": (diff, 1800, 22500), "q": (q, 1440, 18000), "student": (student, 1440, 18000), "binom": (binom, 480, 6000)}
