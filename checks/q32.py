"""Q32: GI/M/1 and GI/M/n against the exact embedded chain (uniformised death process over the interarrival law)."""
import math
import numpy as np
from scipy import stats, optimize
from mq.core import sut
from mq.fam import Law, logu, gamma_moments, any_cv, any_load
from mq.orc import stationary, rising, add_moments
from checks.q42 import mixed_poisson

PROPERTY = "Q32"
ROUND = True
RULE = "distinct (law, n, load bucket, variation bucket, time unit) parameter sets solved exactly and compared"
NEED = {"single": 100, "multi": 60, "wide": 200, "corrected": 15, "singular": 10}


class GIMn:
    def __init__(self, law, mu, n):
        a = law.mean()
        f = lambda x: float(law.lst(n * mu * (1 - x))) - x
        self.sigma = s = optimize.brentq(f, 1e-13, 1 - 1e-9, xtol=1e-15) if f(1e-13) > 0 else 0.0
        self.K = K = n + int(min(600, max(12, 25 / -math.log(max(s, 1e-9)))))
        th = n * mu
        m_max = K + 1 + 60 * n
        if law.kind == "Gamma":
            # interarrival counts of the uniformised death process (rate n mu): negative binomial
            v, al = law.p
            m_max = int(min(6000, max(50, stats.nbinom.isf(1e-13, al, v / (v + th)))))
            q = stats.nbinom.pmf(np.arange(m_max + 1), al, v / (v + th))
        else:
            m_max = 400
            q = np.array([mixed_poisson(th, law, j) for j in range(m_max + 1)])
        down = np.minimum(np.arange(K + 2), n) * mu / th
        R = np.eye(K + 2)
        M = np.zeros_like(R)
        used = 0.0
        for m in range(m_max + 1):
            M += q[m] * R
            used += q[m]
            # R <- U R with U[i,i-1] = down_i, U[i,i] = 1 - down_i
            S = (1 - down)[:, None] * R
            S[1:] += down[1:, None] * R[:-1]
            R = S
        M += (1 - used) * R
        P = np.zeros((K + 1, K + 1))
        for i in range(K + 1):
            row = M[min(i + 1, K)]
            P[i] = row[:K + 1]
        self.pi = stationary(P)
        self.n, self.mu, self.a = n, mu, a

    def p(self, num):
        out = [0.0] * num
        for i in range(1, num):
            out[i] = (self.pi[i - 1] if i - 1 < len(self.pi) else 0) / (min(i, self.n) * self.mu * self.a)
        tot = sum(self.pi[i - 1] / (min(i, self.n) * self.mu * self.a) for i in range(1, self.K + 1))
        out[0] = 1 - tot
        return out

    def w(self, k):
        return [sum(self.pi[i] * rising(i - self.n + 1, m) for i in range(self.n, self.K + 1)) / (self.n * self.mu) ** m for m in range(1, k + 1)]


def pick(t, n):
    rng = t.rng
    kind = ["Gamma", "Gamma", "Pa"][t.idx % 3]
    mean = logu(rng, .01, 100)
    cv = float(rng.uniform(.3, 1.8))
    if t.idx % 5 == 0:
        cv = 1 / math.sqrt(int(rng.integers(1, 9)))
    if kind == "Pa":
        cv = float(rng.uniform(.25, 1.5))
        if t.idx % 5 == 0:
            cv = 1 / math.sqrt(float(rng.choice([3, 8, 15])))
        a = 1 + math.sqrt(1 + 1 / cv ** 2)
        law = Law("Pa", [a, mean * (a - 1) / a])
        m = [mean, mean ** 2 * (1 + cv * cv), 10 * mean ** 3, 99 * mean ** 4]
    else:
        law = Law("Gamma", [1 / cv ** 2 / mean, 1 / cv ** 2])
        m = gamma_moments(mean, cv, 4)[:int(rng.integers(3, 5))]
    ro = float(rng.uniform(.08, .9))
    if t.group == "multi" and n > 1 and kind == "Gamma" and t.idx % 4 == 1:
        # probability sigma of finding one more job ahead equal (or close) to k/n: a removable singularity of the boundary equations
        al = law.p[1]
        if t.idx % 8 == 1:
            al = 1.0
            law = Law("Gamma", [1 / mean, 1.0]); m = gamma_moments(mean, 1.0, len(m))
        s = int(rng.integers(1, n)) / n
        if rng.random() < .5:
            s *= 1 + 10 ** -float(rng.integers(2, 10)) * float(rng.choice([-1, 1]))
        x = s ** (1 / al)
        ro_ = (1 - s) * x / (1 - x) / al      # sigma = (v / (v + n mu (1 - sigma)))^al with v = al / mean
        if .05 < ro_ < .93:
            ro = ro_
            t.count("singular")
    mu = 1 / (ro * mean * n)
    t.params(law=repr(law), mu=mu, n=n, ro=ro)
    t.sig(kind, n, round(ro, 1), round(cv, 1), round(math.log10(mean)))
    return kind, law, m, mu, ro


def judge(t, o, pi, p, w, v, num, tol):
    n, mu = o.n, o.mu
    t.require("count", len(pi) == num and len(p) == num, f"{len(pi)}, {len(p)} probabilities instead of {num}")
    top = min(num, o.K - 5)
    t.closev("pi", pi[:top], list(o.pi[:top]), rtol=tol, atol=2e-8, msg="arrival-epoch probability")
    t.closev("p", p[:top], o.p(top), rtol=tol, atol=2e-8, msg="state probability")
    t.require("p-non-negative", min(p) >= -1e-9 and min(pi) >= -1e-9, "negative probability")
    t.require("p-sum", sum(p) <= 1 + 1e-6 and sum(pi) <= 1 + 1e-6, f"probabilities sum to {sum(p)}, {sum(pi)}")
    ww = o.w(3)
    b = [math.factorial(k) / mu ** k for k in (1, 2, 3)]
    t.closev("w", w, ww, rtol=20 * tol, atol=1e-7 / mu, msg="wait moment")
    t.closev("v", v, add_moments(ww, b), rtol=10 * tol, msg="sojourn moment")


def single(t):
    from most_queue.theory import gi_m_1_calc as G
    kind, law, m, mu, ro = pick(t, 1)
    o = GIMn(law, mu, 1)
    num = int(t.rng.integers(5, 120))
    with sut(t, "gi_m_1"):
        kw = {} if kind == "Gamma" and t.idx % 2 else dict(approx_distr=kind)
        pi, p = G.get_pi(list(m), mu, num, **kw), G.get_p(list(m), mu, num, **kw)
        w, v = G.get_w(list(m), mu, **kw), G.get_v(list(m), mu, **kw)
        t.close("sigma", G.get_w_param(list(m), mu, **kw), o.sigma, rtol=1e-6, atol=1e-8)
        k = int(t.rng.integers(1, 4))
        t.closev("w-num", G.get_w(list(m), mu, k, **kw), w[:k], rtol=1e-12)
        t.closev("v-num", G.get_v(list(m), mu, k, **kw), v[:k], rtol=1e-12)
        t.require("moment-count", len(w) == 3 and len(v) == 3, "default is three moments")
        judge(t, o, pi, p, w, v, num, 1e-6)
    t.count("single")
    t.sample(sigma=o.sigma)


def multi(t):
    from most_queue.theory import gi_m_n_calc as G, gi_m_1_calc as G1
    n = int(t.rng.integers(1, 8))
    kind, law, m, mu, ro = pick(t, n)
    o = GIMn(law, mu, n)
    num = int(t.rng.integers(n + 3, 120))
    with sut(t, "gi_m_n"):
        kw = {} if kind == "Gamma" and t.idx % 2 else dict(approx_distr=kind)
        # the stop rule of the root (1e-10 by default) is magnified by the boundary equations of many channels
        w0, p0 = G.get_w(list(m), mu, n, **kw), G.get_p(list(m), mu, n, num, **kw)
        t.closev("w-default", w0, o.w(3), rtol=5e-3, atol=1e-5 / mu, msg="wait moment with the default accuracy")
        t.closev("p-default", p0[:min(num, o.K - 5)], o.p(min(num, o.K - 5)), rtol=5e-3, atol=1e-5, msg="state probability with the default accuracy")
        kw["e"] = 1e-14
        pi, p = G.get_pi(list(m), mu, n, num, **kw), G.get_p(list(m), mu, n, num, **kw)
        w, v = G.get_w(list(m), mu, n, **kw), G.get_v(list(m), mu, n, **kw)
        t.close("sigma", G.get_w_param(list(m), mu, n, **kw), o.sigma, rtol=1e-6, atol=1e-8)
        t.require("moment-count", len(w) == 3 and len(v) == 3, "three moments")
        judge(t, o, pi, p, w, v, num, 1e-5)
        # the waiting-time transform gives the same mean
        h = 1e-5 * n * mu * (1 - o.sigma)
        d = (G.get_w_pls(n, mu, pi[n], o.sigma, h) - G.get_w_pls(n, mu, pi[n], o.sigma, 0)) / h
        t.close("w-pls", -d, w[0], rtol=1e-3, atol=1e-7 / mu)
        for j in (1, 2, n):
            t.close("b0", G.get_b0(list(m), j, mu, kind), float(law.lst(j * mu)), rtol=1e-6, atol=1e-9, msg="interarrival transform")
        if n == 1:
            t.closev("n1", v, G1.get_v(list(m), mu, **kw), rtol=1e-6, msg="one channel equals GI/M/1")
            t.closev("n1", p[:10], G1.get_p(list(m), mu, num, **kw)[:10], rtol=1e-6, atol=1e-9)
    t.count("multi")
    t.sample(sigma=o.sigma, w=w)


def wide(t):
    """One channel, where the answer is geometric: nearly constant and very irregular flows, nearly empty and nearly full systems."""
    from most_queue.theory import gi_m_1_calc as G, gi_m_n_calc as Gn
    rng = t.rng
    kind = ["Gamma", "Pa"][t.idx % 2]
    mean = logu(rng, .01, 100)
    cv = any_cv(rng, .3, 1.8, .12, 3)
    ro = any_load(rng, .05, .9, .005, .99)
    if kind == "Pa":
        a = 1 + math.sqrt(1 + 1 / cv ** 2)
        law = Law("Pa", [a, mean * (a - 1) / a])
        m = [mean, mean ** 2 * (1 + cv * cv), 10 * mean ** 3, 99 * mean ** 4]
    else:
        law = Law("Gamma", [1 / cv ** 2 / mean, 1 / cv ** 2])
        m = gamma_moments(mean, cv, 4)[:int(rng.integers(3, 5))]
    mu = 1 / (ro * mean)
    f = lambda x: float(law.lst(mu * (1 - x))) - x
    lo = f(1e-14)
    sg = optimize.brentq(f, 1e-14, 1 - 1e-7, xtol=1e-15, rtol=1e-14) if lo > 0 else 0.0
    num = int(rng.integers(5, 60))
    t.params(law=repr(law), mu=mu, ro=ro, cv=cv, moments=len(m))
    t.sig("wide", kind, round(ro, 1), round(math.log10(cv), 1))
    kw = dict(e=1e-15, approx_distr=kind)
    pi0 = [(1 - sg) * sg ** k for k in range(num)]
    p0 = [1 - ro] + [ro * x for x in pi0[:-1]]
    w0 = [math.factorial(k) * sg / (mu * (1 - sg)) ** k for k in (1, 2, 3)]
    b = [math.factorial(k) / mu ** k for k in (1, 2, 3)]
    tol = 1e-6 if ro < .9 else 2e-5
    with sut(t, "wide"):
        for name, args in (("1", ()), ("n", (1,))):
            M = G if name == "1" else Gn
            t.closev("wide-pi", M.get_pi(list(m), mu, *args, num, **kw), pi0, rtol=tol, atol=1e-9, msg="arrival-epoch probability")
            t.closev("wide-p", M.get_p(list(m), mu, *args, num, **kw), p0, rtol=tol, atol=1e-9, msg="state probability")
            t.closev("wide-w", M.get_w(list(m), mu, *args, **kw), w0, rtol=4 * tol, atol=1e-9 / mu, msg="wait moment")
            t.closev("wide-v", M.get_v(list(m), mu, *args, **kw), add_moments(w0, b), rtol=4 * tol, msg="sojourn moment")
    t.count("wide")


def corrected(t):
    """Third moment off the Gamma law: the corrected density's transform (from its definition) determines the answer."""
    from most_queue.theory import gi_m_1_calc as G, gi_m_n_calc as Gn
    rng = t.rng
    mean, cv = logu(rng, .1, 10), float(rng.uniform(.5, 1.5))
    m = gamma_moments(mean, cv, 3)
    m[2] *= float(rng.uniform(.95, 1.05))
    n = int(rng.integers(1, 5))
    ro = float(rng.uniform(.2, .85))
    mu = 1 / (ro * mean * n)
    al = 1 / cv ** 2; v = al / mean
    t.params(moments=m, mu=mu, n=n)
    t.sig("corrected", n, round(ro, 1), round(cv, 1))
    # weights of Gamma(al + j) components: sum_j c_j, with moments matched
    A = np.array([[math.exp(math.lgamma(al + j + i) - math.lgamma(al + j)) for j in range(4)] for i in range(4)])
    rhs = np.array([1.0] + [m[i] * v ** (i + 1) for i in range(3)])
    c = np.linalg.solve(A, rhs)
    L = lambda s: sum(c[j] * (v / (v + s)) ** (al + j) for j in range(4))
    f = lambda x: L(n * mu * (1 - x)) - x
    s = optimize.brentq(f, 1e-9, 1 - 1e-7)
    with sut(t, "corrected"):
        t.close("sigma-corrected", Gn.get_w_param(list(m), mu, n), s, rtol=1e-5, atol=1e-8)
        t.close("b0-corrected", Gn.get_b0(list(m), 2, mu), L(2 * mu), rtol=1e-6)
        pi = Gn.get_pi(list(m), mu, n, 100)
        t.close("pi-ratio", pi[n + 1] / pi[n], s, rtol=1e-5)
        t.close("pi-sum", sum(pi[:n]) + pi[n] / (1 - s), 1, rtol=1e-6)
        if n == 1:
            t.close("sigma-corrected", G.get_w_param(list(m), mu), s, rtol=1e-5)
            p1 = G.get_pi(list(m), mu, 20)
            t.closev("pi-corrected", p1, [(1 - s) * s ** k for k in range(20)], rtol=1e-4, msg="arrival-epoch probability")
    t.count("corrected")


GROUPS = {"single": (single, 480, 7200), "wide": (wide, 400, 6000), "multi": (multi, 320, 4800), "corrected": (corrected, 160, 2400)}
