"""Q38: moments of the maximum of parts and fork-join approximations."""
import math
from fractions import Fraction
import numpy as np
from scipy import stats
from mq.core import sut
from mq.fam import logu, gamma_moments, Law, any_load
from mq.orc import add_moments, wait_moments_mg1
from mq.qbd import h2_fit, mh2n

PROPERTY = "Q38"
ROUND = True
RULE = "distinct (function, number of parts, family or load bucket, delay kind) parameter sets judged"
NEED = {"max": 25, "delayed": 20, "approximations": 25, "nk": 20, "invariant": 8}


def max_moments(cdfs, scale, num, kinks=()):
    """Moments of the maximum of independent parts: Gauss-Legendre on pieces that split at the kinks."""
    top = scale
    while 1 - np.prod([F(np.array([top]))[0] for F in cdfs]) > 1e-14:
        top *= 1.6
    edges = sorted({0.0, top, *[k for k in kinks if 0 < k < top],
                    *[scale * 10.0 ** e for e in np.linspace(-7, 0, 24)], *np.linspace(scale, top, 50)})
    x, w = np.polynomial.legendre.leggauss(24)
    tot = np.zeros(num)
    for a, b in zip(edges, edges[1:]):
        if b > top:
            continue
        t = (a + b) / 2 + (b - a) / 2 * x
        tail = 1 - np.prod([F(t) for F in cdfs], axis=0)
        for k in range(num):
            tot[k] += (tail * (k + 1) * t ** k * w).sum() * (b - a) / 2
    return list(tot)


def h2_law(b):
    y, m1, m2 = h2_fit(b)
    return Law("H", (y.real, m1.real, m2.real))


def positive(cdf):
    return lambda t: np.where(t <= 0, 0.0, cdf(np.maximum(t, 0)))


def gamma_cdf(b):
    v = b[1] - b[0] ** 2
    return positive(lambda t: stats.gamma.cdf(t, b[0] ** 2 / v, scale=v / b[0]))


def maximum(t):
    """Families: two moments -> gamma; three -> Erlang below one, H2 from one on."""
    from most_queue.theory import fj_calc as fj
    rng = t.rng
    n = int(rng.integers(1, 11)) if rng.random() < .9 else int(rng.integers(11, 61))
    scale = logu(rng, .001, 1000)
    kind = ["erlang", "h2", "gamma", "exp"][t.idx % 4]
    if kind == "erlang":
        r = int(rng.integers(2, 12))
        b = [math.prod(r + j for j in range(k)) * (scale / r) ** k for k in (1, 2, 3, 4)]
        cdfs = [positive(lambda x: stats.gamma.cdf(x, r, scale=scale / r))] * n
        k = int(rng.choice([3, 4]))
        b = b[:k]
    elif kind == "exp":
        b = [math.factorial(k) * scale ** k for k in (1, 2, 3)]
        cdfs = [positive(lambda x: 1 - np.exp(-x / scale))] * n
    elif kind == "h2":
        p = float(rng.uniform(.1, .9))
        q = logu(rng, 1.6, 10)
        m1 = scale / (p + (1 - p) * q)
        b = [math.factorial(k) * (p * m1 ** k + (1 - p) * (m1 * q) ** k) for k in (1, 2, 3, 4)][:int(rng.choice([3, 4]))]
        cdfs = [positive(lambda x: 1 - p * np.exp(-x / m1) - (1 - p) * np.exp(-x / (m1 * q)))] * n
    else:
        b = gamma_moments(scale, float(rng.uniform(.25, 1.8)), 2)
        cdfs = [gamma_cdf(b)] * n
    num = [None, 1, 2, 3, 4][int(rng.integers(5))]
    t.params(n=n, b=b, kind=kind, num=num)
    t.sig("max", n, kind, round(math.log10(scale)))
    want_len = min(len(b), num) if num else len(b)
    want = max_moments(cdfs, scale, want_len)
    with sut(t, "max"):
        got = fj.getMaxMoments(n, b, num) if num else fj.getMaxMoments(n, b)
        t.require("max-len", len(got) == want_len, f"{len(got)} moments instead of {want_len}")
        t.closev("max", got, want, rtol=2e-5, atol=0, msg=f"moments of the maximum of {n} {kind} parts")
        if kind == "exp":
            t.close("max", got[0], scale * sum(1 / i for i in range(1, n + 1)), rtol=1e-6, msg="mean maximum of exponentials")
        # split-join: M/G/1 whose service is the maximum
        ro = float(rng.uniform(.1, .9))
        if want_len >= 3:
            from most_queue.theory.mg1_calc import get_v
            l = ro / want[0]
            w = wait_moments_mg1(l, want, want_len - 1)
            t.closev("split-join", get_v(l, got, 2), add_moments(w, want)[:2], rtol=1e-3, msg="split-join sojourn")
        t.close("lambda-max", fj.get_1ambda_max(b, n, ro), ro / want[0], rtol=1e-4, msg="largest arrival rate for the load")
    t.count("max")
    t.sample(got=got if not t.fails else None)


def delayed(t):
    from most_queue.theory import fj_calc as fj
    rng = t.rng
    n = int(rng.integers(1, 8)) if rng.random() < .9 else int(rng.integers(8, 25))
    scale = logu(rng, .001, 1000)
    b = gamma_moments(scale, float(rng.uniform(.3, 1.8)), 3)
    kind = ["none", "fixed", "moments", "zero"][t.idx % 4]
    num = int(rng.integers(1, 5))
    d = scale * logu(rng, .05, 2)
    kinks = ()
    if kind == "fixed":
        arg = d
        F = gamma_cdf(b)
        cdfs = [(lambda x, i=i: F(x - i * d)) for i in range(n)]
        kinks = [i * d + s for i in range(n) for s in [0] + [scale * 10.0 ** e for e in np.linspace(-7, 0, 15)]]
    elif kind == "moments":
        arg = gamma_moments(d, float(rng.uniform(.3, 1.8)), 3)
        cdfs, tot = [], b
        for i in range(n):
            cdfs.append(gamma_cdf(tot))
            tot = add_moments(tot, arg)
    else:
        arg = 0
        cdfs = [gamma_cdf(b)] * n
    t.params(n=n, b=b, delay=arg, kind=kind, num=num)
    t.sig("delayed", n, kind, round(math.log10(scale)), num)
    want = max_moments(cdfs, scale + n * (d if kind in ("fixed", "moments") else 0), num, kinks)
    before = list(arg) if isinstance(arg, list) else arg
    with sut(t, "delayed"):
        got = fj.getMaxMomentsDelta(n, b, num) if kind == "none" else fj.getMaxMomentsDelta(n, b, num, arg)
        t.require("delayed-len", len(got) == num, f"{len(got)} moments instead of {num}")
        t.closev("delayed", got, want, rtol=5e-5, atol=0, msg=f"moments of the maximum of {n} parts with {kind} delay")
        t.require("arguments", arg == before, "the delay moments were changed")
    t.count("delayed")


def H(n):
    return float(sum(Fraction(1, i) for i in range(1, n + 1)))


def V(n):
    """Varma's light-traffic constant."""
    s = Fraction(0)
    for r in range(1, n + 1):
        s += (-1) ** (r - 1) * math.comb(n, r) * sum(Fraction(math.comb(r, m) * math.factorial(m - 1), r ** (m + 1)) for m in range(1, r + 1))
    return float(s)


def approx(t):
    from most_queue.theory import fj_calc as fj
    rng = t.rng
    mu = logu(rng, .001, 1000)
    ro = any_load(rng, .02, .98, 1e-4)
    l = ro * mu
    n = int(rng.integers(1, 13)) if rng.random() < .9 else int(rng.integers(13, 31))
    t.params(l=l, mu=mu, n=n)
    t.sig("approx", n, round(ro, 1))
    two = (12 - ro) / (8 * (mu - l))
    with sut(t, "approximations"):
        t.close("two", fj.get_v1_fj2(l, mu), two, msg="exact mean for two branches")
        t.close("two", fj.get_v1_fj_varma(l, mu, 2), two, msg="Varma, two branches")
        t.close("two", fj.get_v1_fj_nelson_tantawi(l, mu, 2), two, msg="Nelson-Tantawi, two branches")
        t.close("two", fj.get_v1_fj_invar(l, mu, 2), two, msg="invariant, two branches")
        t.close("one", fj.get_v1_fj_varma(l, mu, 1), 1 / (mu - l), msg="Varma, one branch")
        t.close("one", fj.get_v1_fj_varki_merchant(l, mu, 1), 1 / (mu - l), msg="Varki-Merchant, one branch")
        t.close("varma", fj.get_v1_fj_varma(l, mu, n), (H(n) + (V(n) - H(n)) * ro) / (mu - l), rtol=1e-7, msg="Varma")
        if n >= 2:
            t.close("nelson", fj.get_v1_fj_nelson_tantawi(l, mu, n), (H(n) / H(2) + (1 - H(n) / H(2)) * 4 / 11 * ro) * two, msg="Nelson-Tantawi")
        s1, s2 = sum(1 / (i - ro) for i in range(1, n + 1)), sum(1 / (i * (i - ro)) for i in range(1, n + 1))
        t.close("varki", fj.get_v1_fj_varki_merchant(l, mu, n), (H(n) + ro / (2 * (1 - ro)) * (s1 + (1 - 2 * ro) * s2)) / mu, msg="Varki-Merchant")
        big = int(rng.integers(2, 120))
        t.close("nelson", fj.get_v1_fj_nelson_tantawi(l, mu, big), (H(big) / H(2) + (1 - H(big) / H(2)) * 4 / 11 * ro) * two, msg=f"Nelson-Tantawi, {big} branches")
        s1, s2 = sum(1 / (i - ro) for i in range(1, big + 1)), sum(1 / (i * (i - ro)) for i in range(1, big + 1))
        t.close("varki", fj.get_v1_fj_varki_merchant(l, mu, big), (H(big) + ro / (2 * (1 - ro)) * (s1 + (1 - 2 * ro) * s2)) / mu, msg=f"Varki-Merchant, {big} branches")
        t.close("constants", fj.get_Hn(n), H(n), msg="harmonic number")
        t.close("constants", fj.get_V(n), V(n), rtol=1e-7, msg="Varma constant")
    t.count("approximations")


def nk(t):
    """(n, k): expected k-th order statistic as a combination of maxima."""
    from most_queue.theory import fj_calc as fj
    rng = t.rng
    mu = logu(rng, .001, 1000)
    ro = any_load(rng, .02, .95, 1e-4)
    l = ro * mu
    n = int(rng.integers(1, 9)) if rng.random() < .9 else int(rng.integers(9, 14))
    k = int(rng.integers(1, n + 1))
    t.params(l=l, mu=mu, n=n, k=k)
    t.sig("nk", n, k, round(ro, 1))
    W = {i: (-1) ** (i - k) * math.comb(i - 1, k - 1) * math.comb(n, i) for i in range(k, n + 1)}
    nt = lambda i: 1 / (mu - l) if i == 1 else (H(i) / 1.5 + (1 - H(i) / 1.5) * 4 / 11 * ro) * (12 - ro) / (8 * (mu - l))
    va = lambda i: (H(i) + (V(i) - H(i)) * ro) / (mu - l)
    with sut(t, "nk"):
        for i in range(k, n + 1):
            t.close("weights", fj.get_W(n, k, i), W[i], rtol=1e-8, msg=f"order-statistic weight ({n},{k},{i})")
        t.close("nelson-nk", fj.get_v1_fj_nelson_nk(l, mu, n, k), sum(W[i] * nt(i) for i in W), rtol=1e-7, msg="Nelson (n,k)")
        t.close("varma-nk", fj.get_v1_varma_nk(l, mu, n, k), sum(W[i] * va(i) for i in W), rtol=1e-7, msg="Varma (n,k)")
        if n == k:
            t.close("full", fj.get_v1_varma_nk(l, mu, n, n), fj.get_v1_fj_varma(l, mu, n), rtol=1e-9, msg="Varma (n,n) is the full join")
        tot = sum(fj.get_v1_varma_nk(l, mu, n, j) for j in range(1, n + 1))
        t.close("sum", tot, n / (mu - l), rtol=1e-7, msg="sum over k of the order statistics")
    t.count("nk")


def mmn_v(l, mu, n):
    a = l / mu
    c = a ** n / math.factorial(n) / (1 - a / n)
    c = c / (sum(a ** i / math.factorial(i) for i in range(n)) + c)
    return c / (n * mu - l) + 1 / mu


def invariant(t):
    from most_queue.theory import fj_calc as fj
    rng = t.rng
    scale = logu(rng, .01, 100)
    ro = float(rng.uniform(.05, .8))
    n = int(rng.integers(2, 7)) if rng.random() < .85 else int(rng.integers(7, 13))
    mu, l = 1 / scale, ro / scale
    t.params(l=l, mu=mu, n=n)
    two = (12 - ro) / (8 * (mu - l))
    with sut(t, "invariant"):
        want = two * mmn_v(l, mu / n, n) / mmn_v(l, mu / 2, 2)
        t.close("invar", fj.get_v1_fj_invar(l, mu, n), want, rtol=1e-5, msg="invariant approximation")
        # sojourn of the maximum of independent branches
        b = gamma_moments(scale, float(rng.uniform(.3, 1)), 4) if rng.random() < .3 else [math.factorial(k) * scale ** k for k in (1, 2, 3, 4)]
        expo = b[1] == 2 * scale ** 2
        t.params(b=b)
        v = fj.get_v_fj_max(l, b, n)
        if expo:
            m = 1 / (mu - l)
            want = max_moments([positive(lambda x: 1 - np.exp(-x / m))] * n, m, 2)
            t.closev("branch-max", v, want, rtol=1e-4, msg="maximum of exponential branch sojourns")
        one = fj.get_v_fj_max(l, b, 1)
        bv = add_moments(wait_moments_mg1(l, b, 3), b[:3])
        t.close("branch-one", one[0], bv[0], rtol=1e-4, msg="one branch is M/G/1")
        t.require("branch-order", v[0] >= one[0] * (1 - 1e-6), "the maximum is below one branch")
        cv = float(rng.choice([rng.uniform(.6, .9), rng.uniform(1.15, 1.9)])) if rng.random() < .8 else float(rng.uniform(.3, .6))
        b = gamma_moments(scale, cv, 3)
        t.params(b_tt=b)
        t.sig("invar", n, round(ro, 1), round(cv, 1))
        tt = fj.get_v_fj_invar_tt(l, b, n)
        ws = []
        for c in (n, 2):
            y, m1, m2 = h2_fit([x * c ** (k + 1) for k, x in enumerate(b)])
            ws.append(mh2n(c, l, (y, 1 - y), (m1, m2), 250).waits(l, lambda k, s: max(k - c, 0), 1)[0])
        t.close("invar-tt", tt[0], two * ws[0] / ws[1], rtol=1e-2, msg="invariant approximation by the M/G/n waits")
        t.close("invar-tt2", fj.get_v_fj_invar_tt(l, b, 2)[0], two, rtol=1e-9, msg="invariant by M/G/n, two branches")
        if ro * n * H(n) < .9:
            f = lambda c: wait_moments_mg1(l, max_moments([positive(lambda x: 1 - np.exp(-x * mu / c))] * c, scale * c, 3), 1)[0]
            t.close("invar-sj", fj.get_v1_fj_invar_sj(l, mu, n), two * f(n) / f(2), rtol=1e-4, msg="invariant by split-join waits")
    t.count("invariant")


GROUPS = {"max": (maximum, 120, 1800), "delayed": (delayed, 84, 1260), "approx": (approx, 120, 3000), "nk": (nk, 120, 3000), "invariant": (invariant, 42, 630)}
