"""Q31: M/G/1 wait, sojourn and state probabilities."""
import math
import numpy as np
from mq.core import sut
from mq.fam import Law, random_law, logu, any_load, any_cv
from mq.orc import wait_moments_mg1, add_moments, series_coeffs
from checks.q42 import mixed_poisson

PROPERTY = "Q31"
ROUND = True
RULE = "distinct (service family, load bucket, time unit, function) results compared with Pollaczek-Khinchine"
NEED = {"waits": 150, "probs": 80, "warm": 80}


def moments(t):
    from most_queue.theory import mg1_calc as M
    rng = t.rng
    kind = ["M", "H", "E", "Gamma", "C", "D", "Uniform"][t.idx % 7]
    law = random_law(rng, kind, logu(rng, 1e-3, 1e3))
    ro = float(rng.choice([rng.uniform(.01, .99), rng.uniform(.9, .995)]))
    l = ro / law.mean()
    num = int(rng.integers(1, 6))
    nb = int(rng.integers(2, 7))
    b = law.moments(nb)
    k = min(num, nb - 1)
    t.params(law=repr(law), l=l, num=num, nb=nb)
    t.sig(kind, round(ro, 1), round(math.log10(law.mean())), k)
    full = law.moments(nb)
    want = wait_moments_mg1(l, full, k)
    with sut(t, "mg1"):
        w = M.get_w(l, list(b), num)
        t.require("count", len(w) == k, f"{len(w)} wait moments, expected {k}")
        t.closev("wait", w, want, rtol=1e-8)
        v = M.get_v(l, list(b), num)
        t.require("count", len(v) == k, f"{len(v)} sojourn moments, expected {k}")
        t.closev("sojourn", v, add_moments(want, full), rtol=1e-8)
        if nb >= 4:
            t.require("default", len(M.get_w(l, b)) == 3 and len(M.get_v(l, b)) == 3, "default is three moments")
    t.count("waits")
    t.sample(w=want)


def probs(t):
    from most_queue.theory import mg1_calc as M
    rng = t.rng
    name = ["Gamma", "Uniform", "Pa", "Gamma"][t.idx % 4]
    ro = any_load(rng, .05, .97)
    mean = logu(rng, .01, 100)
    cv = any_cv(rng, .3, 2.5) if name != "Uniform" else float(rng.uniform(.02, .577))
    if t.idx % 4 == 3:
        cv = 1.0
    if name == "Pa" and rng.random() < .2:
        cv = 1 / math.sqrt(float(rng.choice([3, 8])))     # whole alpha
    l = ro / mean
    b = [mean, mean ** 2 * (1 + cv * cv), 7 * mean ** 3]
    num = int(rng.integers(2, 101)) if rng.random() < .9 else int(rng.integers(101, 160))
    t.params(dist=name, l=l, mean=mean, cv=cv, num=num)
    t.sig(name, round(ro, 1), round(cv, 1))
    if name == "Gamma":
        al = 1 / cv ** 2
        law = Law("Gamma", [al / mean, al])
    elif name == "Uniform":
        law = Law("Uniform", [mean, mean * cv * math.sqrt(3)])
    else:
        a = 1 + math.sqrt(1 + 1 / cv ** 2)
        law = Law("Pa", [a, mean * (a - 1) / a])
    with sut(t, "mg1-p"):
        p = M.get_p(l, b, num, name) if name != "Gamma" or t.idx % 8 else M.get_p(l, b, num)
    if t.fails:
        return
    t.require("p-count", len(p) == num, f"{len(p)} probabilities instead of {num}")
    lost = 1e-12 / (l * law.p[1]) if name == "Uniform" else 0     # the counts are differences over a narrow interval
    t.close("p0", p[0], 1 - ro, rtol=1e-9)
    q = [mixed_poisson(l, law, j) for j in range(num)]
    for k in range(num - 1):
        rhs = p[0] * q[k] + sum(p[j] * q[k - j + 1] for j in range(1, k + 2))
        if not t.close("balance", p[k], rhs, rtol=1e-7, atol=1e-10 + lost, msg=f"embedded-chain balance of state {k}"):
            break
    t.require("p-non-negative", min(p) >= -1e-10 - lost, f"negative probability {min(p)}")
    t.require("p-sum", sum(p) <= 1 + 1e-9 + lost, f"probabilities sum to {sum(p)}")
    if name != "Pa":
        c = series_coeffs(lambda z: (1 - ro) * (1 - z) * law_lst(law, l * (1 - z)) / (law_lst(law, l * (1 - z)) - z), num)
        t.closev("p", p, c, rtol=1e-6, atol=1e-8 + lost, msg="P-K state probability")
    t.count("probs")
    t.sample(p=p[:4])


def law_lst(law, s):
    if law.kind == "Uniform":
        m, h = law.p
        small = abs(s * h) < 1e-6
        sh = np.where(small, 1, s * h)
        return np.exp(-s * m) * np.where(small, 1 + (s * h) ** 2 / 6, np.sinh(sh) / sh)
    return law.lst(s)


def warm(t):
    """Exceptional first service: sojourn moments from the transform's series, with the Gamma laws the calculator documents."""
    from most_queue.theory import mg1_warm_calc as W
    rng = t.rng
    mean, unit = float(rng.uniform(.2, 3)), logu(rng, 1e-2, 1e2)
    ro = any_load(rng, .05, .95)
    mean *= unit
    cv = any_cv(rng, .3, 2)
    wmean, wcv = mean * (float(rng.uniform(.3, 5)) if rng.random() < .8 else logu(rng, .01, 50)), any_cv(rng, .3, 2)
    if t.idx % 5 == 0:
        wmean, wcv = mean, cv            # no exception: plain M/G/1
    l = ro / mean
    G = lambda m, c: Law("Gamma", [1 / c ** 2 / m, 1 / c ** 2])
    B, Wl = G(mean, cv), G(wmean, wcv)
    t.params(l=l, b=[mean, cv], warm=[wmean, wcv])
    t.sig(round(ro, 1), round(wmean / mean, 1), round(math.log10(unit)))
    with sut(t, "mg1-warm"):
        v = W.get_v(l, B.moments(3), Wl.moments(3))
    if t.fails:
        return
    # independent: wait moments by conditioning. First customers (prob p0) have sojourn Wl; numbers left behind
    # have PGF with s = l(1-z); expand with exact rational-style series on moments b_k, w_k
    b, w = [1.0] + B.moments(4), [1.0] + Wl.moments(4)
    p0 = (1 - ro) / (1 - ro + l * wmean)
    # V(s) (s - l + l B(s)) = p0 ( (s - l) W(s) + l B(s) )  coefficient-wise in s^k, signs (-1)^k / k!
    S = lambda m: np.array([(-1) ** k * m[k] / math.factorial(k) for k in range(5)])
    bs, ws = S(b), S(w)
    num = np.zeros(6); num[1:] += ws; num[:5] += -l * ws + l * bs
    den = np.zeros(6); den[1] = 1; den[0] = -l; den[:5] += l * bs
    num *= p0
    out = []
    for k in range(4):
        out.append((num[k + 1] - sum(out[j] * den[k + 1 - j] for j in range(k))) / den[1])
    want = [(-1) ** k * math.factorial(k) * out[k] for k in range(4)]
    t.close("warm-total", want[0], 1, rtol=1e-8, msg="oracle check")
    t.closev("warm", v, want[1:], rtol=1e-6, msg="sojourn moment with warm-up")
    if t.idx % 5 == 0:
        t.closev("warm-plain", v, add_moments(wait_moments_mg1(l, B.moments(4), 3), B.moments(3)), rtol=1e-6)
    t.count("warm")
    t.sample(v=want)


GROUPS = {"moments": (moments, 3360, 42000), "probs": (probs, 1920, 24000), "warm": (warm, 1920, 24000)}
