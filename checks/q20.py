"""Q20: fitted parameters reproduce the moments they were fitted to (own moment formulas as oracle)."""
import cmath, math
import numpy as np
from mq.core import sut
from mq.fam import Law, logu, random_law, gamma_moments

PROPERTY = "Q20"
ROUND = True
RULE = "distinct (family, decade of the mean, cv bucket, fitting function) cases in which a fit was made and judged"
NEED = {"fits": 300}


def rd():
    import most_queue.rand_distribution as m
    return m


def h2_mom(p, k=3):
    y, a, b = p
    return [math.factorial(i) * (y / a ** i + (1 - y) / b ** i) for i in range(1, k + 1)]


def cox_mom(p):
    y, a, b = p
    out = []
    for i in range(1, 4):
        out.append(math.factorial(i) * ((1 - y) / a ** i + y * sum(1 / (a ** j * b ** (i - j)) for j in range(i + 1))))
    return out


def note(t, fam, mean, cv, how):
    t.count("fits"); t.count("fits_" + fam)
    t.sig(fam, how, round(math.log10(mean)), round(cv, 1))
    t.params(family=fam, how=how, mean=mean, cv=cv)


def h2(t):
    """Real H2: three moments of a true H2, the first two for a third below the H2 minimum, mean+cv."""
    rng = t.rng
    H = rd().H2_dist
    mean = logu(rng, 1e-3, 1e3)
    mode = t.idx % 3
    if mode == 0:
        f = random_law(rng, "H", mean).moments(3)
        cv = math.sqrt(max(f[1] - f[0] ** 2, 0)) / f[0]
        note(t, "H2", mean, cv, "3 moments")
        if cv < 1.02:
            return
        with sut(t, "H2.get_params"):
            p = H.get_params(list(f))
        if t.fails:
            return
        t.closev("H2-moments", h2_mom(p), f, rtol=2e-6, fit=p)
        t.closev("H2-own-moments", H.calc_theory_moments(*p), h2_mom(p), rtol=1e-9)
        t.closev("H2-moments-num", H.calc_theory_moments(*p, 5), h2_mom(p, 5), rtol=1e-9)
    elif mode == 1:
        cv = float(rng.uniform(1.05, 4))
        f2 = mean ** 2 * (1 + cv * cv)
        f3 = 1.5 * (1 + cv * cv) ** 2 * mean ** 3 * float(rng.uniform(.7, .999))
        note(t, "H2", mean, cv, "third too small")
        with sut(t, "H2.get_params"):
            p = H.get_params([mean, f2, f3])
        if t.fails:
            return
        t.closev("H2-2-moments", h2_mom(p, 2), [mean, f2], rtol=5e-6, fit=p)
    else:
        cv = float(rng.choice([1.0, rng.uniform(1.001, 8), rng.uniform(1.0, 1.2)]))
        note(t, "H2", mean, cv, "mean+cv")
        with sut(t, "H2.get_params_by_mean_and_coev"):
            p = H.get_params_by_mean_and_coev(mean, cv)
        if t.fails:
            return
        t.closev("H2-mean-cv", h2_mom(p, 2), [mean, mean ** 2 * (1 + cv * cv)], rtol=2e-6, fit=p)
        if cv > 1.02:
            t.closev("H2-mean-cv-3", h2_mom(p), gamma_moments(mean, cv), rtol=2e-6, fit=p)
    ok = all(isinstance(x, (int, float)) for x in p) and -1e-9 <= p[0] <= 1 + 1e-9 and p[1] > 0 and p[2] > 0
    t.require("H2-valid", ok, f"fitted H2 parameters {p} are not a probability and two positive rates")
    t.sample(fit=list(map(str, p)))


def near_special(cv):
    return abs(cv - 1) < 0.02 or abs(cv - math.sqrt(.5)) < 0.02


def h2clx(t):
    rng = t.rng
    H = rd().H2_dist
    mean = logu(rng, 1e-3, 1e3)
    cv = float(rng.choice([rng.uniform(0.2, 3), rng.uniform(0.2, 1), 1.0, math.sqrt(.5), 1 + rng.uniform(-3e-3, 3e-3)]))
    f = gamma_moments(mean, cv)
    if t.idx % 3 == 2:
        f[2] *= float(rng.uniform(0.9, 1.3))
    note(t, "H2clx", mean, cv, "special" if near_special(cv) else "3 moments")
    with sut(t, "H2.get_params_clx"):
        p = H.get_params_by_mean_and_coev(mean, cv, is_clx=True) if t.idx % 3 == 0 else H.get_params_clx(list(f), verbose=False)
    if t.fails:
        return
    m = h2_mom(p)
    t.closev("H2clx-own-moments", H.calc_theory_moments(*p), m, rtol=1e-8)
    d = min(abs(cv - 1), abs(cv - math.sqrt(.5)))
    if abs(d - 1e-3) < 1e-6:
        t.count("on_the_border")
    elif d < 1e-3:
        # the two phases coincide: replaced by the gamma law a little beside it
        g = gamma_moments(mean, cv)
        t.close("H2clx-special", m[0], f[0], rtol=1e-6, msg="mean of the fit", fit=p)
        t.close("H2clx-special", m[1], f[1], rtol=1e-2, msg="second moment of the fit", fit=p)
        t.close("H2clx-special", m[2], g[2], rtol=2e-2, msg="third moment of the fit", fit=p)
    elif near_special(cv):
        t.closev("H2clx-moments", m, f, rtol=1e-4, fit=p)
    else:
        t.closev("H2clx-moments", m, f, rtol=1e-6, fit=p)
    t.sample(fit=[str(x) for x in p])


def cox(t):
    rng = t.rng
    C = rd().Cox_dist
    mean = logu(rng, 1e-3, 1e3)
    cv = float(rng.choice([rng.uniform(0.2, 3), rng.uniform(0.2, 1), rng.uniform(1.05, 5), 1.0, math.sqrt(.5)]))
    f = gamma_moments(mean, cv)
    mode = t.idx % 3
    if mode == 2:
        l = random_law(rng, "C", mean)
        f = l.moments(3); cv = math.sqrt(f[1] - f[0] ** 2) / f[0]
    special = abs(f[1] / 2 / f[0] ** 2 - 1) < 0.0011 or abs(f[1] / 2 / f[0] ** 2 - .75) < 0.0011
    note(t, "C2", mean, cv, "special" if special else ["mean+cv", "3 moments", "3 moments of a C2"][mode])
    if mode == 2 and not special:
        # the discriminant may vanish: ill-conditioned fits are only judged loosely
        g = [f[0], f[1] / 2, f[2] / 6]
        if abs(g[1] ** 2 - g[0] * g[2]) < 1e-4 * g[1] ** 2 or abs(g[1] - g[0] ** 2) < 1e-2 * g[0] ** 2:
            t.count("ill_conditioned")
            return
    with sut(t, "Cox.get_params"):
        p = C.get_params_by_mean_and_coev(mean, cv) if mode == 0 else C.get_params(list(f), verbose=False)
    if t.fails:
        return
    m = cox_mom(p)
    if special:
        for i in range(3):
            t.close("C2-special", m[i].real, f[i], rtol=1e-5, msg=f"real part of fitted moment {i+1}", fit=p)
    else:
        t.closev("C2-moments", m, f, rtol=2e-6, fit=p)
        if all(abs(complex(x).imag) <= 1e-9 * abs(x) for x in p) and cv > 1.05 and mode != 2:
            y, a, b = [complex(x).real for x in p]
            t.require("C2-valid", -1e-9 <= y <= 1 + 1e-9 and a > 0 and b > 0, f"fitted Cox parameters {p} are invalid")
    q = [float(rng.uniform(0, 1)), logu(rng, .01, 100), logu(rng, .01, 100)]
    t.closev("C2-own-moments", C.calc_theory_moments(*q), cox_mom(q), rtol=1e-9)
    t.sample(fit=[str(x) for x in p])


def two(t):
    """Gamma, Erlang, Pareto, Uniform, exponential."""
    rng = t.rng
    m = rd()
    mean = logu(rng, 1e-3, 1e3)
    cv = logu(rng, 0.15, 4) if rng.random() < .9 else logu(rng, .03, 10)
    var = (cv * mean) ** 2
    f = [mean, mean ** 2 + var, 0]
    k = t.idx % 9
    with sut(t, "fit"):
        if k in (0, 1):
            f = gamma_moments(mean, cv, 4)
            note(t, "Gamma", mean, cv, ["get_params", "mean+cv"][k])
            p = m.Gamma.get_params(f[:2]) if k == 0 else m.Gamma.get_mu_alpha_by_mean_and_coev(mean, cv)
            t.closev("Gamma-moments", Law("Gamma", p).moments(4), f, rtol=1e-8, fit=p)
            t.closev("Gamma-mu-alpha", m.Gamma.get_mu_alpha(f[:2]), list(p), rtol=1e-8)
            t.closev("Gamma-own-moments", m.Gamma.calc_theory_moments(*p, 6), Law("Gamma", p).moments(6), rtol=1e-9)
        elif k == 2:
            cv = float(rng.uniform(0.4, 2))
            f = gamma_moments(mean, cv, int(rng.integers(3, 6)))
            for i in range(2, len(f)):
                f[i] *= float(rng.uniform(0.9, 1.1))
            note(t, "Gamma", mean, cv, f"correction {len(f)}")
            mu, al, g = m.Gamma.get_params(list(f))
            # moments of the corrected density, from its definition
            got = []
            for i in range(1, len(f) + 1):
                got.append(sum(g[j] * math.exp(math.lgamma(al + i + j) - math.lgamma(al)) / mu ** (i + j) for j in range(len(g))))
            t.closev("Gamma-corrected", got, f, rtol=1e-5, fit=[mu, al, list(g)])
            zero = sum(g[j] * math.exp(math.lgamma(al + j) - math.lgamma(al)) / mu ** j for j in range(len(g)))
            t.close("Gamma-corrected-total", zero, 1, rtol=1e-6)
            x = mean * (float(rng.uniform(.1, 3)) if rng.random() < .8 else logu(rng, 1e-3, 15))
            base = float(Law("Gamma", [mu, al]).pdf(x))
            t.close("Gamma-corrected-density", m.Gamma.get_f_corrective(mu, al, g, x),
                    base * sum(g[j] * x ** j for j in range(len(g))), rtol=1e-8, atol=1e-12 * base)
        elif k in (3, 4):
            note(t, "Pareto", mean, cv, ["get_params", "mean+cv"][k - 3])
            p = m.Pareto_dist.get_params(f) if k == 3 else m.Pareto_dist.get_a_k_by_mean_and_coev(mean, cv)
            t.closev("Pareto-moments", Law("Pa", p).moments(2), f[:2], rtol=1e-8, fit=p)
            t.require("Pareto-valid", p[0] > 2 and p[1] > 0, f"invalid Pareto parameters {p}")
            own = m.Pareto_dist.calc_theory_moments(*p)
            t.require("Pareto-own-count", len(own) == min(3, sum(p[0] > i for i in (1, 2, 3))), f"{len(own)} moments for a={p[0]}")
            t.closev("Pareto-own-moments", own, Law("Pa", p).moments(3)[:len(own)], rtol=1e-8)
        elif k in (5, 6):
            note(t, "Uniform", mean, cv, ["get_params", "mean+cv"][k - 5])
            p = m.Uniform_dist.get_params(f) if k == 5 else m.Uniform_dist.get_params_by_mean_and_coev(mean, cv)
            t.closev("Uniform-moments", Law("Uniform", p).moments(2), f[:2], rtol=1e-8, fit=p)
            t.require("Uniform-valid", p[1] > 0, f"half interval {p[1]}")
            if cv > .02:
                t.closev("Uniform-own-moments", m.Uniform_dist.calc_theory_moments(*p), Law("Uniform", p).moments(3), rtol=1e-6, atol=1e-9 * mean ** 3)
        elif k == 7:
            cv = float(rng.uniform(0.1, 1)) if rng.random() < .9 else float(rng.uniform(.03, .1))
            f = [mean, mean ** 2 * (1 + cv * cv)]
            note(t, "Erlang", mean, cv, "2 moments / mean+cv")
            r, mu = m.Erlang_dist.get_params(f) if t.idx % 2 else m.Erlang_dist.get_params_by_mean_and_coev(mean, cv)
            t.require("Erlang-valid", isinstance(r, (int, np.integer)) and r >= 1, f"order {r}")
            t.close("Erlang-mean", r / mu, mean, rtol=1e-10)
            t.require("Erlang-order", abs(r - 1 / cv ** 2) <= .5 + 1e-6, f"order {r} is not the nearest to 1/cv^2={1/cv**2}")
            t.closev("Erlang-own-moments", m.Erlang_dist.calc_theory_moments(r, mu, 5), Law("E", [r, mu]).moments(5), rtol=1e-9)
        else:
            note(t, "Exp", mean, cv, "get_params")
            mu = m.Exp_dist.get_params([mean, 2 * mean ** 2, 6 * mean ** 3] if t.idx % 2 else f)
            t.close("Exp-mean", 1 / mu, mean, rtol=1e-10)
            t.closev("Exp-own-moments", m.Exp_dist.calc_theory_moments(mu, 5), Law("M", mu).moments(5), rtol=1e-9)
    t.sample()


GROUPS = {"h2": (h2, 4800, 60000), "h2clx": (h2clx, 3200, 40000), "cox": (cox, 3840, 48000), "two": (two, 4320, 54000)}
