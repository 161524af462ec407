"""Q22: distribution function, density, tail, moments and transforms of each family agree with their definitions."""
import math, sys
import numpy as np
from scipy import special, stats
from mq.core import sut
from mq.fam import Law, random_law, logu

PROPERTY = "Q22"
ROUND = True
RULE = "distinct (family, function, position of the argument: below / at / inside / beyond the support) evaluations"
NEED = {"points": 2000, "helpers": 300}


def points(rng, l, n=14):
    mean, sd = l.mean(), math.sqrt(l.var()) if math.isfinite(l.moments(2)[1]) else l.mean()
    lo = {"Pa": l.p[1] if l.kind == "Pa" else 0, "Uniform": (l.p[0] - l.p[1]) if l.kind == "Uniform" else 0}.get(l.kind, 0)
    xs = [-mean, -1e-9 * mean, lo - .1 * mean, lo + 1e-6 * mean, lo * .5, mean, mean + sd, mean + 5 * sd]
    if l.kind == "Uniform":
        hi = l.p[0] + l.p[1]
        xs += [hi * 1.000001, hi * 2, hi * .999999]
    xs += list(rng.uniform(0, 3 * mean, n)) + [mean * logu(rng, 1e-3, 30) for _ in range(4)]
    return [float(x) for x in xs]


def api(kind, p):
    import most_queue.rand_distribution as rd
    if kind == "H":
        H = rd.H2_dist
        return dict(cdf=lambda x: H.get_cdf(p, x), pdf=lambda x: H.get_pdf(p, x), tail=lambda x: H.get_tail(p, x),
                    moments=lambda k: H.calc_theory_moments(*p, k))
    if kind == "E":
        E = rd.Erlang_dist
        return dict(cdf=lambda x: E.get_cdf(p, x), tail=lambda x: E.get_tail(p, x), moments=lambda k: E.calc_theory_moments(*p, k))
    if kind == "Gamma":
        G = rd.Gamma
        return dict(cdf=lambda x: G.get_cdf(*p, x), pdf=lambda x: G.get_pdf(*p, x), f=lambda x: G.get_f(*p, x),
                    moments=lambda k: G.calc_theory_moments(*p, k))
    if kind == "Pa":
        P = rd.Pareto_dist
        return dict(cdf=lambda x: P.get_cdf(p, x), pdf=lambda x: P.get_pdf(x, *p), tail=lambda x: P.get_tail(p, x),
                    moments=lambda k: P.calc_theory_moments(*p, k))
    if kind == "Uniform":
        U = rd.Uniform_dist
        return dict(cdf=lambda x: U.get_cdf(*p, x), pdf=lambda x: U.get_pdf(*p, x), tail=lambda x: U.get_tail(*p, x),
                    moments=lambda k: U.calc_theory_moments(*p, k))
    if kind == "C":
        return dict(moments=lambda k: rd.Cox_dist.calc_theory_moments(*p))
    if kind == "M":
        return dict(moments=lambda k: rd.Exp_dist.calc_theory_moments(p, k))


def family(t):
    rng = t.rng
    kind = ["H", "E", "Gamma", "Pa", "Uniform", "C", "M"][t.idx % 7]
    l = random_law(rng, kind, logu(rng, .01, 100), cv=logu(rng, .02, .1) if kind == "Gamma" and rng.random() < .06 else None)
    t.params(law=repr(l))
    a = api(kind, l.p)
    xs = points(rng, l)
    got = {}
    with sut(t, "functions"):
        for name, f in a.items():
            if name == "moments":
                continue
            got[name] = [float(f(x)) for x in xs]
    if t.fails:
        return
    for name, vals in got.items():
        for x, v in zip(xs, vals):
            t.count("points")
            where = "below" if x < 0 else "inside"
            t.sig(kind, name, where, round(math.log10(abs(x) / l.mean() + 1e-9), 1))
            if name == "cdf":
                t.close(f"{kind}-cdf", v, float(l.cdf(x)), rtol=1e-8, atol=1e-10, msg=f"{l} CDF at {x}")
            elif name == "tail":
                t.close(f"{kind}-tail", v, 1 - float(l.cdf(x)), rtol=1e-8, atol=1e-10, msg=f"{l} tail at {x}")
            else:
                w = float(l.pdf(x))
                if kind == "Gamma" and abs(l.p[0] * x) < 1e-11:
                    continue
                if kind in ("Uniform", "Pa"):      # the value at an end point of the support is a matter of convention and rounding
                    ends = (l.p[0] - l.p[1], l.p[0] + l.p[1]) if kind == "Uniform" else (l.p[1],)
                    if any(abs(x - e) < 1e-9 * l.mean() for e in ends):
                        continue
                t.close(f"{kind}-pdf", v, w, rtol=1e-7, atol=1e-10 / l.mean(), msg=f"{l} density at {x}")
    if "cdf" in got:
        o = np.argsort(xs)
        c = np.array(got["cdf"])[o]
        t.require(f"{kind}-monotone", np.all(np.diff(c) >= -1e-12) and c[0] >= -1e-12 and c[-1] <= 1 + 1e-12, "distribution function is not monotone in [0,1]")
    # moments: against closed forms and (density families) the integral of x^k f
    with sut(t, "moments"):
        for k in (1, 2, 3, 5):
            m = a["moments"](k)
            w = l.moments(max(k, 3))
            if kind == "C":
                k = 3
            if kind == "Pa":
                w = [x for x in w[:k] if math.isfinite(x)]
            t.require(f"{kind}-moment-count", len(m) == len(w[:k]), f"{len(m)} moments instead of {len(w[:k])}")
            t.closev(f"{kind}-moments", m, w[:k], rtol=1e-8)
    if kind == "Uniform" or (kind in ("Gamma", "H") and t.idx % 3 == 0):
        from scipy.integrate import quad
        top = l.p[0] + l.p[1] if kind == "Uniform" else l.mean() + 40 * math.sqrt(l.var())
        if kind == "H":
            top = 60 / min(l.p[1:])
        bot = max(0, l.p[0] - l.p[1]) if kind == "Uniform" else 0
        if kind != "Gamma" or l.p[1] > 1:
            with sut(t, "density"):
                # pieces no longer than the time scales of the law
                cuts = [bot, top]
                x = min(1 / max(l.p[1:]) if kind == "H" else l.mean() / 10, top)
                while kind != "Uniform" and x < top:
                    cuts.insert(-1, x)
                    x *= 4
                v = sum(quad(lambda x: x * a["pdf"](x), lo, hi, limit=300)[0] for lo, hi in zip(cuts, cuts[1:]))
                t.close(f"{kind}-pdf-mean", v, l.mean(), rtol=1e-5, msg="integral of x times the density")
    t.sample()


def residual(t):
    """Residual law of H2 (integrated tail over the mean), Laplace transform of Gamma."""
    import most_queue.rand_distribution as rd
    rng = t.rng
    l = random_law(rng, "H", logu(rng, .01, 100))
    t.params(law=repr(l))
    with sut(t, "residual"):
        p = rd.H2_dist.get_residual_params(list(l.p))
        t.require("residual-count", len(p) == 3, f"{p}")
        m = l.moments(4)
        want = [m[k] / ((k + 1) * m[0]) for k in (1, 2, 3)]
        t.closev("residual", Law("H", p).moments(3), want, rtol=1e-9, msg="residual moments f[k+1]/((k+1) f1)")
    g = random_law(rng, "Gamma", logu(rng, .01, 100))
    for s in (0.0, .1 / g.mean(), 1 / g.mean(), 7 / g.mean(), 100 / g.mean(), -.3 * g.p[0]):
        with sut(t, "pls"):
            t.close("gamma-pls", rd.Gamma.get_pls(g.p[0], g.p[1], s), float(g.lst(s)), rtol=1e-9)
            t.count("helpers")
    t.sig("residual", t.idx)


def gammafun(t):
    import most_queue.rand_distribution as rd
    G = rd.Gamma
    rng = t.rng
    x = float(rng.uniform(0.02, 20)) if rng.random() < .9 else float(rng.uniform(20, 150))
    t.params(x=x)
    t.sig("gamma", round(x, 1))
    with sut(t, "gamma"):
        t.close("get_gamma", G.get_gamma(x), special.gamma(x), rtol=1e-9)
        for v in (1.0, 2.0, 1.5, .5, float(rng.integers(1, 15))):
            t.close("get_gamma", G.get_gamma(v), special.gamma(v), rtol=1e-9)
        y = float(rng.uniform(1, 2))
        t.close("gamma_approx", G.gamma_approx(y), special.gamma(y), rtol=1e-9)
        n = -float(rng.integers(0, 6)) - float(rng.uniform(.05, .95))
        t.close("get_gamma-negative", G.get_gamma(n), special.gamma(n), rtol=1e-8)
        t.close("get_minus_gamma", G.get_minus_gamma(-n), special.gamma(n), rtol=1e-8)
        z = logu(rng, .01, 6)
        s = float(rng.uniform(.2, 6)) if rng.random() < .85 else logu(rng, .01, .2)
        t.close("get_gamma_small", G.get_gamma_small(s, z), special.gammainc(s, z) * special.gamma(s), rtol=1e-6, atol=1e-8)
        t.close("get_gamma_incomplete", G.get_gamma_incomplete(s, z), special.gammaincc(s, z) * special.gamma(s), rtol=1e-6, atol=1e-8)
        z = logu(rng, .01, 80)
        s = float(rng.uniform(.02, 40))
        t.close("get_gamma_incomplete", G.get_gamma_incomplete(s, z), special.gammaincc(s, z) * special.gamma(s), rtol=1e-6, atol=1e-8)
        t.count("helpers", 11)


def weibull(t):
    """The Weibull helpers (imported with the module name they expect)."""
    import importlib
    import most_queue.rand_distribution as rd
    rng = t.rng
    sys.modules.pop("most_queue.theory.utils.weibull", None)
    if t.idx == 0:
        sys.modules.pop("rand_distribution", None)
        try:
            importlib.import_module("most_queue.theory.utils.weibull")
        except ModuleNotFoundError as e:
            t.fail("weibull-import", f"most_queue.theory.utils.weibull cannot be imported: {e}")
        except Exception as e:
            t.fail("weibull-import-other", f"most_queue.theory.utils.weibull cannot be imported: {type(e).__name__} {e}")
        sys.modules.pop("most_queue.theory.utils.weibull", None)
    sys.modules["rand_distribution"] = rd
    W = importlib.import_module("most_queue.theory.utils.weibull").Weibull
    mean, cv = logu(rng, .05, 20), float(rng.uniform(.3, 2.5))
    t.params(mean=mean, cv=cv)
    t.sig("weibull", round(cv, 1), round(math.log10(mean)))
    f2 = mean ** 2 * (1 + cv * cv)
    with sut(t, "weibull"):
        k, T = W.get_params([mean, f2]) if t.idx % 2 else W.get_params_by_mean_and_coev(mean, cv)
        m = [T ** (i / k) * special.gamma(1 + i / k) for i in (1, 2)]
        t.closev("weibull-moments", m, [mean, f2], rtol=1e-4)
        xs = [float(x) for x in rng.uniform(0, 3 * mean, 8)]
        w = [math.exp(-x ** k / T) for x in xs]
        t.closev("weibull-tail", W.get_tail([k, T], xs), w, rtol=1e-9)
        t.closev("weibull-cdf", W.get_cdf([k, T], xs), [1 - v for v in w], rtol=1e-9)
        f = [mean, f2, f2 * mean * (1 + 2 * cv * cv) * float(rng.uniform(.95, 1.05))]
        p = W.get_params(f, 5)
        t.require("weibull-corrected-count", len(p) == 5, f"{len(p)} parameters")
        k, T, *g = p
        got = [i * sum(g[j] * special.gamma((i + j) / k) * T ** ((i + j) / k) for j in range(3)) / k for i in (1, 2, 3)]
        t.closev("weibull-corrected", got, f, rtol=1e-5, msg="moments of the corrected tail")
        t.closev("weibull-corrected-tail", W.get_tail(p, xs), [sum(g[j] * x ** j for j in range(3)) * math.exp(-x ** k / T) for x in xs], rtol=1e-7, atol=1e-9)
        t.count("helpers", 5)


GROUPS = {"family": (family, 5040, 42000), "residual": (residual, 960, 8000), "gammafun": (gammafun, 1920, 16000), "weibull": (weibull, 960, 8000)}
