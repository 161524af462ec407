"""Every public calculator as a uniform entry: how to draw its arguments (each with its dimension) and how to read
its results (each with its dimension).  Used by the purity (Q44) and the time-unit (Q45) monitors.

Argument: (kind, value) with kind R rate, RL list of rates, T time, M moments (k-th value has dimension time^k),
ML list of moment lists, MLL list of those, N anything without dimension.
Result kinds: p no dimension, r rate (nested), m moments of time (innermost list, k-th has time^k), t time (nested),
f1 / f2 scalar of dimension time / time^2."""
import copy
import math
import numpy as np
from mq.fam import logu, gamma_moments

ENTRIES = []


class Entry:
    def __init__(self, name, gen, call, tol=1e-7, cost=1, groups=("api",)):
        self.name, self.gen, self.call, self.tol, self.cost = name, gen, call, tol, cost


def entry(name, gen, call, **kw):
    ENTRIES.append(Entry(name, gen, call, **kw))


def scaled(a, c):
    k, v = a
    if k == "N":
        return copy.deepcopy(v)
    if k == "R":
        return v / c
    if k == "RL":
        return [x / c for x in v]
    if k == "T":
        return v * c
    if k == "TL":
        return [x * c for x in v]
    if k == "M":
        return [x * c ** (i + 1) for i, x in enumerate(v)]
    if k in ("ML", "MLL"):
        return [scaled(("M" if k == "ML" else "ML", x), c) for x in v]
    if k == "A":    # rate matrices
        return [np.array(x) / c for x in v]
    raise KeyError(k)


def rescale(kind, v, c):
    """Undo the change of the time unit on a result."""
    if kind == "p":
        return v
    if kind == "m":
        if isinstance(v, (list, tuple, np.ndarray)) and len(v) and isinstance(v[0], (list, tuple, np.ndarray)):
            return [rescale(kind, x, c) for x in v]
        return [x / c ** (i + 1) for i, x in enumerate(v)]
    if isinstance(v, (list, tuple, np.ndarray)):
        return [rescale(kind, x, c) for x in v]
    return v * c if kind == "r" else v / c if kind in ("t", "f1") else v / c ** 2


def mom(rng, mean, k=4, lo=.4, hi=1.8):
    return gamma_moments(mean, float(rng.uniform(lo, hi)), k)


def away(rng, mean, k=4):
    """Moments whose H2 fit is well conditioned."""
    cv = float(rng.choice([rng.uniform(.6, .85), rng.uniform(1.15, 1.9)]))
    return gamma_moments(mean, cv, k)


def load(rng, n=1, lo=.15, hi=.8):
    return float(rng.uniform(lo, hi)) * n


def classes(rng, n=1, same=False, k=4, hi=.8):
    K = int(rng.integers(2, 5))
    b = [mom(rng, float(rng.uniform(.3, 2)), k + 1) for _ in range(K)]
    if same:
        b = [list(b[0]) for _ in range(K)]
    w = rng.dirichlet(np.ones(K)) * load(rng, n, .2, hi)
    return [float(x / z[0]) for x, z in zip(w, b)], b


def simple(module, fn, *kinds, out, tol=1e-7, **kwargs):
    """An entry for a plain function: kinds are functions rng -> argument list."""
    def call(mod, *a):
        return {fn: (out, lambda: getattr(mod, fn)(*a, **kwargs))}
    return call


T = "most_queue.theory."


def mg1_args(rng):
    b = mom(rng, logu(rng, .3, 3), 6)
    return [("R", load(rng) / b[0]), ("M", b)]


entry("mg1.get_w", lambda r: mg1_args(r) + [("N", int(r.integers(1, 6)))], lambda I, l, b, k: {"w": ("m", lambda: I(T + "mg1_calc").get_w(l, b, k))})
entry("mg1.get_v", lambda r: mg1_args(r) + [("N", int(r.integers(1, 6)))], lambda I, l, b, k: {"v": ("m", lambda: I(T + "mg1_calc").get_v(l, b, k))})


def mg1_p(rng):
    d = str(rng.choice(["Gamma", "Uniform", "Pa"]))
    m = logu(rng, .3, 3)
    if d == "Gamma":
        b = mom(rng, m, 3)
    elif d == "Uniform":
        h = m * float(rng.uniform(.1, .9))
        b = [m, m * m + h * h / 3, m ** 3 + m * h * h]
    else:
        a = float(rng.uniform(3.3, 8))
        k = m * (a - 1) / a
        b = [a * k ** i / (a - i) for i in (1, 2, 3)]
    return [("R", load(rng, hi=.7) / b[0]), ("M", b), ("N", int(rng.integers(10, 40))), ("N", d)]


entry("mg1.get_p", mg1_p, lambda I, l, b, num, d: {"p": ("p", lambda: I(T + "mg1_calc").get_p(l, b, num, d))}, tol=1e-6)


def warm_args(rng):
    b = mom(rng, logu(rng, .3, 3), 5)
    return [("R", load(rng) / b[0]), ("M", b), ("M", mom(rng, logu(rng, .1, 5), 5))]


entry("mg1_warm.get_v", warm_args, lambda I, l, b, w: {"v": ("m", lambda: I(T + "mg1_warm_calc").get_v(l, b, w))})


def mmnr_args(rng):
    n = int(rng.integers(1, 6))
    mu = logu(rng, .3, 3)
    return [("R", float(rng.uniform(.2, 1.5)) * n * mu), ("R", mu), ("N", n), ("N", int(rng.integers(1, 20)))]


def mmnr(I, l, mu, n, r):
    m = I(T + "mmnr_calc").MMnr_calc
    return {"p": ("p", lambda: m.get_p(l, mu, n, r)), "pi": ("p", lambda: m.getPI(l, mu, n, r)), "Q": ("p", lambda: m.getQ(l, mu, n, r)),
            "qs": ("p", lambda: m.get_qs(l, mu, n, r)), "w": ("m", lambda: m.get_w(l, mu, n, r)), "v": ("m", lambda: m.get_v(l, mu, n, r))}


entry("mmnr", mmnr_args, mmnr)


def gi_args(rng):
    n = int(rng.integers(2, 6))
    mu = logu(rng, .3, 3)
    a = 1 / (load(rng, n, .2, .85) * mu)
    if rng.integers(0, 3):
        return [("M", mom(rng, a, 4)), ("R", mu), ("N", n), ("N", "Gamma")]
    al = float(rng.uniform(2.2, 6))
    k = a * (al - 1) / al
    return [("M", [al * k ** i / (al - i) for i in (1, 2)]), ("R", mu), ("N", n), ("N", "Pa")]


def gi_n(I, a, mu, n, d):
    m = I(T + "gi_m_n_calc")
    return {"pi": ("p", lambda: m.get_pi(a, mu, n, 30, approx_distr=d)), "p": ("p", lambda: m.get_p(a, mu, n, 30, approx_distr=d)),
            "w": ("m", lambda: m.get_w(a, mu, n, 30, approx_distr=d)), "v": ("m", lambda: m.get_v(a, mu, n, 30, approx_distr=d))}


def gi_1(I, a, mu, n, d):
    m = I(T + "gi_m_1_calc")
    mu = mu * n
    return {"pi": ("p", lambda: m.get_pi(a, mu, 30, approx_distr=d)), "p": ("p", lambda: m.get_p(a, mu, 30, approx_distr=d)),
            "w": ("m", lambda: m.get_w(a, mu, approx_distr=d)), "v": ("m", lambda: m.get_v(a, mu, approx_distr=d))}


entry("gi_m_n", gi_args, gi_n, tol=1e-6)
entry("gi_m_1", gi_args, gi_1, tol=1e-6)


def mdn_args(rng):
    n = int(rng.integers(1, 5))
    b = logu(rng, .3, 3)
    return [("R", load(rng, n, .2, .8) / b), ("T", b), ("N", n)]


entry("m_d_n", mdn_args, lambda I, l, b, n: {"p": ("p", lambda: I(T + "m_d_n_calc").M_D_n(l, b, n, p_num=40).calc_p())})


def ekdn_args(rng):
    k, n = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    b = logu(rng, .3, 3)
    return [("R", load(rng, n, .2, .8) * k / b), ("N", k), ("T", b), ("N", n)]


entry("ek_d_n", ekdn_args, lambda I, l, k, b, n: {"p": ("p", lambda: I(T + "ek_d_n_calc").Ek_D_n(l, k, b, n, p_num=40).calc_p())})


def tt_args(rng):
    n = int(rng.integers(1, 5))
    b = away(rng, logu(rng, .3, 3), 4)
    buf = None if rng.integers(0, 2) else int(rng.integers(1, 10))
    return [("N", n), ("R", load(rng, n, .2, .75) / b[0]), ("M", b), ("N", buf)]


def tt(I, n, l, b, buf):
    m = I(T + "mgn_tt").MGnCalc(n, l, b, buffer=buf, N=60, accuracy=1e-9)
    m.run()
    return {"p": ("p", m.get_p), "w": ("m", m.get_w), "v": ("m", m.get_v)}


entry("mgn_tt", tt_args, tt, tol=1e-5, cost=3)


def vac_args(rng):
    n = int(rng.integers(1, 4))
    b1 = logu(rng, .3, 3)
    b = away(rng, b1, 4)
    return [("R", load(rng, n, .2, .6) / b1), ("M", b), *[("M", away(rng, b1 * logu(rng, .2, 3), 4)) for _ in range(3)], ("N", n)]


def warm_h2(I, l, b, bw, bc, bd, n):
    m = I(T + "m_h2_h2warm").Mh2h2Warm(l, b, bw, n, N=50, accuracy=1e-9)
    m.run()
    return {"p": ("p", m.get_p), "w": ("m", m.get_w), "v": ("m", m.get_v)}


def delay_h2(I, l, b, bw, bc, bd, n):
    m = I(T + "mgn_with_h2_delay_cold_warm").MGnH2ServingColdWarmDelay(l, b, bw, bc, bd, n, N=50, accuracy=1e-9)
    m.run()
    return {"p": ("p", m.get_p), "w": ("m", m.get_w), "v": ("m", m.get_v), "warm": ("p", m.get_warmup_prob), "cold": ("p", m.get_cold_prob),
            "delay": ("p", m.get_cold_delay_prob), "idle": ("p", m.get_idle_prob)}


def cold_h2(I, l, b, bw, bc, bd, n):
    m = I(T + "mmn_with_h2_cold_and_h2_warmup").MMn_H2warm_H2cold(l, 1 / b[0], bw, bc, n, N=50, accuracy=1e-9)
    m.run()
    return {"p": ("p", m.get_p), "w": ("m", m.get_w), "v": ("m", m.get_v), "b": ("m", m.get_b), "warm": ("p", m.get_warmup_prob), "cold": ("p", m.get_cold_prob)}


entry("m_h2_h2warm", vac_args, warm_h2, tol=1e-4, cost=5)
entry("h2_delay_cold_warm", vac_args, delay_h2, tol=1e-4, cost=8)
entry("h2_cold_h2_warm", vac_args, cold_h2, tol=1e-4, cost=5)


def batch_args(rng):
    k = int(rng.integers(1, 6))
    q = [float(x) for x in rng.dirichlet(np.ones(k))]
    mu = logu(rng, .3, 3)
    return [("R", load(rng) * mu / sum((i + 1) * x for i, x in enumerate(q))), ("R", mu), ("N", q)]


def batch(I, l, mu, q):
    m = I(T + "batch_mm1").BatchMM1(l, mu, q, p_num=400)
    return {"p": ("p", m.get_p), "N": ("p", m.get_N), "Q": ("p", m.get_Q), "w1": ("t", m.get_w1), "v1": ("t", m.get_v1)}


entry("batch_mm1", batch_args, batch)


def engset(I, lam, mu, m):
    e = I(T + "engset_model").Engset(lam, mu, m)
    return {"p": ("p", e.get_p), "N": ("p", e.get_N), "Q": ("p", e.get_Q), "kg": ("p", e.get_kg), "lam": ("r", e.get_lamD), "w1": ("t", e.get_w1),
            "v1": ("t", e.get_v1), "w": ("m", e.get_w), "v": ("m", e.get_v)}


entry("engset", lambda r: [("R", logu(r, .05, 2)), ("R", logu(r, .3, 3)), ("N", int(r.integers(2, 12)))], engset)


def impatience(I, l, mu, g):
    m = I(T + "impatience_calc")
    return {"p0": ("p", lambda: m.get_p0(l, mu, g)), "p": ("p", lambda: m.get_p(l, mu, g)), "N": ("p", lambda: m.get_N(l, mu, g)), "Q": ("p", lambda: m.get_Q(l, mu, g)),
            "w1": ("t", lambda: m.get_w1(l, mu, g)), "v1": ("t", lambda: m.get_v1(l, mu, g))}


entry("impatience", lambda r: [("R", logu(r, .1, 5)), ("R", logu(r, .3, 3)), ("R", logu(r, .1, 3))], impatience)


def cls_args(rng):
    l, b = classes(rng)
    return [("RL", l), ("ML", b)]


def prio(I, l, b):
    m = I(T + "priority_calc")
    out = {f: ("t", lambda f=f: getattr(m, f)(l, b)) for f in ("get_w1_pr", "get_w1_np")}
    out.update({f: ("m", lambda f=f: getattr(m, f)(l, b)) for f in ("get_w_np", "get_v_np", "get_w_mg1_bp", "get_v_mg1_bp", "climov_w_pr_calc")})
    for k in ("v", "w", "h", "w_with_pr", "pnz"):
        out["pr1_" + k] = ("m", lambda k=k: m.calc_pr1(l, b)[k])
    out["ppnz"] = ("m", lambda: m.ppnz_calc(l[0], b[0]))
    out["ppnz_warm"] = ("m", lambda: m.ppnz_calc_warm_up(l[0], b[1], m.ppnz_calc(l[0], b[0])))
    return out


entry("priority_calc", cls_args, prio)


def inv_args(rng):
    n = int(rng.integers(2, 4))
    K = int(rng.integers(2, 4))
    cv = float(rng.uniform(1.2, 1.6))
    b = [gamma_moments(float(rng.uniform(.5, 2)), cv, 4) for _ in range(K)]
    w = rng.dirichlet(np.ones(K)) * load(rng, n, .2, .7)
    return [("RL", [float(x / z[0]) for x, z in zip(w, b)]), ("ML", b), ("N", n)]


def invar(I, l, b, n):
    m = I(T + "priority_calc")
    out = {}
    for ty in ("NP", "PR"):
        out["w_" + ty] = ("m", lambda ty=ty: m.get_w_prty_invar(l, b, n, ty, N=60))
        out["v_" + ty] = ("m", lambda ty=ty: m.get_v_prty_invar(l, b, n, ty))
    out["w_no"] = ("m", lambda: m.get_w_MxGn_no_pr(l, b, n))
    out["v_no"] = ("m", lambda: m.get_v_MxGn_no_pr(l, b, n))
    return out


entry("priority_invar", inv_args, invar, tol=1e-4, cost=10)


def fj_args(rng):
    mu = logu(rng, .3, 3)
    n = int(rng.integers(2, 7))
    return [("R", mu * load(rng)), ("R", mu), ("N", n), ("N", int(rng.integers(1, n + 1)))]


def fj(I, l, mu, n, k):
    m = I(T + "fj_calc")
    out = {f: ("t", lambda f=f: getattr(m, f)(l, mu, n)) for f in ("get_v1_fj_varma", "get_v1_fj_nelson_tantawi", "get_v1_fj_varki_merchant", "get_v1_fj_invar", "get_v1_fj_invar_sj")}
    out["two"] = ("t", lambda: m.get_v1_fj2(l, mu))
    out["nk"] = ("t", lambda: m.get_v1_fj_nelson_nk(l, mu, n, k))
    out["varma_nk"] = ("t", lambda: m.get_v1_varma_nk(l, mu, n, k))
    return out


entry("fj_calc", fj_args, fj)


def max_args(rng):
    b = mom(rng, logu(rng, .3, 3), int(rng.choice([2, 3, 4])), .4, 1.6)
    d = [("N", 0), ("T", b[0] * float(rng.uniform(.1, 1))), ("M", mom(rng, b[0] * float(rng.uniform(.1, 1)), 3))][int(rng.integers(0, 3))]
    return [("N", int(rng.integers(2, 6))), ("M", b), d]


def fjmax(I, n, b, d):
    m = I(T + "fj_calc")
    return {"max": ("m", lambda: m.getMaxMoments(n, b)), "delta": ("m", lambda: m.getMaxMomentsDelta(n, b, 3, d)), "lmax": ("r", lambda: m.get_1ambda_max(b, n))}


entry("fj_max", max_args, fjmax, tol=1e-5, cost=10)


def fjv_args(rng):
    b = away(rng, logu(rng, .3, 3), 4)
    n = int(rng.integers(2, 4))
    return [("R", float(rng.uniform(.1, .5)) / (b[0] * sum(1 / i for i in range(1, n + 1)) * 1.3)), ("M", b), ("N", n)]


entry("fj_v", fjv_args, lambda I, l, b, n: {"max": ("m", lambda: I(T + "fj_calc").get_v_fj_max(l, b, n)), "invar": ("t", lambda: I(T + "fj_calc").get_v_fj_invar_tt(l, b, n)[0]),
                                                           "invar_high": ("m", lambda: [0] + list(I(T + "fj_calc").get_v_fj_invar_tt(l, b, n)[1:]))}, tol=1e-4, cost=20)


def net_args(rng):
    m, K = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    R = []
    for _ in range(K):
        X = np.zeros((m + 1, m + 1))
        for r in range(m + 1):
            w = rng.uniform(.05, 1, m + 1)
            if r == 0:
                w[m] = 0
            X[r] = w / w.sum()
        R.append(X)
    vis = [np.linalg.solve(np.eye(m) - X[1:, :m].T, X[0, :m]) for X in R]
    n = [int(rng.integers(1, 3)) for _ in range(m)]
    cv = float(rng.uniform(1.2, 1.5))
    L = [float(rng.uniform(.3, 1)) for _ in range(K)]
    b = [[None] * m for _ in range(K)]
    for i in range(m):
        ro = float(rng.uniform(.15, .7)) * n[i]
        for k in range(K):
            b[k][i] = gamma_moments(ro / K / (L[k] * vis[k][i]), cv, 4)
    return [("N", R), ("MLL", b), ("N", n), ("RL", L), ("N", [str(rng.choice(["NP", "PR"])) for _ in range(m)]), ("N", [[int(x) for x in rng.permutation(K)] for _ in range(m)])]


def net(I, R, b, n, L, prty, perm):
    m = I(T + "network_calc")
    r = []

    def get(k):
        return m.network_prty_calc(R, b, n, L, prty, perm)[k]
    return {"flows": ("r", lambda: m.balance_equation(L[0], R[0])), "loads": ("p", lambda: get("loads")), "v": ("m", lambda: get("v")), "v_node": ("m", lambda: get("v_node"))}


entry("network_calc", net_args, net, tol=1e-4, cost=20)

C = "most_queue.general_utils.conv"


def conv_args(rng):
    a, b = mom(rng, logu(rng, .3, 3), 3), mom(rng, logu(rng, .3, 3), 3)
    return [("M", a), ("M", b), ("N", int(rng.integers(1, 6)))]


def conv(I, a, b, n):
    m = I(C)
    return {"sum": ("m", lambda: m.get_moments(a, b)), "self": ("m", lambda: m.get_self_conv_moments(b, n)), "minus": ("m", lambda: m.get_moments_minus(m.get_moments(a, b), b))}


entry("conv", conv_args, conv)

FS = T + "utils.flow_sum"


def headless(I, name):
    """The module asks for a GUI backend when it is imported."""
    import matplotlib
    keep = matplotlib.use
    matplotlib.use = lambda *a, **k: None
    try:
        return I(name)
    finally:
        matplotlib.use = keep


def flow_args(rng):
    k = int(rng.integers(2, 4))
    return [("ML", [mom(rng, logu(rng, .3, 3), 4, 1.1, 1.8) for _ in range(k)]), ("N", bool(rng.integers(0, 2)))]


def flow(I, a, semi):
    m = headless(I, FS)
    s = m.SummatorNumeric(a, is_semi=semi)
    s.sum_flows()
    return {"result": ("m", lambda: s.result_flow), "coev": ("p", lambda: m.SummatorNumeric.get_coev(a[0])), "residual": ("m", lambda: m.SummatorNumeric.get_residual_distr_moments(a[0])),
            "two_semi": ("m", lambda: s.sum_2_flows_semiinvariants(a[0], a[1])), "two_h2": ("m", lambda: s.sum_2_H2_flows(a[0], a[1]))}


entry("flow_sum", flow_args, flow, tol=1e-4)

Q = T + "utils.q_poisson_arrival_calc"


def q_args(rng):
    m = logu(rng, .5, 2)
    return [("R", float(rng.uniform(.3, 2)) / m), ("R", float(rng.uniform(.5, 4)) / m), ("N", float(rng.uniform(.5, 5))), ("T", m), ("T", m * float(rng.uniform(.1, .9))), ("N", float(rng.uniform(2.2, 6)))]


def qs(I, l, mu, al, m, h, a):
    z = I(Q)
    return {"gamma": ("p", lambda: z.get_q_Gamma(l, mu, al, 30)), "uniform": ("p", lambda: z.get_q_uniform(l, m, h, 30)), "pareto": ("p", lambda: z.get_q_Pareto(l, a, m, 30))}


entry("q_poisson", q_args, qs, tol=1e-6)

RD = "most_queue.rand_distribution"


def fit_args(rng):
    m = logu(rng, .3, 3)
    b = away(rng, m, 5)
    return [("M", b), ("T", m), ("N", float(rng.uniform(1.1, 2))), ("TL", [m * x for x in (.1, .5, 1.0, 2.5)])]


def fits(I, b, m, cv, ts):
    z = I(RD)
    h2 = z.H2_dist.get_params_by_mean_and_coev(m, cv)
    cox = [complex(x).real for x in z.Cox_dist.get_params_by_mean_and_coev(m, cv)]
    mu, al = z.Gamma.get_mu_alpha(b)
    a, k = z.Pareto_dist.get_a_k_by_mean_and_coev(m, cv / 3)
    r, em = z.Erlang_dist.get_params_by_mean_and_coev(m, .4)
    um, uh = z.Uniform_dist.get_params_by_mean_and_coev(m, .4)
    hm = z.H2_dist.calc_theory_moments(*h2, 4)
    out = {"h2": ("m", lambda: hm), "h2p": ("r", lambda: list(z.H2_dist.get_params(hm)[1:])), "h2y": ("p", lambda: z.H2_dist.get_params(hm)[0]),
           "clx": ("p", lambda: complex(z.H2_dist.get_params_clx(b[:4], verbose=False)[0])), "clx_mu": ("r", lambda: list(z.H2_dist.get_params_clx(b[:4], verbose=False)[1:])),
           "coxy": ("p", lambda: complex(z.Cox_dist.get_params(b[:3], verbose=False)[0])), "coxmu": ("r", lambda: list(z.Cox_dist.get_params(b[:3], verbose=False)[1:])),
           "cox": ("m", lambda: z.Cox_dist.calc_theory_moments(*cox)), "gamma": ("r", lambda: mu), "alpha": ("p", lambda: al),
           "gm": ("m", lambda: z.Gamma.calc_theory_moments(mu, al, 5)), "gg": ("p", lambda: [z.Gamma.get_params(b)[1]]), "pa": ("p", lambda: a), "pk": ("t", lambda: k),
           "pm": ("m", lambda: z.Pareto_dist.calc_theory_moments(a, k, 2)), "er": ("p", lambda: r), "em": ("r", lambda: em), "u": ("t", lambda: [um, uh]),
           "um": ("m", lambda: z.Uniform_dist.calc_theory_moments(um, uh, 4)), "exp": ("r", lambda: z.Exp_dist.get_params(b)),
           "h2cdf": ("p", lambda: [z.H2_dist.get_cdf(h2, t) for t in ts]), "h2tail": ("p", lambda: [z.H2_dist.get_tail(h2, t) for t in ts]), "h2pdf": ("r", lambda: [z.H2_dist.get_pdf(h2, t) for t in ts]),
           "gcdf": ("p", lambda: [z.Gamma.get_cdf(mu, al, t) for t in ts]), "gpdf": ("r", lambda: [z.Gamma.get_pdf(mu, al, t) for t in ts]), "gf": ("r", lambda: [z.Gamma.get_f(mu, al, t) for t in ts]),
           "ecdf": ("p", lambda: [z.Erlang_dist.get_cdf([r, em], t) for t in ts]), "etail": ("p", lambda: [z.Erlang_dist.get_tail([r, em], t) for t in ts]),
           "pcdf": ("p", lambda: [z.Pareto_dist.get_cdf([a, k], t) for t in ts]), "ptail": ("p", lambda: [z.Pareto_dist.get_tail([a, k], t) for t in ts]),
           "ucdf": ("p", lambda: [z.Uniform_dist.get_cdf(um, uh, t) for t in ts]), "utail": ("p", lambda: [z.Uniform_dist.get_tail(um, uh, t) for t in ts]), "updf": ("r", lambda: [z.Uniform_dist.get_pdf(um, uh, t) for t in ts]),
           "res": ("r", lambda: list(z.H2_dist.get_residual_params(h2)[1:])), "resy": ("p", lambda: z.H2_dist.get_residual_params(h2)[0])}
    return out


entry("rand_distribution", fit_args, fits, tol=1e-6)



def edge_args(rng):
    """A third moment no H2 law can have, or a coefficient of variation of one or less."""
    m, cv2 = logu(rng, .3, 3), float(rng.choice([rng.uniform(1.05, 6), rng.uniform(.3, .9), 1.0]))
    return [("M", [m, m * m * (1 + cv2), m ** 3 * 1.5 * (1 + cv2) ** 2 * float(rng.uniform(.7, .98))])]


entry("h2_edge", edge_args, lambda I, b: {"mu": ("r", lambda: list(I(RD).H2_dist.get_params(b)[1:])), "y": ("p", lambda: I(RD).H2_dist.get_params(b)[0])}, tol=1e-7)

DU = "most_queue.sim.utils.distribution_utils"


def load_args(rng):
    m = logu(rng, .3, 3)
    return [("R", float(rng.uniform(.1, .9)) / m), ("R", 1 / m), ("N", int(rng.integers(1, 6)))]


entry("calc_qs_load", load_args, lambda I, l, mu, n: {"load": ("p", lambda: I(DU).calc_qs_load("M", l, "M", mu, n))})


def two_args(rng):
    n = int(rng.integers(1, 4))
    mu = [logu(rng, .4, 2.5) for _ in range(2)]
    ro = load(rng, n, .3, .7)
    f = float(rng.uniform(.3, .7))
    return [("N", n), ("R", mu[0]), ("R", mu[1]), ("R", ro * f * mu[0]), ("R", ro * (1 - f) * mu[1])]


def two(I, n, mL, mH, lL, lH):
    m = I(T + "mmn_prty_pnz_approx").MMn_PRTY_PNZ_Cox_approx(n, mL, mH, lL, lH, N=80)
    m.run()
    return {"busy": ("m", lambda: m.busy_period), "p": ("p", m.get_p), "v1": ("t", m.get_second_class_v1)}


entry("mmn_prty_pnz", two_args, two, tol=1e-4, cost=4)


def three_args(rng):
    from checks.q40 import three_method   # outside its domain (no genuine Cox fit) the solver need not end
    while True:
        mu = [logu(rng, .5, 2) for _ in range(3)]
        w = rng.dirichlet(np.ones(3) * 3) * load(rng, 2, .3, .65)
        if three_method(None, *mu, *(float(a * b) for a, b in zip(w, mu)), 5) is not None:
            break
    return [("R", x) for x in mu] + [("R", float(a * b)) for a, b in zip(w, mu)]


def three(I, mL, mM, mH, lL, lM, lH):
    m = I(T + "mmn3_pnz_cox_approx").Mmn3_pnz_cox(mL, mM, mH, lL, lM, lH, N=80)
    m.run()
    return {"busy": ("m", lambda: m.busy_periods), "p": ("p", m.get_p), "v1": ("t", m.get_low_class_v1)}


entry("mmn3", three_args, three, tol=1e-4, cost=6)


def ph_args(rng):
    from checks.q40 import ph_method, cox
    while True:
        n = int(rng.integers(1, 3))
        bH = logu(rng, .5, 2)
        cv = float(rng.uniform(1.2, 1.8))
        b = gamma_moments(bH, cv, 3)
        muL = logu(rng, .5, 2)
        ro = load(rng, n, .3, .65)
        if cox(b) and ph_method(None, n, muL, cox(b), ro * .5 * muL, ro * .5 / bH, 5, False, .13) is not None:
            break
    return [("R", muL), ("M", b), ("R", ro * .5 * muL), ("R", ro * .5 / bH), ("N", n)]


def ph(I, muL, b, lL, lH, n):
    y, m1, m2 = I(RD).Cox_dist.get_params(b, verbose=False)
    m = I(T + "m_ph_n_prty").m_ph_n_prty(muL, m1, m2, y, lL, lH, n, N=60, is_cox=True, verbose=False)
    m.run()
    return {"busy": ("m", lambda: m.busy_periods), "p": ("p", m.get_p), "v1": ("t", m.get_low_class_v1)}


entry("m_ph_n_prty", ph_args, ph, tol=1e-4, cost=15)


def pt_args(rng):
    n = int(rng.integers(1, 5))
    mu = logu(rng, .5, 2)
    l = load(rng, n, .2, .8) * mu
    K = n + 1
    return [("A", [np.array([[l]])] * K), ("A", [np.array([[0.0]])] + [np.array([[i * mu]]) for i in range(1, K)]), ("A", [np.zeros((1, 1))] * K), ("A", [np.array([[l + i * mu]]) for i in range(K)])]


def pt(I, A, B, Cc, D):
    m = I(T + "utils.passage_time").passage_time_calc(A, B, Cc, D)
    m.calc()
    n = len(A) - 1
    return {"G": ("p", lambda: [g[0, 0] for g in m.G[1:]]), "Z": ("m", lambda: [[m.Z[i][r][0, 0] for r in range(3)] for i in range(1, n + 1)]),
            "Zgap": ("m", lambda: [z[0, 0] for z in m.Z_gap_calc(n + 1, 0)])}


entry("passage_time", pt_args, pt, tol=1e-5)
