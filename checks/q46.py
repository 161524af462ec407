"""Q46: long runs of every simulator with the package's own random laws agree with the package's own calculators."""
import math
import numpy as np
from mq.core import sut
from mq.fam import Law, random_law, gamma_moments, logu
from scipy import stats

PROPERTY = "Q46"
RULE = ("a case = one model and parameter set; one long run is cut into batches, each published mean and probability gives a ratio estimate with a batch "
        "standard error; a difference beyond 3 standard errors is confirmed (beyond 5) or refuted by an independent run eight times as long; distinct = (model, parameters)")
CPU_BUDGET = 200
JOBS = 80000
BATCHES = 40
SUSPECT, CONFIRM = 3, 5


LIGHT = ("M", "H", "E", "Gamma", "C", "D", "Uniform")


def service(rng, mean, kinds=LIGHT):
    """A law with a light tail and moderate variation."""
    k = str(rng.choice(list(kinds)))
    if k == "Uniform":
        return Law("Uniform", [mean, mean * float(rng.uniform(.5, 1))])
    if k == "Gamma":
        c = float(rng.uniform(.3, 1.5))
        return Law("Gamma", [1 / c ** 2 / mean, 1 / c ** 2])
    if k == "H":
        y, r = float(rng.uniform(.1, .9)), float(rng.uniform(1.5, 8))
        m = y + (1 - y) / r
        return Law("H", [y, m / mean, r * m / mean])
    return random_law(rng, k, mean)


def h2(rng, mean):
    """An H2 law whose three moments fit well."""
    y, r = float(rng.uniform(.15, .85)), float(rng.uniform(2.5, 6))
    m = y + (1 - y) / r
    return Law("H", [y, m / mean, r * m / mean])


def give(s, src, srv):
    s.set_sources(src.p, src.kind)
    s.set_servers(srv.p, srv.kind)


class Model:
    """name, params, build() -> simulator, read(s) -> {name: (cumulative numerator, cumulative denominator)}, theory() -> {name: value}."""

    def __init__(self, info, build, read, theory, jobs=JOBS):
        self.info, self.build, self.read, self.theory, self.jobs = info, build, read, theory, jobs


def plain(s, probs=4, w=True, v=True, moms=2):
    """Cumulative sums behind the published means and fractions of a one-class simulator."""
    p = s.get_p()
    out = {f"p[{j}]": (float(p[j]) * s.ttek, s.ttek) for j in range(probs)}
    for k in range(moms):
        if w:
            out[f"w[{k}]"] = (s.w[k] * s.taked, s.taked)
        if v:
            out[f"v[{k}]"] = (s.v[k] * s.served, s.served)
    return out


def theory_of(p=None, w=None, v=None, probs=4, moms=2, **kw):
    out = dict(kw)
    if p is not None:
        out.update({f"p[{j}]": p[j] for j in range(min(probs, len(p)))})
    for n, x in (("w", w), ("v", v)):
        if x is not None:
            out.update({f"{n}[{k}]": x[k] for k in range(min(moms, len(x)))})
    return out


def T(name):
    import importlib
    return importlib.import_module("most_queue.theory." + name)


def sim(n, r=None, cls="QueueingSystemSimulator", mod="qs_sim", *a, **kw):
    import importlib
    return getattr(importlib.import_module("most_queue.sim." + mod), cls)(n, *a, buffer=r, verbose=False, **kw)


def base(n, r, src, srv, **phases):
    s = sim(n, r)
    give(s, src, srv)
    for k in ("warm", "cold", "cold_delay"):
        if phases.get(k) is not None:
            getattr(s, "set_" + k)(phases[k].p, phases[k].kind)
    return s


def scale(rng):
    return logu(rng, .01, 100)


def mg1(rng, idx):
    c = scale(rng)
    b = service(rng, c, LIGHT[idx % 7:idx % 7 + 1])
    l = float(rng.uniform(.4, .8)) / c
    m = b.moments(4)
    kind = {"Gamma": "Gamma", "Uniform": "Uniform"}.get(b.kind)

    def theory():
        t = T("mg1_calc")
        return theory_of(t.get_p(l, m, 20, kind) if kind else None, t.get_w(l, m), t.get_v(l, m))
    return Model(dict(l=l, b=repr(b)), lambda: base(1, None, Law("M", l), b), plain, theory)


def mg1_warm(rng):
    c = scale(rng)
    # only the first sojourn moment: the calculator goes by the first two moments of each law
    b, w = service(rng, c, ("M", "H", "E", "Gamma", "C", "Uniform")), service(rng, c * logu(rng, .3, 4))
    l = float(rng.uniform(.2, .7)) / c
    B, W = b.moments(5), w.moments(5)
    first = [sum(math.comb(k, i) * ([1] + B)[i] * ([1] + W)[k - i] for i in range(k + 1)) for k in range(1, 6)]
    return Model(dict(l=l, b=repr(b), warm=repr(w)), lambda: base(1, None, Law("M", l), b, warm=w), lambda s: plain(s, 0, w=False, moms=1),
                 lambda: theory_of(v=T("mg1_warm_calc").get_v(l, B, first), moms=1))


def mmnr(rng):
    n, r = int(rng.integers(1, 6)), int(rng.integers(1, 12))
    mu = 1 / scale(rng)
    l = float(rng.uniform(.3, 1.5)) * n * mu

    def theory():
        m = T("mmnr_calc").MMnr_calc
        p = m.get_p(l, mu, n, r)
        return theory_of(p, m.get_w(l, mu, n, r), m.get_v(l, mu, n, r), loss=p[n + r])
    return Model(dict(l=l, mu=mu, n=n, r=r), lambda: base(n, r, Law("M", l), Law("M", mu)), lambda s: dict(plain(s), loss=(s.dropped, s.arrived)), theory)


def gi(rng):
    n = int(rng.choice([1, 1, 2, 3]))
    mu = 1 / scale(rng)
    a = 1 / (float(rng.uniform(.25, .75)) * n * mu)
    if rng.random() < .7:
        c = float(rng.uniform(.4, 1.4))
        src, d = Law("Gamma", [1 / c ** 2 / a, 1 / c ** 2]), "Gamma"
    else:
        al = float(rng.uniform(3.5, 6))
        src, d = Law("Pa", [al, a * (al - 1) / al]), "Pa"
    m = src.moments(3)

    def theory():
        if n == 1:
            t = T("gi_m_1_calc")
            return theory_of(t.get_p(m, mu, 30, approx_distr=d), t.get_w(m, mu, approx_distr=d), t.get_v(m, mu, approx_distr=d))
        t = T("gi_m_n_calc")
        return theory_of(t.get_p(m, mu, n, 30, approx_distr=d), t.get_w(m, mu, n, 30, approx_distr=d), t.get_v(m, mu, n, 30, approx_distr=d))
    return Model(dict(src=repr(src), mu=mu, n=n), lambda: base(n, None, src, Law("M", mu)), plain, theory)


def det(rng):
    n, k = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    b = scale(rng)
    l = float(rng.uniform(.25, .75)) * n / b

    def theory():
        p = T("m_d_n_calc").M_D_n(l, b, n, p_num=60).calc_p() if k == 1 else T("ek_d_n_calc").Ek_D_n(l * k, k, b, n, p_num=60).calc_p()
        return theory_of([float(np.real(x)) for x in p], probs=5)
    return Model(dict(l=l, k=k, b=b, n=n), lambda: base(n, None, Law("M", l) if k == 1 else Law("E", [k, l * k]), Law("D", b)),
                 lambda s: plain(s, 5, False, False), theory)


def mh2n(rng):
    n = int(rng.integers(1, 5))
    c = scale(rng)
    b = h2(rng, c)
    r = None if rng.random() < .5 else int(rng.integers(0, 8))
    l = float(rng.uniform(.25, .75 if r is None else 1.3)) * n / c

    def theory():
        m = T("mgn_tt").MGnCalc(n, l, b.moments(4), buffer=r, N=80, accuracy=1e-9)
        m.run()
        return theory_of([float(np.real(x)) for x in m.get_p()], [np.real(x) for x in m.get_w()], [np.real(x) for x in m.get_v()], moms=1 if r is not None else 2)
    return Model(dict(l=l, b=repr(b), n=n, r=r), lambda: base(n, r, Law("M", l), b), lambda s: plain(s, moms=1 if r is not None else 2), theory)


def vacations(rng):
    """Warm-up; cooling and warm-up; cooling delay, cooling and warm-up."""
    n = int(rng.integers(1, 4))
    c = scale(rng)
    what = int(rng.integers(0, 3))
    b = Law("M", 1 / c) if what == 1 else h2(rng, c)
    w, d, e = (h2(rng, c * logu(rng, .3, 2)) for _ in range(3))
    l = float(rng.uniform(.25, .65)) * n / c
    B, W, D, E = (x.moments(4) for x in (b, w, d, e))

    def theory():
        if what == 0:
            m = T("m_h2_h2warm").Mh2h2Warm(l, B, W, n, N=80, accuracy=1e-9)
        elif what == 1:
            m = T("mmn_with_h2_cold_and_h2_warmup").MMn_H2warm_H2cold(l, 1 / c, W, D, n, N=80, accuracy=1e-9)
        else:
            m = T("mgn_with_h2_delay_cold_warm").MGnH2ServingColdWarmDelay(l, B, W, D, E, n, N=80, accuracy=1e-9)
        m.run()
        out = theory_of([float(np.real(x)) for x in m.get_p()], [np.real(x) for x in m.get_w()], [np.real(x) for x in m.get_v()], moms=1)
        if what:
            out["warm"], out["cold"] = np.real(m.get_warmup_prob()), np.real(m.get_cold_prob())
        if what == 2:
            out["delay"] = np.real(m.get_cold_delay_prob())
        return out

    def read(s):
        out = plain(s, moms=1)
        if what:
            out["warm"], out["cold"] = (s.get_warmup_prob() * s.ttek, s.ttek), (s.get_cold_prob() * s.ttek, s.ttek)
        if what == 2:
            out["delay"] = (s.get_cold_delay_prob() * s.ttek, s.ttek)
        return out
    return Model(dict(what=what, l=l, b=repr(b), warm=repr(w), cold=repr(d), delay=repr(e), n=n),
                 lambda: base(n, None, Law("M", l), b, warm=w, cold=d if what else None, cold_delay=e if what == 2 else None), read, theory)


def batch(rng):
    q = [float(x) for x in rng.dirichlet(np.ones(int(rng.integers(1, 6))))]
    mu = 1 / scale(rng)
    l = float(rng.uniform(.2, .7)) * mu / sum((i + 1) * x for i, x in enumerate(q))

    def build():
        from most_queue.sim.batch_sim import QueueingSystemBatchSim
        s = QueueingSystemBatchSim(1, list(q), verbose=False)
        give(s, Law("M", l), Law("M", mu))
        return s

    def theory():
        m = T("batch_mm1").BatchMM1(l, mu, q, p_num=600)
        return theory_of(m.get_p(), [m.get_w1()], [m.get_v1()])
    return Model(dict(l=l, mu=mu, q=q), build, lambda s: plain(s, moms=1), theory)


def engset(rng):
    n, c = int(rng.integers(2, 10)), scale(rng)
    lam, mu = logu(rng, .05, .7) / c, 1 / c

    def build():
        from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
        s = QueueingFiniteSourceSim(1, n, verbose=False)
        s.set_sources(lam, "M")
        s.set_servers(mu, "M")
        return s

    def theory():
        e = T("engset_model").Engset(lam, mu, n)
        return theory_of(e.get_p(), e.get_w(), e.get_v(), flow=e.get_lamD())
    return Model(dict(lam=lam, mu=mu, m=n), build, lambda s: dict(plain(s, min(4, n + 1)), flow=(s.arrived, s.ttek)), theory)


def impatience(rng):
    c = scale(rng)
    l, mu, g = logu(rng, .2, 2) / c, 1 / c, logu(rng, .1, 2) / c

    def build():
        from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
        s = ImpatientQueueSim(1, verbose=False)
        s.set_sources(l, "M")
        s.set_servers(mu, "M")
        s.set_impatiens(g, "M")
        return s

    def theory():
        m = T("impatience_calc")
        return theory_of(m.get_p(l, mu, g), None, [m.get_v1(l, mu, g)])
    return Model(dict(l=l, mu=mu, gamma=g), build, lambda s: plain(s, w=False, moms=1), theory)


def priority(rng):
    K = int(rng.integers(2, 4))
    c = scale(rng)
    b = [service(rng, c * float(rng.uniform(.4, 2))) for _ in range(K)]
    l = [float(x / y.mean()) for x, y in zip(rng.dirichlet(np.ones(K) * 3) * float(rng.uniform(.25, .7)), b)]
    kind = str(rng.choice(["PR", "NP"]))
    m = [x.moments(4) for x in b]

    def build():
        from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
        s = PriorityQueueSimulator(1, K, kind)
        s.set_sources([{"type": "M", "params": x} for x in l])
        s.set_servers([{"type": x.kind, "params": x.p} for x in b])
        return s

    def read(s):
        return {f"{n}[{k}][{j}]": (getattr(s, n)[k][j] * s.served[k], s.served[k]) for k in range(K) for j in range(2) for n in ("v",)}

    def theory():
        t = T("priority_calc")
        v = t.calc_pr1(l, m)["v"] if kind == "PR" else t.get_v_np(l, m)
        return {f"v[{k}][{j}]": v[k][j] for k in range(K) for j in range(2)}
    return Model(dict(l=l, b=repr(b), kind=kind), build, read, theory, JOBS * .7)


def split_join(rng):
    n, c = int(rng.integers(2, 4)), scale(rng)
    b = Law("M", 1 / c) if rng.random() < .4 else h2(rng, c)
    join = b.kind == "M" and n == 2 and rng.random() < .6
    l = float(rng.uniform(.2, .5 if not join else .7)) / c / (1 if join else n ** .5)

    def build():
        from most_queue.sim.fj_sim import ForkJoinSim
        s = ForkJoinSim(n, n, not join)
        give(s, Law("M", l), b)
        return s

    def theory():
        f = T("fj_calc")
        if join:
            return {"v[0]": f.get_v1_fj2(l, 1 / c)}
        return {"v[0]": T("mg1_calc").get_v(l, f.getMaxMoments(n, b.moments(4)))[0]}
    return Model(dict(l=l, b=repr(b), n=n, join=join), build, lambda s: {"v[0]": (s.v[0] * s.served, s.served)}, theory, JOBS * .6)


def network(rng):
    """A one-class network of exponential multichannel nodes (Jackson), or several classes through one node."""
    one = rng.random() < .4
    m = 1 if one else int(rng.integers(2, 4))
    K = int(rng.integers(2, 4)) if one else 1
    n = [1] if one else [int(x) for x in rng.integers(1, 4, m)]
    R = np.zeros((m + 1, m + 1))
    if one:
        R[0, 0], R[1, 1] = 1, 1
    else:
        for r in range(m + 1):
            x = rng.uniform(.05, 1, m + 1)
            if r == 0:
                x[m] = 0
            else:
                x[m] += 1
            R[r] = x / x.sum()
    vis = np.linalg.solve(np.eye(m) - R[1:, :m].T, R[0, :m])
    c = scale(rng)
    L = [float(x) / c for x in rng.uniform(.4, 1, K)]
    kind = str(rng.choice(["NP", "PR"]))
    mu = [[float(sum(L) * vis[i] / (rng.uniform(.2, .65) * n[i])) for k in range(K)] for i in range(m)]
    b = [[Law("M", mu[i][k]).moments(4) for i in range(m)] for k in range(K)]
    order = [[int(x) for x in rng.permutation(K)] for _ in range(m)]

    def build():
        from most_queue.sim.priority_network import PriorityNetwork
        return PriorityNetwork(K, L, [np.matrix(R)] * K, n, [kind] * m, [[{"type": "M", "params": mu[i][k]} for k in range(K)] for i in range(m)], order)

    def theory():
        v = T("network_calc").network_prty_calc([np.matrix(R)] * K, b, n, L, [kind] * m, order)["v"]
        return {f"v[{k}]": float(np.real(v[k][0])) for k in range(K)}
    return Model(dict(R=R.tolist(), mu=mu, n=n, L=L, kind=kind, order=order), build,
                 lambda s: {f"v[{k}]": (s.v_network[k][0] * s.served[k], s.served[k]) for k in range(K)}, theory, JOBS * .4)


def estimate(t, m, jobs):
    """Batch-ratio estimates {name: (estimate, standard error)} of one long run."""
    with sut(t, "simulate") as q:
        s = m.build()
        size = max(1, int(jobs / BATCHES))
        done = lambda: float(np.sum(s.served))
        marks = []
        for i in range(BATCHES + 3):
            s.run(int(size * (i + 1)))
            if i >= 2:
                marks.append(m.read(s))
    if q.raised:
        return None
    t.count("jobs", done())
    out = {}
    for k in marks[0]:
        num, den = np.diff([x[k][0] for x in marks]), np.diff([x[k][1] for x in marks])
        if den.sum() <= 0:
            continue
        r = num.sum() / den.sum()
        out[k] = (float(r), float(np.sqrt(np.sum((num - r * den) ** 2) * len(num) / (len(num) - 1)) / den.sum()))
    return out


def case(model):
    def run(t):
        m = model(t.rng, t.idx) if model is mg1 else model(t.rng)
        t.params(model=model.__name__, **m.info)
        with sut(t, "calculate") as q:
            want = m.theory()
        if q.raised:
            return
        got = estimate(t, m, m.jobs)
        if got is None:
            return
        sus = {}
        for k, w in want.items():
            if k not in got:
                continue
            x, se = got[k]
            t.ev()
            t.count("values")
            if not math.isfinite(float(w)):
                t.fail(model.__name__ + ":" + k.split("[")[0], f"{k} calculated as {w}")
                continue
            z = (x - w) / max(se, 1e-4 * abs(w) + 1e-7)
            t.count("within_1_percent", abs(x - w) <= .01 * abs(w))
            t.count("within_10_percent", abs(x - w) <= .1 * abs(w))
            if abs(z) > SUSPECT:
                sus[k] = z
        if sus:
            t.count("confirmed_again")
            again = estimate(t, m, 8 * m.jobs)
            for k, z in sus.items():
                if again is None:
                    break
                x, se = again[k]
                z2 = (x - want[k]) / max(se, 1e-4 * abs(want[k]) + 1e-7)
                if abs(z2) > CONFIRM and z * z2 > 0:
                    t.fail(f"{model.__name__}:{k.split('[')[0]}", f"{k}: simulated {x:.6g} (standard error {se:.2g}), calculated {want[k]:.6g}; first run "
                           f"{got[k][0]:.6g} (standard error {got[k][1]:.2g})")
        t.sig(model.__name__, sorted(map(str, m.info.items())))
        t.count("runs_" + model.__name__)
        t.sample(values={k: (got.get(k), float(np.real(want[k]))) for k in list(want)[:6]})
    return run


MODELS = [mg1, mg1_warm, mmnr, gi, det, mh2n, vacations, batch, engset, impatience, priority, split_join, network]
GROUPS = {f.__name__: (case(f), 21 if f is mg1 else 12, 90) for f in MODELS}
NEED = {"runs_" + f.__name__: 10 for f in MODELS}
NEED.update({"values": 800, "jobs": 5_000_000, "within_10_percent": 400})
