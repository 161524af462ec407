from checks.base_common import *
PROPERTY = "Q13"
RULE = ("a case = one batch law, n, buffer and scripted times; the batch size of each arrival epoch is read off the simulator and replayed in the "
        "reference; all counters, moments and state fractions compared; the 'law' group compares observed batch-size frequencies with the declared "
        "law (chi-square, p<1e-7); distinct = (n, buffer, batch law, jobs)")


def law(rng):
    m = int(rng.choice([1, 2, 3, 5, 8])) if rng.random() < .9 else int(rng.integers(9, 40))
    p = rng.dirichlet(np.ones(m))
    if m > 2 and rng.random() < 0.5:
        p[int(rng.integers(m))] = 0.0
        p = p / p.sum()
    return [float(x) for x in p]


def batch(t, buffers=True, crowd=False):
    from most_queue.sim.batch_sim import QueueingSystemBatchSim
    rng = t.rng
    probs = law(rng)
    mean = sum((i + 1) * p for i, p in enumerate(probs))
    n = int(rng.choice([1, 1, 2, 3, 5])) if rng.random() < .9 else int(rng.integers(6, 25))
    r = int(rng.choice([0, 1, 2, 4, 10])) if buffers else None
    rho = float(rng.choice([0.2, 0.6, 0.9, 1.5 if r is not None else 0.8]))
    if crowd:
        rho, r = float(rng.uniform(.6, .95)), (None if rng.random() < .6 else int(rng.integers(100, 1500)))
    T_ = Tapes(rng)
    ka = T_.new(TIDE if crowd else str(rng.choice(STYLES)), mean)
    ks = T_.new(str(rng.choice(STYLES)), rho * n)
    nb = [0]
    kw = T_.new(str(rng.choice(STYLES)), float(rng.choice([.3, 2, 10]))) if rng.random() < .25 else None
    ref = RefQueue(n, r, T_.ref(ka), T_.ref(ks), batch=lambda: nb[0], first=kw and T_.ref(kw))
    t.params(n=n, buffer=r, batch_prob=probs, rho=rho)
    steps = 5000 if crowd else steps_for(t)
    marks = set(int(x) for x in rng.integers(1, steps, 4)) | {0, 1, steps - 1}
    with T_:
        with sut(t, "build"):
            s = QueueingSystemBatchSim(n, list(probs), buffer=r, verbose=False)
            s.set_sources(ka, "D")
            s.set_servers(ks, "D")
            if kw:
                s.set_warm(kw, "D")
                if rng.random() < .5:   # in either order
                    s.set_servers(ks, "D")
        if t.fails:
            return
        with sut(t, "run"):
            for i in range(steps):
                a0 = s.arrived
                before = ref.next_kind()[1]
                s.run_one_step()
                nb[0] = s.arrived - a0
                if before == "arrive" and not t.require("batch-size", 1 <= nb[0] <= len(probs) and probs[nb[0] - 1] > 0,
                                                        f"arrival epoch brought {nb[0]} jobs, law {probs}"):
                    return
                kind = ref.step()
                t.count("epochs_" + kind)
                t.count("jobs", nb[0] if kind == "arrive" else 0)
                busy = sum(1 for x in s.servers if not x.is_free)
                got = (s.arrived, s.served, s.dropped, s.in_sys, s.taked, s.queue.size(), busy)
                want = (ref.arrived, ref.served, ref.dropped, ref.in_sys, ref.started, len(ref.queue), len(ref.busy))
                t.ev()
                if got != want or not eq(s.ttek, ref.t):
                    t.fail("trajectory", f"event {i} ({kind}): (arrived, served, dropped, in_sys, started, waiting, busy)={got} t={s.ttek}, expected {want} t={ref.t}")
                    return
                if i < 40 or i % (409 if crowd else 41) == 0:
                    if not t.closev("sojourn-moments", s.v, moments(ref.soj), 1e-7, 1e-10, "sojourn moments", step=i):
                        return
                    if not t.closev("wait-moments", s.w, moments(ref.waits), 1e-7, 1e-10, "wait moments", step=i):
                        return
                if i % 50 == 0:
                    if not t.require("period-count", s.ppnz_moments == len(ref.periods), f"{s.ppnz_moments} busy periods, expected {len(ref.periods)}"):
                        return
                    if not t.closev("period-moments", s.ppnz, moments(ref.periods), 1e-7, 1e-10, "busy period moments", step=i):
                        return
                if i in marks:
                    p, wantp = s.get_p(), occ_fraction(ref.occ, ref.t)
                    if not t.require("sum", abs(float(np.sum(p)) - 1) < 1e-6, f"state probabilities sum to {float(np.sum(p))} at event {i}"):
                        return
                    for j in range(max(wantp, default=0) + 2):
                        if not t.close("state-fraction", p[j], wantp.get(j, 0.0), 1e-7, 1e-10, f"p[{j}] at event {i}"):
                            return
        if kw:
            t.count("warm_starts", len(T_.tapes[kw].vals))
        t.count("drops", ref.dropped)
        t.count("crowded", max(ref.occ) > 1000)
    t.sig(n, r, tuple(probs), ref.arrived)
    t.sample(arrived=ref.arrived, served=ref.served, dropped=ref.dropped, v=moments(ref.soj))


def law_check(t):
    from scipy import stats
    from most_queue.sim.batch_sim import QueueingSystemBatchSim
    probs = law(t.rng)
    T_ = Tapes(t.rng)
    ka, ks = T_.new("exp", 1.0), T_.new("exp", 0.05)
    t.params(batch_prob=probs)
    N = 20000 if t.thorough else 6000
    sizes = {}
    with T_:
        with sut(t, "law"):
            s = QueueingSystemBatchSim(1, list(probs), buffer=None, verbose=False)
            s.set_sources(ka, "D")
            s.set_servers(ks, "D")
            epochs = 0
            while epochs < N:
                a0 = s.arrived
                tn = s.arrival_time
                s.run_one_step()
                if s.arrival_time != tn:
                    epochs += 1
                    b = s.arrived - a0
                    sizes[b] = sizes.get(b, 0) + 1
    if t.fails:
        return
    t.count("law_epochs", N)
    if not t.require("batch-size", all(1 <= b <= len(probs) and probs[b - 1] > 0 for b in sizes), f"impossible batch sizes {sizes} for {probs}"):
        return
    idx = [i for i, p in enumerate(probs) if p > 0]
    if len(idx) > 1:
        # merge tiny cells
        obs, exp, o, e = [], [], 0, 0.0
        for i in idx:
            o += sizes.get(i + 1, 0)
            e += probs[i] * N
            if e >= 10:
                obs.append(o); exp.append(e); o, e = 0, 0.0
        if e and obs:
            obs[-1] += o; exp[-1] += e
        if len(obs) > 1:
            pv = stats.chisquare(obs, exp).pvalue
            t.require("batch-law", pv > 1e-8, f"batch size frequencies {sizes} do not follow {probs} (p={pv:.2g})")
    t.sig(tuple(probs))
    t.sample(sizes=sizes)


GROUPS = {"infinite": (lambda t: batch(t, False), 120, 800), "finite": (batch, 120, 800), "crowd": (lambda t: batch(t, True, True), 16, 120), "law": (law_check, 24, 144)}
NEED = {"warm_starts": 300, "jobs": 3000, "epochs_serve": 3000, "drops": 200, "crowded": 4, "law_epochs": 20000}
