from checks.base_common import *
PROPERTY = "Q14"
RULE = ("a case = one configuration (n, buffer, patience style) on scripted arrival, service and patience times; each event compared with the "
        "reference queue with reneging; distinct = (n, buffer, reneged, served)")


def impatient(t, crowd=False):
    from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
    rng = t.rng
    n = int(rng.choice([1, 1, 2, 3, 5])) if rng.random() < .9 else int(rng.integers(6, 25))
    r = int(rng.choice([0, 1, 2, 5])) if rng.random() < 0.45 else None
    rho = float(rng.choice([0.3, 0.8, 1.0, 1.5, 2.5]))
    if crowd:
        rho, r = float(rng.uniform(.8, 2.5)), (None if rng.random() < .6 else int(rng.integers(50, 400)))
    T_ = Tapes(rng)
    ka = T_.new(TIDE if crowd else str(rng.choice(STYLES)), 1.0)
    ks = T_.new(str(rng.choice(STYLES)), rho * n)
    kp = T_.new(str(rng.choice(STYLES)), float(rng.choice([0.2, 1.0, 4.0, 15.0] if not crowd else [30, 200, 1000])) * rho)
    t.params(n=n, buffer=r, rho=rho, styles={str(k): (v.style, v.mean) for k, v in T_.tapes.items()})
    kw = T_.new(str(rng.choice(STYLES)), float(rng.choice([.3, 2, 10]))) if rng.random() < .25 else None
    ref = RefQueue(n, r, T_.ref(ka), T_.ref(ks), patience=T_.ref(kp), first=kw and T_.ref(kw))
    steps = 2500 if crowd else steps_for(t)
    marks = set(int(x) for x in rng.integers(1, steps, 4)) | {0, 1, steps - 1}
    with T_:
        with sut(t, "build"):
            s = ImpatientQueueSim(n, buffer=r, verbose=False)
            s.set_sources(ka, "D")
            s.set_servers(ks, "D")
            if kw:
                s.set_warm(kw, "D")
                if rng.random() < .5:   # in either order
                    s.set_servers(ks, "D")
            s.set_impatiens(kp, "D")
        if t.fails:
            return
        buf_drop = [0]

        def on_step(i, kind):
            t.ev()
            busy = sum(1 for x in s.servers if not x.is_free)
            # the simulator counts an impatient job both as served (finished) and as dropped
            got = (s.arrived, s.served, s.dropped, s.in_sys, s.queue.size(), busy)
            want = (ref.arrived, ref.served + ref.reneged, ref.dropped, ref.in_sys, len(ref.queue), len(ref.busy))
            if got != want or not eq(s.ttek, ref.t):
                t.fail("trajectory", f"event {i} ({kind}): (arrived, finished, lost, in_sys, waiting, busy)={got} t={s.ttek}, expected {want} t={ref.t}")
                return False
            a, b = in_service(s), sorted(j.arr for j in ref.busy)
            if any(not eq(x, y) for x, y in zip(a, b)):
                t.fail("fifo", f"jobs in service arrived at {a}, expected {b}")
                return False
            if i < 40 or i % (377 if crowd else 37) == 0:
                fin = ref.soj + ref.lost_waits
                if not t.closev("sojourn-moments", s.v, moments(fin), 1e-7, 1e-10, "sojourn moments over finished jobs", step=i):
                    return False
                if not t.closev("wait-moments", s.w, moments(ref.waits + ref.lost_waits), 1e-7, 1e-10,
                                "wait moments over jobs whose wait is over", step=i):
                    return False
            if i % 50 == 0:
                if not t.require("period-count", s.ppnz_moments == len(ref.periods), f"{s.ppnz_moments} busy periods, expected {len(ref.periods)}"):
                    return False
                if not t.closev("period-moments", s.ppnz, moments(ref.periods), 1e-7, 1e-10, "busy period moments", step=i):
                    return False
            if i in marks:
                p, wantp = s.get_p(), occ_fraction(ref.occ, ref.t)
                if not t.require("sum", abs(float(np.sum(p)) - 1) < 1e-6, f"state probabilities sum to {float(np.sum(p))} at event {i}"):
                    return False
                for j in range(max(wantp, default=0) + 2):
                    if not t.close("state-fraction", p[j], wantp.get(j, 0.0), 1e-7, 1e-10, f"p[{j}] at event {i}"):
                        return False
            return True
        drive(t, s, ref, steps, on_step, "run")
    t.count("reneged", ref.reneged)
    t.count("crowded", max(ref.occ) > 300)
    if kw:
        t.count("warm_starts", len(T_.tapes[kw].vals))
    t.count("served", ref.served)
    t.count("buffer_drops", ref.dropped - ref.reneged)
    t.sig(n, r, ref.reneged, ref.served)
    t.sample(arrived=ref.arrived, served=ref.served, reneged=ref.reneged)


GROUPS = {"impatient": (impatient, 260, 1800), "crowd": (lambda t: impatient(t, True), 16, 120)}
NEED = {"warm_starts": 300, "reneged": 1000, "served": 3000, "buffer_drops": 100, "crowded": 4}
