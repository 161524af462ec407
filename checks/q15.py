from checks.base_common import *
from mq.refq import RefFinite
PROPERTY = "Q15"
RULE = ("a case = one (n, m, buffer) with scripted think and service times; every event compared with the closed reference model; "
        "distinct = (n, m, buffer, served)")


def finite(t, crowd=False):
    from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
    rng = t.rng
    n = int(rng.choice([1, 1, 2, 3, 5])) if rng.random() < .9 else int(rng.integers(6, 25))
    m = int(rng.choice([1, 2, 3, 5, 8, 15, 50]))
    r = int(rng.choice([0, 1, 2, 4])) if rng.random() < 0.4 else None
    if crowd:
        m, r = int(rng.integers(200, 900)), (None if rng.random() < .6 else int(rng.integers(20, 300)))
    T_ = Tapes(rng)
    ka = T_.new(str(rng.choice(STYLES)), 1.0)
    ks = T_.new(str(rng.choice(STYLES)), float(rng.choice([0.05, 0.3, 1.0, 3.0])))
    t.params(n=n, m=m, buffer=r, styles={str(k): (v.style, v.mean) for k, v in T_.tapes.items()})
    kw = T_.new(str(rng.choice(STYLES)), float(rng.choice([.3, 2, 10]))) if rng.random() < .25 else None
    ref = RefFinite(n, m, r, T_.ref(ka), T_.ref(ks), first=kw and T_.ref(kw))
    steps = 2500 if crowd else steps_for(t)
    with T_:
        with sut(t, "build"):
            s = QueueingFiniteSourceSim(n, m, buffer=r, verbose=False)
            s.set_sources(ka, "D")
            s.set_servers(ks, "D")
            if kw:
                s.set_warm(kw, "D")
                if rng.random() < .5:   # in either order
                    s.set_servers(ks, "D")
        if t.fails:
            return

        def on_step(i, kind):
            t.ev()
            t.count("event_" + kind)
            busy = sum(1 for x in s.servers if not x.is_free)
            got = (s.arrived, s.served, s.dropped, s.in_sys, s.queue.size(), busy)
            want = (ref.arrived, ref.served, ref.dropped, ref.in_sys, len(ref.queue), len(ref.busy))
            if got != want or not eq(s.ttek, ref.t):
                t.fail("trajectory", f"event {i} ({kind}): (arrived, served, dropped, in_sys, waiting, busy)={got} t={s.ttek}, expected {want} t={ref.t}")
                return False
            a, b = in_service(s), sorted(j.arr for j in ref.busy)
            if any(not eq(x, y) for x, y in zip(a, b)):
                t.fail("fifo", f"jobs in service arrived at {a}, expected {b}")
                return False
            if s.in_sys > m or (hasattr(s, "sources_left") and s.sources_left + s.in_sys != m):
                t.fail("population", f"{s.in_sys} jobs and {s.sources_left} thinking sources of {m}")
                return False
            if i < 40 or i % 37 == 0:
                if not t.closev("sojourn-moments", s.v, moments(ref.soj), 1e-7, 1e-10, "sojourn moments", step=i):
                    return False
                if not t.closev("wait-moments", s.w, moments(ref.waits), 1e-7, 1e-10, "wait moments over started jobs", step=i):
                    return False
            if i < 5 or i % 53 == 0:
                p, wantp = s.get_p(), occ_fraction(ref.occ, ref.t)
                if not t.require("states", len(p) == m + 1, f"{len(p)} states reported for {m} sources"):
                    return False
                if not t.closev("state-fraction", p, [wantp.get(j, 0.0) for j in range(m + 1)], 1e-7, 1e-10, f"p at event {i}"):
                    return False
            if i % 50 == 0:
                if not t.require("period-count", s.ppnz_moments == len(ref.periods), f"{s.ppnz_moments} busy periods, expected {len(ref.periods)}"):
                    return False
                if not t.closev("period-moments", s.ppnz, moments(ref.periods), 1e-7, 1e-10, "busy period moments", step=i):
                    return False
            return True
        drive(t, s, ref, steps, on_step, "run")
    if kw:
        t.count("warm_starts", len(T_.tapes[kw].vals))
    t.count("drops", ref.dropped)
    t.count("all_in_system", 1 if m in ref.occ else 0)
    t.count("crowded", max(ref.occ) > 150)
    t.sig(n, m, r, ref.served)
    t.sample(arrived=ref.arrived, served=ref.served, dropped=ref.dropped, p=occ_fraction(ref.occ, ref.t))


GROUPS = {"finite": (finite, 1560, 7800), "crowd": (lambda t: finite(t, True), 16, 120)}
NEED = {"warm_starts": 300, "event_serve": 5000, "drops": 100, "all_in_system": 50, "crowded": 4}
