from checks.base_common import *
PROPERTY = "Q01"
RULE = ("a case = one random configuration (n, buffer, load, phases, container) run for several hundred events against the "
        "reference FIFO queue on the same scripted times; distinct = (n, buffer, phases, container, event-kind set, max queue); "
        "every event is compared")


def trajectory(t, phases=None, big_n=False, crowd=False):
    T_, ref, c = make(t, phases, big_n=big_n, crowd=crowd)
    n, r = c["n"], c["r"]
    c["order"] = int(t.rng.integers(2))
    with T_:
        with sut(t, "build"):
            s = build(c)
        if t.fails:
            return
        last = [0.0]
        maxq = [0]
        kinds = set()

        def on_step(i, kind):
            t.ev()
            kinds.add(kind)
            q, busy = s.queue.size(), sum(1 for x in s.servers if not x.is_free)
            if s.ttek < last[0] - 1e-12:
                t.fail("clock", f"clock went back from {last[0]} to {s.ttek}", step=i)
                return False
            last[0] = s.ttek
            maxq[0] = max(maxq[0], q)
            # conservation from the simulator's own counters
            if s.arrived != s.served + s.dropped + s.in_sys:
                t.fail("conservation", f"arrived {s.arrived} != served {s.served} + dropped {s.dropped} + in system {s.in_sys}", step=i)
                return False
            if s.in_sys != q + busy or busy > n:
                t.fail("occupancy", f"in system {s.in_sys}, queue {q}, in service {busy}, n={n}", step=i)
                return False
            if r is not None and q > r:
                t.fail("buffer", f"queue {q} exceeds buffer {r}", step=i)
                return False
            idle_ok = (ref.warm_end < 1e300) or (ref.cold_end < 1e300)
            if q and busy < n and not idle_ok:
                t.fail("work-conservation", f"{q} waiting while {n-busy} of {n} channels idle at t={s.ttek}", step=i)
                return False
            want = (ref.arrived, ref.served, ref.dropped, ref.in_sys, ref.started, len(ref.queue), len(ref.busy), n - len(ref.busy))
            got = (s.arrived, s.served, s.dropped, s.in_sys, s.taked, q, busy, s.free_channels)
            if got != want or not eq(s.ttek, ref.t):
                t.fail("trajectory", f"event {i} ({kind}): (arrived, served, dropped, in_sys, started, waiting, busy, free)={got} t={s.ttek}, "
                       f"expected {want} t={ref.t}", step=i)
                return False
            a, b = in_service(s), sorted(j.arr for j in ref.busy)
            if len(a) != len(b) or any(not eq(x, y) for x, y in zip(a, b)):
                t.fail("fifo", f"jobs in service arrived at {a}, expected {b}", step=i)
                return False
            return True
        drive(t, s, ref, 7000 if crowd else steps_for(t), on_step, "run")
    for k, v in ref.kinds.items():
        t.count("event_" + k, v)
    t.count("drops", ref.dropped)
    t.count("crowded", maxq[0] > 1000)
    t.count("waited", sum(1 for w in ref.waits if w > 0))
    t.sig(n, r, tuple(c["pk"]), c["bt"], tuple(sorted(kinds)), maxq[0])
    t.sample(arrived=ref.arrived, served=ref.served, dropped=ref.dropped, max_queue=maxq[0], t=ref.t)


def plain(t):
    trajectory(t, ())


def phased(t):
    trajectory(t)


def wide(t):
    trajectory(t, (), True)


def crowd(t):
    """Hundreds to thousands of jobs gather in the queue and leave again."""
    trajectory(t, () if t.idx % 3 else None, crowd=True)


GROUPS = {"plain": (plain, 960, 4800), "phased": (phased, 960, 4800), "wide": (wide, 240, 1200), "crowd": (crowd, 32, 160)}
NEED = {"event_arrive": 2000, "event_serve": 2000, "drops": 100, "waited": 500, "event_warm": 20, "event_cold": 20, "event_delay": 10, "crowded": 3}
