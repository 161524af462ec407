import numpy as np
from mq.core import sut
from mq.tape import Tapes, STYLES, TIDE
from mq.prio import NodeMonitor, Bad, close
from mq.refq import moments

DISC = ["PR", "RS", "RW", "NP", "No"]


def make(t, discs=DISC, warm=None, buffers=True, crowd=False):
    rng = t.rng
    disc = discs[t.idx % len(discs)]
    K = int(rng.choice([1, 2, 2, 3, 4]))
    n = int(rng.choice([1, 1, 1, 2, 3, 4]))
    if rng.random() < .15:   # many classes or channels
        K, n = int(rng.integers(1, 11)), int(rng.integers(1, 17))
    r = None
    if buffers and rng.random() < 0.35:
        r = int(rng.choice([0, 1, 2, 3, 6]))
    # repeated service (RS/RW) is unstable at high load: keep it moderate
    rho = float(rng.choice([0.3, 0.6, 0.85])) if disc in ("RS", "RW") else float(rng.choice([0.3, 0.7, 0.95, 1.4 if r is not None else 0.9]))
    if crowd:   # hundreds gather in the queue and leave again
        rho, r = float(rng.uniform(.6, .95)), (None if rng.random() < .6 else int(rng.integers(30, 400)))
    T_ = Tapes(rng)
    shares = rng.dirichlet(np.ones(K) * 2)
    ka = [T_.new(TIDE if crowd else str(rng.choice(STYLES)), float(1 / max(s, 0.03))) for s in shares]
    styles = ("exp", "uniform", "narrow", "lattice") if disc == "RW" else STYLES
    ks = [T_.new(str(rng.choice(styles)), rho * n * float(rng.choice([0.6, 1.0, 1.4]))) for _ in range(K)]
    kw = None
    if warm if warm is not None else rng.random() < 0.2:
        kw = [T_.new("exp", rho * n * 1.5) for _ in range(K)]
    t.params(disc=disc, classes=K, n=n, buffer=r, rho=rho, warm=kw is not None,
             styles={str(k): (v.style, v.mean) for k, v in T_.tapes.items()})
    return T_, dict(disc=disc, K=K, n=n, r=r, ka=ka, ks=ks, kw=kw, next=t.idx % 3 == 1)


def build(c):
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    s = PriorityQueueSimulator(c["n"], c["K"], c["disc"], buffer=c["r"], **({"calc_next_event_time": True} if c.get("next") else {}))
    s.set_sources([dict(type="D", params=k) for k in c["ka"]])
    s.set_servers([dict(type="D", params=k) for k in c["ks"]])
    if c["kw"]:
        s.set_warm_up([dict(type="D", params=k) for k in c["kw"]])
    return s


def drive(t, steps, after_step=None, discs=DISC, warm=None, buffers=True, crowd=False):
    """Run one configuration under the monitor. Returns (sim, monitor, config) or None after a failure."""
    T_, c = make(t, discs, warm, buffers, crowd)
    K = c["K"]
    m = NodeMonitor(c["n"], K, c["disc"], c["r"], c["ks"], c["kw"])
    with T_:
        with sut(t, "build"):
            s = build(c)
        if t.fails:
            return None
        arr_ref = [T_.ref(k) for k in c["ka"]]
        next_arr = [a() for a in arr_ref]
        svc = set(c["ks"]) | set(c["kw"] or ())
        draws = []
        T_.on_draw = lambda key, i, v: draws.append((key, v)) if key in svc else None
        tt, most = 0.0, 0
        with sut(t, "run"):
            snap = m.snap(s)
            for i in range(steps):
                draws.clear()
                cnt = (list(s.arrived), list(s.served), list(s.dropped))
                s.run_one_step()
                new = m.snap(s)
                t.ev()
                da = [a - b for a, b in zip(s.arrived, cnt[0])]
                ds = [a - b for a, b in zip(s.served, cnt[1])]
                dd = [a - b for a, b in zip(s.dropped, cnt[2])]
                te, je = m.next_end(snap[0])
                ta, ka = min((x, k) for k, x in enumerate(next_arr))
                try:
                    if s.ttek < tt - 1e-12:
                        raise Bad("clock", f"clock went back from {tt} to {s.ttek}")
                    if ta < te:
                        if not (da[ka] == 1 and sum(da) == 1 and sum(ds) == 0):
                            raise Bad("event-order", f"event {i}: expected the arrival of class {ka} at {ta}, saw arrivals {da} departures {ds} at {s.ttek}")
                        if not close(s.ttek, ta):
                            raise Bad("event-time", f"event {i}: arrival of class {ka} at {s.ttek}, scripted {ta}")
                        next_arr[ka] = ta + arr_ref[ka]()
                        ids = [x for x in new[0] if x is not None] + [x for q in new[1].values() for x in q]
                        unknown = [x for x in ids if x not in m.jobs]
                        jid = unknown[0] if unknown else None
                        m.arrival(ta, ka, jid, snap, new, draws)
                        if dd[ka] != (jid is None) or sum(dd) != (jid is None):
                            raise Bad("drop-count", f"event {i}: drop counters changed by {dd}, job present: {jid is not None}")
                    else:
                        k = m.jobs[je].cls
                        if not (ds[k] == 1 and sum(ds) == 1 and sum(da) == 0):
                            raise Bad("due-service", f"event {i}: expected the departure of a class {k} job at {te} (drawn {m.jobs[je].work}, interrupted "
                                      f"{m.jobs[je].pre} times), saw arrivals {da} departures {ds} at {s.ttek}")
                        if not close(s.ttek, te):
                            raise Bad("due-service", f"event {i}: departure of class {k} at {s.ttek}, due {te} (drawn {m.jobs[je].work}, "
                                      f"interrupted {m.jobs[je].pre} times, intervals {m.jobs[je].intervals})")
                        m.departure(te, je, snap, new, draws)
                    for k in range(K):
                        if s.arrived[k] != s.served[k] + s.dropped[k] + s.in_sys[k] or s.in_sys[k] != m.in_sys[k]:
                            raise Bad("conservation", f"event {i}: class {k} arrived {s.arrived[k]} served {s.served[k]} dropped {s.dropped[k]} in system {s.in_sys[k]}, present {m.in_sys[k]}")
                    if s.free_channels != sum(1 for x in new[0] if x is None):
                        raise Bad("free-channels", f"event {i}: free_channels={s.free_channels}, idle channels {sum(1 for x in new[0] if x is None)}")
                    inv = m.inversion(*new)
                    if inv:
                        raise Bad("inversion", f"event {i}: class {inv[0]} waits while class {inv[1]} is in service")
                except Bad as b:
                    t.fail(b.key, f"{b.msg} [event {i}]")
                    return None
                tt = s.ttek
                snap = new
                most = max(most, sum(m.in_sys))
                if after_step is not None and after_step(i, s, m) is False:
                    return None
        if t.fails:
            return None
    for name in ("interruptions", "repeat_interruptions", "queue_starts", "direct", "queued", "warm_starts"):
        t.count(name, getattr(m, name))
    t.count("disc_" + c["disc"], sum(m.served))
    t.count("drops", sum(m.dropped))
    t.count("crowded", most > 300)
    t.sig(c["disc"], K, c["n"], c["r"], c["kw"] is not None, m.interruptions, sum(m.served))
    t.sample(arrived=m.arrived, served=m.served, dropped=m.dropped, interruptions=m.interruptions)
    return s, m, c
