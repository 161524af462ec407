"""Shared drive of the multichannel simulator against the reference queue."""
import numpy as np
from mq.core import sut
from mq.tape import Tapes, STYLES, TIDE
from mq.refq import RefQueue, moments, occ_fraction

PHASES = [(), ("warm",), ("cold",), ("cold", "warm"), ("cold", "delay"), ("cold", "delay", "warm")]


def make(t, phases=None, buffers=True, big_n=False, crowd=False):
    rng = t.rng
    n = int(rng.choice([1, 1, 2, 2, 3, 4, 5, 7] + ([12, 25] if big_n else [])))
    if rng.random() < .06:
        n = int(rng.integers(8, 41))
    r = None
    if buffers and rng.random() < 0.5:
        r = int(rng.choice([0, 1, 2, 3, 5, 10]))
    if phases is None:
        phases = PHASES[int(rng.integers(len(PHASES)))]
    if r == 0 and phases:
        r = 1
    rho = float(rng.choice([0.1, 0.4, 0.7, 0.9, 1.0, 1.3 if r is not None else 0.95, 3.0 if r is not None else 0.8]))
    if crowd:
        rho, r = float(rng.uniform(.7, .98)), (None if rng.random() < .7 else int(rng.integers(100, 1500)))
    T_ = Tapes(rng)
    ka = T_.new(TIDE if crowd else str(rng.choice(STYLES)), 1.0)
    ks = T_.new(str(rng.choice(STYLES)), rho * n)
    pk = {}
    for p in phases:
        pk[p] = T_.new(str(rng.choice(STYLES)), float(rng.choice([0.05, 0.5, 2.0, 8.0])))
    bt = str(rng.choice(["list", "deque"]))
    t.params(n=n, buffer=r, rho=rho, phases=list(phases), container=bt,
             styles={str(k): (v.style, v.mean) for k, v in T_.tapes.items()})
    ref = RefQueue(n, r, T_.ref(ka), T_.ref(ks), **{p: T_.ref(k) for p, k in pk.items()})
    return T_, ref, dict(n=n, r=r, ka=ka, ks=ks, pk=pk, bt=bt)


def build(c):
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    s = QueueingSystemSimulator(c["n"], buffer=c["r"], verbose=False, buffer_type=c["bt"])
    order = c.get("order", 0)
    if order == 0:
        s.set_sources(c["ka"], "D")
        s.set_servers(c["ks"], "D")
    else:
        s.set_servers(c["ks"], "D")
        s.set_sources(c["ka"], "D")
    pk = c["pk"]
    if "warm" in pk:
        s.set_warm(pk["warm"], "D")
    if "cold" in pk:
        s.set_cold(pk["cold"], "D")
    if "delay" in pk:
        s.set_cold_delay(pk["delay"], "D")
    return s


def in_service(s):
    return sorted(x.tsk_on_service.arr_time for x in s.servers if not x.is_free)


def eq(a, b, rtol=1e-9):
    return abs(a - b) <= rtol * max(1.0, abs(a), abs(b))


def drive(t, s, ref, steps, on_step, key):
    """Step both; on_step(kind) compares. Stops on exception."""
    with sut(t, key) as guard:
        for i in range(steps):
            kind = ref.step()
            s.run_one_step()
            if on_step(i, kind) is False:
                return False
    return guard.raised is None


def steps_for(t, quick=400, thorough=1500):
    return thorough if t.thorough else quick
