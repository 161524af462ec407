"""Q17: reported load = intensity * mean service / channels."""
import math
import numpy as np
from mq.core import sut
from mq.fam import Law, random_law, KINDS, logu

PROPERTY = "Q17"
ROUND = True
RULE = "distinct (source kind, server kind, entry point, classes) loads judged"
NEED = {"loads": 300}
ALL = KINDS


def law(rng, i):
    l = random_law(rng, ALL[i % len(ALL)])
    return l


def single(t):
    from most_queue.sim.utils.distribution_utils import calc_qs_load
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    rng = t.rng
    a, b = law(rng, t.idx), law(rng, t.idx // len(ALL))
    n = int(rng.choice([rng.integers(1, 8), rng.integers(8, 100)]))
    t.params(source=repr(a), server=repr(b), n=n)
    want = b.mean() / a.mean() / n
    t.sig("single", a.kind, b.kind, n)
    with sut(t, "calc_qs_load"):
        t.close("load", calc_qs_load(a.kind, a.p, b.kind, b.p, n), want, rtol=1e-9, msg="calc_qs_load")
        t.count("loads")
    with sut(t, "calc_load"):
        q = QueueingSystemSimulator(n, buffer=[None, 3][t.idx % 2], verbose=False)
        q.set_sources(a.p, a.kind)
        q.set_servers(b.p, b.kind)
        t.close("load", q.calc_load(), want, rtol=1e-9, msg="calc_load of the simulator")
        t.count("loads")


def infinite(t):
    """Pareto laws without a mean: no arrivals rate is reported (None), or the load is infinite."""
    from most_queue.sim.utils.distribution_utils import calc_qs_load
    rng = t.rng
    a = float([1.0, .5, 0.99][t.idx % 3])
    b = law(rng, int(rng.integers(len(ALL))))
    t.params(alpha=a, other=repr(b))
    t.sig("infinite", a, b.kind)
    with sut(t, "infinite"):
        v = calc_qs_load("Pa", [a, 1.3], b.kind, b.p, 2)
        t.require("infinite-source", v is None or v == 0, f"load {v} with an infinite mean interarrival time")
        v = calc_qs_load(b.kind, b.p, "Pa", [a, 1.3], 2)
        t.require("infinite-server", v is None or v == math.inf, f"load {v} with an infinite mean service time")


def classes(t):
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    rng = t.rng
    k, n = int(rng.choice([rng.integers(1, 5), rng.integers(5, 12)])), int(rng.choice([rng.integers(1, 6), rng.integers(6, 60)]))
    src = [law(rng, int(rng.integers(len(ALL)))) for _ in range(k)]
    srv = [law(rng, int(rng.integers(len(ALL)))) for _ in range(k)]
    prty = ["No", "PR", "NP", "RS", "RW"][t.idx % 5]
    t.params(sources=[repr(x) for x in src], servers=[repr(x) for x in srv], n=n, prty=prty)
    want = sum(b.mean() / a.mean() for a, b in zip(src, srv)) / n
    with sut(t, "priority-load"):
        q = PriorityQueueSimulator(n, k, prty)
        q.set_sources([dict(type=x.kind, params=x.p) for x in src])
        q.set_servers([dict(type=x.kind, params=x.p) for x in srv])
        t.close("class-load", q.calc_load(), want, rtol=1e-9, msg="calc_load of the priority simulator")
        t.count("loads")
    t.sig("classes", [x.kind for x in src], [x.kind for x in srv])
    t.sample()


GROUPS = {"single": (single, 3240, 40500), "infinite": (infinite, 540, 6750), "classes": (classes, 2400, 30000)}
