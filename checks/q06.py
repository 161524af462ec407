"""Run control, containers, refusals and isolation, over every simulator."""
import numpy as np
from mq.core import sut
from mq.tape import Tapes, STYLES
from checks import base_common as bc

PROPERTY = "Q06"
RULE = ("a case = one simulator kind and configuration driven twice (run() vs single steps, list vs deque, alone vs interleaved with a second simulator, reversed set-up order) "
        "with identical scripted times; full states compared; plus refusal of unknown kinds; distinct = (group, kind, configuration digest, final clock)")
KINDS = ["base", "base", "base", "batch", "impatient", "finite", "priority", "fj", "sj", "delta"]


def recipe(rng, kind):
    n = int(rng.choice([1, 2, 3, 4]))
    r = int(rng.choice([1, 2, 5])) if rng.random() < 0.4 else None
    c = dict(kind=kind, n=n, r=r, K=int(rng.integers(1, 4)), disc=str(rng.choice(["PR", "RS", "RW", "NP", "No"])),
             m=int(rng.integers(1, 8)), bsize=int(rng.integers(1, 4)), phases=bc.PHASES[int(rng.integers(len(bc.PHASES)))],
             bt=str(rng.choice(["list", "deque"])), purge=bool(rng.random() < 0.5), delta=float(rng.choice([0.05, 0.3])), order=0)
    c["k"] = int(rng.integers(1, n + 1))
    rho = float(rng.choice([0.4, 0.7, 0.9]))
    scale = {"batch": 1.0 / c["bsize"] * n, "priority": n / c["K"], "fj": 1.0, "sj": 0.5, "delta": 0.5}.get(kind, n)
    c["service"] = rho * scale
    c["styles"] = [str(rng.choice(STYLES)) for _ in range(4)]
    return c


def make(T_, c):
    """-> (build function, keys) for one simulator of this recipe, with tapes of its own."""
    kind, n, r = c["kind"], c["n"], c["r"]
    st = c["styles"]
    ka, ks, kp = T_.new(st[0], 1.0), T_.new(st[1] if kind != "priority" else "uniform", c["service"]), T_.new(st[2], 3.0)
    ph = {p: T_.new(st[3], 0.7) for p in c["phases"]} if kind == "base" else {}
    more = [(T_.new("exp", 1.0), T_.new("uniform", c["service"])) for _ in range(c["K"] - 1)]

    def build(bt=None, order=None):
        bt, order = bt or c["bt"], c["order"] if order is None else order
        if kind == "base":
            return bc.build(dict(n=n, r=r, ka=ka, ks=ks, pk=ph, bt=bt, order=order))
        if kind == "priority":
            from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
            s = PriorityQueueSimulator(n, c["K"], c["disc"], buffer=r)
            src = [dict(type="D", params=k) for k in [ka] + [m[0] for m in more]]
            srv = [dict(type="D", params=k) for k in [ks] + [m[1] for m in more]]
            if order:
                s.set_servers(srv); s.set_sources(src)
            else:
                s.set_sources(src); s.set_servers(srv)
            return s
        if kind == "batch":
            from most_queue.sim.batch_sim import QueueingSystemBatchSim
            s = QueueingSystemBatchSim(n, [0.0] * (c["bsize"] - 1) + [1.0], buffer=r)
        elif kind == "impatient":
            from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
            s = ImpatientQueueSim(n, buffer=r)
            s.set_impatiens(kp, "D")
        elif kind == "finite":
            from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
            s = QueueingFiniteSourceSim(n, c["m"], buffer=r)
        elif kind in ("fj", "sj"):
            from most_queue.sim.fj_sim import ForkJoinSim
            s = ForkJoinSim(n, c["k"], kind == "sj", c["purge"] and kind == "fj", None)
        else:
            from most_queue.sim.fj_delta_sim import ForkJoinSimDelta
            s = ForkJoinSimDelta(n, c["k"], c["delta"] * T_.unit, c["purge"], None)
        if order:
            s.set_servers(ks, "D"); s.set_sources(ka, "D")
        else:
            s.set_sources(ka, "D"); s.set_servers(ks, "D")
        return s
    return build


def flat(x):
    if isinstance(x, (list, tuple, np.ndarray)):
        return [flat(y) for y in x]
    return x


def state(s):
    d = {}
    for a in ("ttek", "arrived", "served", "dropped", "taked", "in_sys", "total", "free_channels", "v", "w", "ppnz", "ppnz_moments",
              "zero_wait_arrivals_num", "warm_after_cold_starts", "sub_task_in_sys", "arrival_time", "sources_left"):
        if hasattr(s, a):
            d[a] = flat(getattr(s, a))
    p = s.p
    if p and isinstance(p[0], list):
        d["p"] = [[(j, x) for j, x in enumerate(q[:2000]) if x] for q in p]
    else:
        d["p"] = [(j, x) for j, x in enumerate(p[:5000]) if x]
    d["servers"] = [None if x.is_free else (getattr(x.tsk_on_service, "arr_time", None), x.time_to_end_service) for x in s.servers]
    q = s.queue
    q = q.queue if hasattr(q, "queue") else q
    d["queue"] = [[y.arr_time for y in x] if isinstance(x, list) else x.arr_time for x in q]
    if hasattr(s, "queues"):
        d["queues"] = [[y.arr_time for y in x] for x in s.queues]
    for ph in ("warm_phase", "cold_phase", "cold_delay_phase"):
        if hasattr(s, ph):
            f = getattr(s, ph)
            d[ph] = (f.is_set, f.is_start, f.prob, f.starts_times, f.end_time)
    return d


def same(t, key, a, b, msg):
    t.ev()
    bad = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
    if bad:
        k = sorted(bad)[0]
        t.fail(key, f"{msg}: {', '.join(sorted(bad))} differ, e.g. {k}: {str(a.get(k))[:200]} vs {str(b.get(k))[:200]}")
    return not bad


def served(s):
    return sum(s.served) if isinstance(s.served, list) else s.served


def events(s):
    """Events that changed counters: every event changes the clock or a counter."""
    return None


def rewind(T_):
    for k, tp in T_.tapes.items():
        T_.readers[k] = tp.reader()


def prep(t):
    rng = t.rng
    kind = KINDS[t.idx % len(KINDS)]
    c = recipe(rng, kind)
    t.params(**c)
    T_ = Tapes(rng)
    return c, T_, make(T_, c)


def control(t):
    """run(N) = step until N served; run again continues; run(events=True) = exactly that many steps."""
    c, T_, build = prep(t)
    n1 = int(t.rng.integers(1, 150))
    n2 = n1 + int(t.rng.integers(0, 150))
    ne = int(t.rng.integers(1, 60))
    with T_, sut(t, c["kind"]):
        a = build()
        a.run(n1)
        sa1 = state(a)
        a.run(n2)
        sa2 = state(a)
        a.run(ne, is_real_served=False)
        sa3 = state(a)
        rewind(T_)
        b = build()
        steps = 0
        while served(b) < n1:
            b.run_one_step(); steps += 1
        same(t, "run-vs-steps", sa1, state(b), f"run({n1}) and {steps} single steps")
        t.require("overshoot", served(a) >= n1 and sa1 is not None, "run stopped early")
        while served(b) < n2:
            b.run_one_step()
        same(t, "run-again", sa2, state(b), f"run({n1}) then run({n2}) and single steps")
        for _ in range(ne):
            b.run_one_step()
        same(t, "run-events", sa3, state(b), f"run({ne} events) and {ne} single steps")
        t.count("runs_" + c["kind"])
        t.sig(t.group, c["kind"], a.ttek)
        t.sample(served=served(a), clock=a.ttek)


def containers(t):
    c, T_, _ = prep(t)
    c["kind"] = "base"
    build = make(T_, c)
    t.params(**c)
    with T_, sut(t, "container"):
        a = build(bt="list")
        a.run(300)
        rewind(T_)
        b = build(bt="deque")
        b.run(300)
        same(t, "list-vs-deque", state(a), state(b), "list and deque containers")
        t.require("stats", a.get_p()[:50] == b.get_p()[:50], "get_p differs between containers")
        t.count("containers")
        t.sig("cont", a.ttek)


def isolation(t):
    """Two simulators stepped in turns give what each gives alone (whatever the other is)."""
    rng = t.rng
    c1, T_, b1 = prep(t)
    c2 = recipe(rng, KINDS[int(rng.integers(len(KINDS)))])
    if rng.random() < 0.4:
        c2 = dict(c1)
    b2 = make(T_, c2)
    t.params(first=c1, second=c2)
    pattern = rng.random(400) < rng.choice([0.1, 0.5, 0.9])
    with T_, sut(t, "isolation"):
        x = b1()
        for p in pattern:
            if p:
                x.run_one_step()
        alone1 = state(x)
        y = b2()
        for p in pattern:
            if not p:
                y.run_one_step()
        alone2 = state(y)
        rewind(T_)
        x, y = b1(), b2()
        for p in pattern:
            (x if p else y).run_one_step()
        same(t, "isolation", alone1, state(x), f"{c1['kind']} alone and interleaved with {c2['kind']}")
        same(t, "isolation", alone2, state(y), f"{c2['kind']} alone and interleaved with {c1['kind']}")
        rewind(T_)
        x, y = b1(order=1), None
        for p in pattern:
            if p:
                x.run_one_step()
        same(t, "setup-order", alone1, state(x), "sources set before and after servers")
        t.count("isolation")
        t.sig("iso", c1["kind"], c2["kind"], x.ttek)


def seeded(t):
    """The same seed gives the same run, with the package's own random laws, through run() and through steps."""
    rng = t.rng
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    from mq.core import install
    kinds = {"M": 0.9, "H": [0.4, 0.5, 2.0], "E": [2, 1.9], "Gamma": [1.5, 1.4], "C": [0.3, 1.5, 2.0], "Pa": [2.7, 0.7], "Uniform": [1.0, 0.9], "Norm": [5.0, 0.5], "D": 1.1}
    a, b = (str(x) for x in rng.choice(list(kinds), 2))
    n = int(rng.integers(1, 4))
    seed = int(rng.integers(1 << 30))
    t.params(source=a, service=b, n=n, npseed=seed)

    def go(bt, by_steps):
        install(t)
        np.random.seed(seed)
        s = QueueingSystemSimulator(n, buffer=8, buffer_type=bt)
        s.set_sources(kinds[a], a)
        s.set_servers(kinds[b], b)
        if by_steps:
            while s.served < 200:
                s.run_one_step()
        else:
            s.run(200)
        return state(s)
    with sut(t, "seeded"):
        x = go("list", False)
        same(t, "seeded", x, go("list", False), "two runs from the same seed")
        same(t, "seeded", x, go("deque", False), "list and deque from the same seed")
        same(t, "seeded", x, go("deque", True), "run() and steps from the same seed")
        t.count("seeded")
        t.sig("seed", a, b, x["ttek"])


def refusals(t):
    rng = t.rng
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
    from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
    from most_queue.sim.utils.exceptions import QsSourseSettingException, QsWrongQueueTypeException
    bad = ["X", "m", "", "HH", "Exp", "Unif", None, "Normal", "Erlang", "MM", "G", "d", "P", "\u041c"]
    k = bad[t.idx % len(bad)]
    t.params(kind=str(k))

    def refused(what, exc, f):
        t.ev()
        try:
            with sut(t, what, allow=(Exception,)) as g:
                f()
            if g.raised is None:
                t.fail("accepted", f"{what} was accepted")
            elif not isinstance(g.raised, exc):
                t.fail("wrong-error", f"{what} raised {type(g.raised).__name__}: {g.raised}")
            elif not isinstance(g.raised, ValueError) or not str(g.raised):
                t.fail("wrong-error", f"{what}: the error is not a ValueError with a message")
        finally:
            t.count("refusals")
    p = [1.0, 1.0, 1.0]
    refused(f"set_sources kind {k!r}", QsSourseSettingException, lambda: QueueingSystemSimulator(1).set_sources(p, k))
    refused(f"set_servers kind {k!r}", QsSourseSettingException, lambda: QueueingSystemSimulator(2).set_servers(p, k))
    refused(f"set_warm kind {k!r}", QsSourseSettingException, lambda: QueueingSystemSimulator(2).set_warm(p, k))
    refused(f"set_cold kind {k!r}", QsSourseSettingException, lambda: QueueingSystemSimulator(2).set_cold(p, k))
    refused("set_cold_delay before set_cold", QsSourseSettingException, lambda: QueueingSystemSimulator(2).set_cold_delay(1.0, "M"))

    def warm_only():
        s = QueueingSystemSimulator(2)
        s.set_warm(1.0, "M")
        s.set_cold_delay(1.0, "M")
    refused("set_cold_delay with warm-up only", QsSourseSettingException, warm_only)

    def delay_kind():
        s = QueueingSystemSimulator(2)
        s.set_cold(1.0, "M")
        s.set_cold_delay(p, k)
    refused(f"set_cold_delay kind {k!r}", QsSourseSettingException, delay_kind)
    refused(f"impatience kind {k!r}", QsSourseSettingException, lambda: ImpatientQueueSim(1).set_impatiens(p, k))
    refused(f"finite source kind {k!r}", QsSourseSettingException, lambda: QueueingFiniteSourceSim(1, 2).set_sources(p, k))
    pq = lambda: PriorityQueueSimulator(1, 2, "PR")
    mix = [dict(type="M", params=1.0), dict(type=k, params=p)]
    refused(f"priority source kind {k!r}", QsSourseSettingException, lambda: pq().set_sources(mix))
    refused(f"priority server kind {k!r}", QsSourseSettingException, lambda: pq().set_servers(mix))
    refused(f"priority warm-up kind {k!r}", QsSourseSettingException, lambda: pq().set_warm_up(mix))
    for b in ("heap", "", None, "List"):
        refused(f"container {b!r}", QsWrongQueueTypeException, lambda: QueueingSystemSimulator(1, buffer_type=b))
    with sut(t, "accept"):
        s = QueueingSystemSimulator(2)
        s.set_cold(1.0, "M")
        s.set_cold_delay(1.0, "M")
        t.require("accept", s.cold_delay_phase.is_set, "set_cold_delay after set_cold was not kept")
    t.sig("refusal", str(k))


GROUPS = {"control": (control, 200, 2000), "containers": (containers, 60, 600), "isolation": (isolation, 160, 1600), "seeded": (seeded, 80, 800), "refusals": (refusals, 14, 14)}
NEED = {"refusals": 150, "isolation": 70, "containers": 25, "runs_priority": 8, "runs_fj": 8, "runs_delta": 8, "runs_finite": 8, "runs_batch": 8, "runs_impatient": 8, "seeded": 30}
