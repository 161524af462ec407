"""Q44: calculators are pure functions of their arguments; observers never disturb a simulation."""
import copy
import importlib
import random
import sys
import numpy as np
from mq.core import sut, install
from mq.api import ENTRIES, scaled
from mq.tape import Tapes
from checks import q06, q45

PROPERTY = "Q44"
RULE = "distinct (calculator, call order) histories and (simulator kind, observer, moment) observations compared with an undisturbed twin"
NEED = {e.name: 1 for e in ENTRIES}
NEED.update({"observed_" + k: 3 for k in set(q06.KINDS) | {"network", "random"}})
NEED.update({"interleaved": 20, "neighbours": 80, "repeated": 100, "observations": 1000, "parameters": 20})


def snap(x):
    """Everything about a value, types included."""
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y) for y in x])
    if isinstance(x, dict):
        return ("dict", sorted((str(k), snap(v)) for k, v in x.items()))
    return (type(x).__name__, repr(x))


def values(v):
    if isinstance(v, dict):
        return [y for k in sorted(v, key=str) for y in values(v[k])]
    return q45.flat(v)


def agree(a, b):
    if len(a) != len(b):
        return f"{len(a)} and {len(b)} values"
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y or x is None or y is None or (x != x and y != y):
            if (x is None) != (y is None):
                return f"value {i}: {x} and {y}"
            continue
        if not abs(x - y) <= 1e-12 * max(abs(x), abs(y)):
            return f"value {i}: {x} and {y}"
    return None


def ambient():
    """State shared by the whole process that a calculation has no business touching."""
    a = np.random.get_state()
    return (a[1].tobytes(), a[2:], random.getstate(), tuple(sorted(np.geterr().items())))


def raw(args):
    return [copy.deepcopy(a[1]) for a in args]


def calculators(t):
    rng = t.rng
    e = ENTRIES[t.idx % len(ENTRIES)]
    args = e.gen(rng)
    o = ENTRIES[int(rng.integers(len(ENTRIES)))]
    while o.cost > 10:
        o = ENTRIES[int(rng.integers(len(ENTRIES)))]
    oargs = o.gen(rng)
    t.params(entry=e.name, args=[a[1] for a in args], other=o.name)
    I = importlib.import_module
    for m in (e, o):
        with sut(t, m.name):
            m.call(I, *raw(args if m is e else oargs))    # everything is imported
    around = ambient()
    with sut(t, e.name):
        # 1. in the written order, each once, the arguments watched
        a1 = raw(args)
        before = [snap(x) for x in a1]
        first = {}
        thunks = e.call(I, *a1)
        for k, (_, f) in thunks.items():
            first[k] = values(copy.deepcopy(f()))
            bad = [i for i, x in enumerate(a1) if snap(x) != before[i]]
            if not t.require(f"{e.name}:{k}:argument", not bad, f"{k} changed argument {bad[:1]}: now {str([a1[i] for i in bad][:1])[:200]}"):
                return
        # 2. the same arguments and objects again, in another order, each twice
        names = list(thunks)
        order = [names[int(i)] for i in rng.permutation(len(names))]
        fresh = bool(rng.integers(0, 2))
        if fresh:
            a1 = raw(args)
            thunks = e.call(I, *a1)
        interleave = bool(rng.integers(0, 2))
        for k in order:
            if interleave and o is not e and rng.random() < 3 / len(order):
                with sut(t, o.name + " between"):
                    ot = o.call(I, *raw(oargs))
                    on = list(ot)
                    ot[on[int(rng.integers(len(on)))]][1]()
                t.count("interleaved")
            x = thunks[k][1]()
            got = values(copy.deepcopy(x))
            d = agree(first[k], got)
            if not t.require(f"{e.name}:{k}:order", d is None, f"{k} depends on what was called before ({'new' if fresh else 'same'} object, order {order[:12]}): {d}"):
                return
            if e.cost < 8 or rng.random() < .3:
                d = agree(first[k], values(thunks[k][1]()))
                t.count("repeated")
                if not t.require(f"{e.name}:{k}:repeat", d is None, f"{k} called twice gives different answers: {d}"):
                    return
        bad = [i for i, x in enumerate(a1) if snap(x) != before[i]]
        t.require(f"{e.name}:argument", not bad, f"argument {bad[:1]} changed")
        now = ambient()
        names = ("numpy's global random generator", "numpy's stored normal variate", "Python's global random generator", "numpy's error settings")
        for nm, x, y in zip(names, around, now):
            t.require(f"{e.name}:ambient", x == y, f"{nm} is not what it was before the calculation")
        t.sig(e.name, tuple(order[:6]), interleave, fresh)
    t.count(e.name)


def fresh_world():
    """Drop the package's modules, so that nothing remembered by them (caches, defaults, globals) survives."""
    for m in [m for m in sys.modules if m == "most_queue" or m.startswith("most_queue.")]:
        del sys.modules[m]


def neighbours(t):
    """A call answers the same whether or not a call with slightly different arguments (some of them equal) came before."""
    rng = t.rng
    light = [e for e in ENTRIES if e.cost < 10]
    e = light[t.idx % len(light)]
    args = e.gen(rng)
    rates = [float(rng.choice([1.0, rng.uniform(.985, 1.015)])) for _ in args]
    c = rates[0] if rates[0] != 1 else 1.01
    other = [("N", copy.deepcopy(a[1])) if a[0] == "N" else (a[0], scaled(a, c if a[0] == "A" else r)) for a, r in zip(args, rates)]
    t.params(entry=e.name, args=[a[1] for a in args], other=[a[1] for a in other])
    I = importlib.import_module

    def run(a):
        return {k: values(copy.deepcopy(f())) for k, (_, f) in e.call(I, *raw(a)).items()}
    with sut(t, e.name):
        fresh_world()
        x = run(args)
        y = run(other)
        fresh_world()
        z = run(other)
        w = run(args)
        for k in z:
            for nm, u, v in (("after", y[k], z[k]), ("before", x[k], w[k])):
                d = agree(u, v)
                if not t.require(f"{e.name}:{k}:memory", d is None, f"{k} with the same arguments differs before and after a call with other arguments: {d}"):
                    return
        t.count("neighbours")
        t.sig("near", e.name, tuple(r != 1 for r in rates))


# ---------------------------------------------------------------- simulators

def observers(s):
    """Whatever a user can ask a simulator (or its parts) in the middle of a run."""
    out = {}
    if getattr(s, "ttek", 0) > 0:
        out["str"] = lambda: str(s)
        if hasattr(s, "get_p"):
            out["get_p"] = s.get_p
        if type(s).__str__ is not object.__str__:
            try:
                s.__str__(True)
                out["short"] = lambda: s.__str__(True)
            except TypeError:
                pass
        for a in ("get_warmup_prob", "get_cold_prob", "get_cold_delay_prob"):
            if hasattr(s, a):
                out[a] = getattr(s, a)
    if hasattr(s, "calc_load"):
        out["calc_load"] = s.calc_load
    for q in ("queue",):
        if hasattr(getattr(s, q, None), "size"):
            out["queue size"] = getattr(s, q).size
    for i, x in enumerate(getattr(s, "servers", [])[:2]):
        out[f"server {i}"] = lambda x=x: str(x)
        if getattr(x, "tsk_on_service", None) is not None and not x.is_free and hasattr(type(x.tsk_on_service), "__str__"):
            out[f"task {i}"] = lambda x=x: str(x.tsk_on_service)
    return out


def network_state(s):
    return dict(ttek=s.ttek, v=q06.flat(s.v_network), w=q06.flat(s.w_network), served=list(s.served), in_sys=list(s.in_sys), arrived=list(s.arrived),
                arr=list(s.arrival_time), nodes=[q06.state(m) for m in s.smos])


def watch(t, kind, build, rewind, steps, state, dt):
    a = build()
    for _ in range(steps):
        a.run_one_step()
    alone = state(a)
    rewind()
    rng = t.rng
    s = build()
    heavy = 0
    freq = float(rng.choice([.05, .3, 1.0]))
    for n in range(steps):
        if rng.random() < freq:
            for target in ([s] + list(getattr(s, "smos", []))):
                ob = observers(target)
                if target is not s:     # a node has no sources of its own: only its counts can be asked for
                    ob = {k: f for k, f in ob.items() if k not in ("str", "short", "calc_load")}
                names = list(ob)
                if not names:
                    continue
                k = names[int(rng.integers(len(names)))]
                if k == "get_p":       # long lists
                    heavy += 1
                    if heavy > 20:
                        continue
                x = ob[k]()
                y = ob[k]()
                t.require("observer-repeat", x == y, f"{k} of {kind} gives {str(x)[:100]} and then {str(y)[:100]}")
                if isinstance(y, list):    # the caller may do what it likes with the result
                    for z in y if y and isinstance(y[0], list) else [y]:
                        for i in range(min(3, len(z))):
                            z[i] = -7.0
                t.count("observations")
                t.sig("obs", kind, k.split()[0], n // 20)
        s.run_one_step()
    q06.same(t, "observed", alone, state(s), f"{kind} watched and unwatched")
    t.count("observed_" + kind)


def simulators(t):
    c, T_, build = q06.prep(t)
    steps = int(t.rng.integers(50, 400))
    with T_, sut(t, c["kind"]):
        watch(t, c["kind"], build, lambda: q06.rewind(T_), steps, q06.state, t.rng)


PARAMS = {"M": .9, "H": [.4, .5, 2.0], "E": [2, 1.9], "Gamma": [1.5, 1.4], "C": [.3, 1.5, 2.0], "Pa": [2.7, .7], "Uniform": [1.0, .9], "Norm": [5.0, .5], "D": 1.1}
LOADED = [k for k in PARAMS if k not in ("Norm",)]


def random_laws(t):
    """The package's own random laws: parameters handed over stay as they are (also when one object is given twice),
    and observers do not draw random numbers."""
    rng = t.rng
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    from most_queue.sim.priority_network import PriorityNetwork
    from most_queue.sim.batch_sim import QueueingSystemBatchSim
    from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
    from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
    from most_queue.sim.fj_sim import ForkJoinSim
    kind = ["base", "batch", "impatient", "finite", "priority", "fj", "network"][t.idx % 7]
    n = int(rng.integers(1, 4))
    K = int(rng.integers(1, 4))
    a, b, w = (str(x) for x in rng.choice(LOADED, 3))
    shared = bool(rng.integers(0, 2)) and kind in ("priority", "base")
    if shared:
        b = a
    ps = {k: copy.deepcopy(PARAMS[k]) for k in PARAMS}
    seed = int(rng.integers(1 << 30))
    t.params(kind=kind, n=n, K=K, laws=[a, b, w], shared=shared, npseed=seed)
    q = [.3, .5, .2]
    N = int(rng.integers(1, 4))
    disc = [str(rng.choice(["PR", "RS", "RW", "NP"])) for _ in range(N)]
    R = []
    for _ in range(K):
        X = rng.dirichlet(np.ones(N + 1), N + 1)
        X[0, :N] /= X[0, :N].sum()
        X[0, N] = 0
        R.append(X)
    perms = [[int(x) for x in rng.permutation(K)] for _ in range(N)]
    L = [float(x) for x in rng.uniform(.2, .8, K)]
    phases = [p for p in ("warm", "cold", "delay") if rng.integers(0, 2)]
    held = dict(ps=ps, q=q, R=R, perms=perms, L=L, disc=disc)

    def make(held):
        ps, q = held["ps"], held["q"]
        install(t)
        np.random.seed(seed)
        if kind == "base":
            s = QueueingSystemSimulator(n, buffer=9)
            if "warm" in phases:
                s.set_warm(ps[w], w)
            if "cold" in phases:
                s.set_cold(ps[a], a)
                if "delay" in phases:
                    s.set_cold_delay(ps[w], w)
        elif kind == "batch":
            s = QueueingSystemBatchSim(n, q, buffer=9)
        elif kind == "impatient":
            s = ImpatientQueueSim(n)
            s.set_impatiens(ps[w], w)
        elif kind == "finite":
            s = QueueingFiniteSourceSim(n, 5)
        elif kind == "fj":
            s = ForkJoinSim(n, n, False, False, 9)
        if kind == "priority":
            s = PriorityQueueSimulator(n, K, held["disc"][0], buffer=9)
            src = held.setdefault("src", [dict(type=a, params=ps[a]) for _ in range(K)] if not shared else [dict(type=a, params=ps[a])] * K)
            srv = held.setdefault("srv", src if shared else [dict(type=b, params=ps[b]) for _ in range(K)])
            s.set_sources(src)
            s.set_servers(srv)
        elif kind == "network":
            srv = held.setdefault("srv", [[dict(type=b, params=ps[b]) for _ in range(K)] for _ in range(N)])
            s = PriorityNetwork(K, held["L"], held["R"], [n] * N, held["disc"], srv, held["perms"])
        else:
            s.set_sources(ps[a], a)
            s.set_servers(ps[b], b)
        return s
    copied = copy.deepcopy(held)
    st = network_state if kind == "network" else q06.state
    steps = int(rng.integers(60, 300))
    with sut(t, kind):
        # one set of parameter objects for both runs, watched; then private copies must give the same
        watch(t, "random" if kind != "network" else "network", lambda: make(held), lambda: None, steps, st, rng)
        now = {k: snap(held[k]) for k in copied}
        for k in copied:
            t.require("parameters", now[k] == snap(copied[k]), f"{kind}: {k} was changed by the simulator: {str(held[k])[:200]}")
        for k in ("src", "srv"):
            if k in held:
                want = {"type": held[k][0]["type"]} if isinstance(held[k][0], dict) else None
                t.require("parameters", want is None or all(d == dict(type=want["type"], params=PARAMS[want["type"]]) for d in held[k]), f"{kind}: {k} was changed by the simulator")
        x, y = make(held), None
        for _ in range(steps):
            x.run_one_step()
        sx = st(x)
        y = make(copied)
        for _ in range(steps):
            y.run_one_step()
        q06.same(t, "shared-parameters", sx, st(y), f"{kind} with parameter objects used before and with copies")
        t.count("parameters")
        t.sig("random", kind, a, b, n, K)


GROUPS = {"calculators": (calculators, 6 * len(ENTRIES), 150 * len(ENTRIES)), "neighbours": (neighbours, 150, 4000), "simulators": (simulators, 200, 3000), "random": (random_laws, 140, 2000)}
