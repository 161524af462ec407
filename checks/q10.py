import numpy as np
from mq.core import sut
from mq.tape import Tapes, STYLES
from mq.prio import NodeMonitor, Bad, close
from mq.refq import moments

PROPERTY = "Q10"
RULE = ("random networks (1-4 nodes, 1-4 classes, feedback routing, class-specific matrices, random rank permutations, five disciplines); every event of every node "
        "judged by a node monitor, every job followed along its route; distinct = (nodes, channels, classes, disciplines, permutations, served)")
DISC = ["PR", "NP", "RS", "RW", "No"]


def routing(rng, N):
    R = np.zeros((N + 1, N + 1))
    ent = rng.dirichlet(np.ones(N)) * (rng.random(N) < 0.7)
    if ent.sum() == 0:
        ent[int(rng.integers(N))] = 1
    R[0, :N] = ent / ent.sum()
    for i in range(1, N + 1):
        w = rng.exponential(1, N + 1) * (rng.random(N + 1) < 0.6)
        w[N] = w[N] + rng.choice([0.3, 1.0, 3.0]) * max(w.sum(), 0.5)
        if rng.random() < 0.25 and i < N:      # a deterministic hop forward
            w = np.zeros(N + 1)
            w[i] = 1
        R[i] = w / w.sum()
    return R


def config(t, discs=DISC):
    rng = t.rng
    N = int(rng.choice([1, 2, 2, 3, 4]))
    K = int(rng.choice([1, 2, 3, 3, 4]))
    if rng.random() < .12:   # many nodes or classes
        N, K = int(rng.integers(1, 10)), int(rng.integers(1, 8))
    n = [int(rng.choice([1, 1, 2, 3])) for _ in range(N)]
    if rng.random() < .1:
        n = [int(rng.integers(1, 13)) for _ in range(N)]
    prty = [str(rng.choice(discs)) for _ in range(N)]
    R = [routing(rng, N) for _ in range(K)]
    if rng.random() < 0.3:
        R = [R[0]] * K
    perms = [[int(x) for x in rng.permutation(K)] for _ in range(N)]
    L = [float(rng.uniform(0.2, 1.0)) for _ in range(K)]
    return N, K, n, prty, R, perms, L


def events(t, crowd=False):
    rng = t.rng
    N, K, n, prty, R, perms, L = config(t)
    from most_queue.sim.priority_network import PriorityNetwork
    T_ = Tapes(rng)
    rho = float(rng.choice([0.4, 0.7, 0.9])) if not crowd else float(rng.uniform(2, 6))   # overload
    flow = np.array([L[k] * np.linalg.solve(np.eye(N) - R[k][1:, :N].T, R[k][0, :N]) for k in range(K)])   # [k, node]
    keys = []
    for m in range(N):
        tot = max(flow[:, m].sum(), 0.05)
        keys.append([T_.new(str(rng.choice(("exp", "uniform", "narrow"))), rho * n[m] / tot * float(rng.choice([0.7, 1.2]))) for _ in range(K)])
    L = [l / T_.unit for l in L]
    t.params(nodes=N, classes=K, n=n, prty=prty, perms=perms, L=L, R=[r.tolist() for r in R], rho=rho)
    Rsim = [np.matrix(r) for r in R] if rng.random() < 0.5 else [r.copy() for r in R]
    mons = []
    for m in range(N):
        by_rank = [None] * K
        for k in range(K):
            by_rank[perms[m][k]] = keys[m][k]
        mons.append(NodeMonitor(n[m], K, prty[m], None, by_rank))
    moves = {}
    where, entry, waited = {}, {}, {}
    soj, wts = [[] for _ in range(K)], [[] for _ in range(K)]
    arrived, gaps = [0] * K, [[] for _ in range(K)]
    draws = []
    svc = {k for row in keys for k in row}
    cur = dict(t=0.0, moved=[], k=None)
    with T_:
        with sut(t, "build"):
            net = PriorityNetwork(K, L, Rsim, n, prty, [[dict(type="D", params=keys[m][k]) for k in range(K)] for m in range(N)], perms)
        if t.fails:
            return
        T_.on_draw = lambda key, i, v: draws.append((key, v)) if key in svc else None

        def wrap(m):
            s = net.smos[m]
            mon = mons[m]
            oa, os_ = s.arrival, s.serving

            def arrival(*a, **kw):
                before = mon.snap(s)
                draws.clear()
                r = oa(*a, **kw)
                after = mon.snap(s)
                objs = [x.tsk_on_service for x in s.servers if not x.is_free]
                objs += list(s.queue) if mon.flat else [x for q in s.queue for x in q]
                new = [o for o in objs if o.id not in mon.jobs]
                if len(new) != 1:
                    raise Bad("lost", f"node {m}: {len(new)} new jobs after an arrival")
                o = new[0]
                mon.arrival(cur["t"], perms[m][o.k], o.id, before, after, draws)
                cur["moved"].append(("in", m, o.id, o.k))
                return r

            def serving(*a, **kw):
                before = mon.snap(s)
                draws.clear()
                te, je = mon.next_end(before[0])
                r = os_(*a, **kw)
                after = mon.snap(s)
                if je is None:
                    raise Bad("departure", f"node {m}: departure while nobody is in service")
                j = mon.departure(cur["t"], je, before, after, draws)
                cur["moved"].append(("out", m, je, j.wait))
                return r
            s.arrival, s.serving = arrival, serving
        for m in range(N):
            wrap(m)
        steps = 3000 if t.thorough or crowd else 900
        with sut(t, "run"):
            last = [0.0] * K
            for i in range(steps):
                nxt = list(net.arrival_time)
                ta, ka = min((x, k) for k, x in enumerate(nxt))
                te, je, me = min(((*(mons[m].next_end(mons[m].snap(net.smos[m])[0])), m) for m in range(N)), key=lambda x: x[0])
                is_arr = ta < te
                cur.update(t=min(ta, te), moved=[])
                t.ev()
                try:
                    net.run_one_step()
                    if not close(net.ttek, cur["t"]):
                        raise Bad("clock", f"event {i}: clock {net.ttek}, next event at {cur['t']}")
                    mv = cur["moved"]
                    if is_arr:
                        if [x[0] for x in mv] != ["in"]:
                            raise Bad("event-order", f"event {i}: expected an external arrival of class {ka} at {ta}, saw {mv}")
                        _, m, jid, k = mv[0]
                        if k != ka:
                            raise Bad("class", f"event {i}: arrival of class {ka} entered as class {k}")
                        if jid in where:
                            raise Bad("job-identity", f"event {i}: new job has the identity of a present one")
                        frm = 0
                        arrived[k] += 1
                        gaps[k].append(ta - last[k]); last[k] = ta
                        entry[jid], waited[jid], where[jid] = (k, ta), 0.0, m
                        if any(net.arrival_time[x] != nxt[x] for x in range(K) if x != k):
                            raise Bad("arrival-clock", f"event {i}: another class's next arrival moved")
                        if not net.arrival_time[k] > ta:
                            raise Bad("arrival-clock", f"event {i}: next arrival of class {k} not after {ta}")
                    else:
                        if not mv or mv[0][0] != "out" or mv[0][1] != me or mv[0][2] != je or len(mv) > 2:
                            raise Bad("event-order", f"event {i}: expected the departure of job {je} from node {me} at {te}, saw {mv}")
                        k, _ = entry[je]
                        frm = me + 1
                        waited[je] += mv[0][3]
                        if list(net.arrival_time) != nxt:
                            raise Bad("arrival-clock", f"event {i}: next arrivals moved at a departure")
                        if len(mv) == 2:
                            if mv[1][0] != "in" or mv[1][2] != je or mv[1][3] != k:
                                raise Bad("routing", f"event {i}: job {je} of class {k} left node {me} and {mv[1]} entered")
                            m = mv[1][1]
                            where[je] = m
                        else:
                            m = N
                            soj[k].append(te - entry[je][1])
                            wts[k].append(waited[je])
                            del where[je], entry[je], waited[je]
                    if R[k][frm, m] <= 0:
                        raise Bad("routing", f"event {i}: class {k} moved from {frm - 1} to {m} with probability 0")
                    moves[(k, frm, m)] = moves.get((k, frm, m), 0) + 1
                    for k in range(K):
                        ins = sum(1 for j in where if entry[j][0] == k)
                        if net.arrived[k] != arrived[k] or net.served[k] != len(soj[k]) or net.in_sys[k] != ins:
                            raise Bad("counters", f"event {i}: class {k} arrived {net.arrived[k]} served {net.served[k]} in network {net.in_sys[k]}; history {arrived[k]} {len(soj[k])} {ins}")
                        if ins != sum(net.smos[m].in_sys[perms[m][k]] for m in range(N)):
                            raise Bad("conservation", f"event {i}: class {k}: {ins} in network, nodes hold {[net.smos[m].in_sys[perms[m][k]] for m in range(N)]}")
                except Bad as b:
                    t.fail(b.key, f"{b.msg} [event {i}]")
                    return
        if t.fails:
            return
        for k in range(K):
            if soj[k]:
                t.closev("v_network", net.v_network[k], moments(soj[k]), rtol=1e-7, msg=f"network sojourn moments of class {k}")
                t.closev("w_network", net.w_network[k], moments(wts[k]), rtol=1e-7, atol=1e-9, msg=f"network wait moments of class {k}")
        for m in range(N):
            for q in range(K):
                if mons[m].soj[q]:
                    t.closev("v_node", net.smos[m].v[q], moments(mons[m].soj[q]), rtol=1e-7, msg=f"node {m} sojourn rank {q}")
                    t.closev("w_node", net.smos[m].w[q], moments(mons[m].waits[q]), rtol=1e-7, atol=1e-9, msg=f"node {m} wait rank {q}")
    # routing frequencies and external arrival rates, at z-bounds no honest run reaches
    for k in range(K):
        for f in range(N + 1):
            tot = sum(moves.get((k, f, m), 0) for m in range(N + 1))
            for m in range(N + 1):
                p = R[k][f, m]
                sd = np.sqrt(tot * p * (1 - p)) + 1
                t.require("routing-frequency", abs(moves.get((k, f, m), 0) - tot * p) <= 7 * sd,
                          f"class {k} {f - 1}->{m}: {moves.get((k, f, m), 0)} of {tot}, probability {p}")
        if arrived[k] > 30:
            g = np.array(gaps[k])
            t.require("arrival-rate", abs(g.mean() * L[k] - 1) <= 7 / np.sqrt(len(g)), f"class {k}: mean interarrival {g.mean()} with intensity {L[k]} over {len(g)}")
            t.require("arrival-variance", abs((g ** 2).mean() * L[k] ** 2 / 2 - 1) <= 9 * np.sqrt(5 / len(g)), f"class {k}: interarrival second moment {(g**2).mean()}")
    t.count("moves", sum(moves.values()))
    t.count("left", sum(len(x) for x in soj))
    t.count("self_loops", sum(v for (k, f, m), v in moves.items() if f - 1 == m))
    t.count("nontrivial_perms", sum(1 for p in perms if [p[p[i]] for i in range(K)] != list(range(K))))
    t.count("interruptions", sum(m.interruptions for m in mons))
    t.sig(N, n, K, prty, perms, [len(x) for x in soj])
    t.sample(left=[len(x) for x in soj], moves=len(moves))


def tandem(t):
    """run() to a served total equals stepping; a deterministic route is followed exactly."""
    rng = t.rng
    from most_queue.sim.priority_network import PriorityNetwork
    N, K = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    n = [int(rng.integers(1, 3)) for _ in range(N)]
    R = []
    for k in range(K):
        order = [int(x) for x in rng.permutation(N)]
        r = np.zeros((N + 1, N + 1))
        r[0, order[0]] = 1
        for a, b in zip(order, order[1:] + [N]):
            r[a + 1, b] = 1
        R.append(r)
    T_ = Tapes(rng, units=False)
    keys = [[T_.new("uniform", 0.5 * n[m] / K) for _ in range(K)] for m in range(N)]
    t.params(nodes=N, classes=K, n=n, R=[r.tolist() for r in R])
    goal = int(rng.integers(20, 120))
    with T_, sut(t, "run"):
        net = PriorityNetwork(K, [1.0] * K, R, n, ["NP"] * N, [[dict(type="D", params=keys[m][k]) for k in range(K)] for m in range(N)],
                              [list(range(K)) for _ in range(N)])
        net.run(goal)
        t.require("stop", sum(net.served) == goal, f"run({goal}) stopped at {sum(net.served)} jobs served")
        for m in range(N):
            for k in range(K):
                t.require("route", net.smos[m].served[k] >= net.served[k], f"node {m} served {net.smos[m].served[k]} of class {k}, network {net.served[k]}")
        a = [list(net.arrived), sum(net.in_sys)]
        t.require("conservation", sum(a[0]) == goal + a[1], f"arrived {a[0]}, served {goal}, in network {a[1]}")
        t0 = net.ttek
        net.run(goal + 10)
        t.require("continue", sum(net.served) == goal + 10 and net.ttek > t0, "run() again did not continue")
        ev = sum(net.arrived) + sum(s.total for s in net.smos)
        net.run(25, is_real_served=False)
        t.require("events", sum(net.arrived) + sum(s.total for s in net.smos) == ev + 25, "run(25 events) did not do 25 events")
    t.count("tandem", goal)
    t.sig(N, K, n, goal)


GROUPS = {"events": (events, 400, 2400), "overload": (lambda t: events(t, True), 24, 160), "tandem": (tandem, 100, 600)}
NEED = {"moves": 30000, "left": 5000, "self_loops": 500, "nontrivial_perms": 20, "interruptions": 500}
