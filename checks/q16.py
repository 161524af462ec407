"""Superposition of flows in simulation: streams recorded at the generators, merged independently."""
import heapq, inspect
import numpy as np
from mq.core import sut

PROPERTY = "Q16"
RULE = ("random pairs and lists of flows per family; every generated interval of both streams is recorded, merged independently, and the reported moments compared; "
        "distinct = (family, flows, moment count, merged mean)")
FAM = {"Gamma": ("Gamma", "sum_2_Gamma_flows"), "H": ("H2_dist", "sum_2_H2_flows"), "Pa": ("Pareto_dist", "sum_2_Pa_flows"), "E": ("Erlang_dist", "sum_2_Erlang_flows")}


def flow(rng, fam):
    m = float(rng.choice([0.1, 1.0, 7.0])) * float(rng.uniform(0.6, 1.6))
    if fam == "H":
        from most_queue.rand_distribution import H2_dist
        cv = float(rng.uniform(1.5, 2.5))
        p = H2_dist.get_params_by_mean_and_coev(m, cv)
        return H2_dist.calc_theory_moments(*p, num=4)
    if fam == "E":
        r = int(rng.integers(1, 6))
        mu = r / m
        out = [m]
        for k in range(2, 5):
            out.append(out[-1] * (r + k - 1) / mu)
        return out
    cv = float(rng.uniform(0.3, 1.8))
    if fam == "Pa":
        cv = float(rng.uniform(0.15, 0.4))
        c = 1 / cv ** 2
        a = 1 + np.sqrt(1 + c)
        k = (a - 1) * m / a
        return [a * k ** i / (a - i) for i in range(1, 3)] + [1.0, 1.0]
    al = 1 / cv ** 2
    mu = al / m
    out = [m]
    for k in range(1, 4):
        out.append(out[-1] * (al + k) / mu)
    return out


class Recorder:
    """Logs every interval each distribution object generates, in order of creation of the objects."""

    def __enter__(self):
        import most_queue.rand_distribution as rd
        self.rd, self.saved, self.streams, self.objs = rd, [], {}, []
        for cls in (rd.Gamma, rd.H2_dist, rd.Pareto_dist, rd.Erlang_dist):
            g = cls.generate
            self.saved.append((cls, g))

            def gen(s, _g=g):
                v = _g(s)
                if id(s) not in self.streams:
                    self.streams[id(s)] = []
                    self.objs.append(s)
                self.streams[id(s)].append(float(v))
                return v
            cls.generate = gen
        return self

    def __exit__(self, *a):
        for cls, g in self.saved:
            cls.generate = g
        return False

    def take(self):
        r = [(o, self.streams[id(o)]) for o in self.objs]
        self.streams, self.objs = {}, []
        return r


def merged(streams, n):
    ev = list(heapq.merge(*[np.cumsum(s) for s in streams]))
    gaps = np.diff(np.concatenate([[0.0], ev]))
    return gaps[:n], ev


def theory(o):
    n = type(o).__name__
    if n == "Gamma":
        return [o.alpha / o.mu, o.alpha * (o.alpha + 1) / o.mu ** 2]
    if n == "H2_dist":
        return [k * (o.y1 / o.m1 ** k + (1 - o.y1) / o.m2 ** k) for k in (1, 2)]
    if n == "Pareto_dist":
        return [o.a * o.k ** i / (o.a - i) for i in (1, 2)]
    return [o.r / o.mu]


def judge(t, rec, flows, res, nm, N):
    if not t.require("streams", len(rec) == 2, f"{len(rec)} generators used for two flows"):
        return
    for (o, s), a in zip(sorted(rec, key=lambda x: theory(x[0])[0]), sorted(flows, key=lambda a: a[0])):
        for k, m in enumerate(theory(o)):
            t.close("fit", m, a[k], rtol=1e-5, msg=f"moment {k + 1} of the stream's law")
    gaps, ev = merged([s for _, s in rec], N)
    if not t.require("count", len(ev) >= N, f"{len(ev)} events generated for {N} intervals"):
        return
    t.require("surplus", len(ev) <= N + 2, f"{len(ev)} events generated for {N} intervals: some never used")
    t.require("moments-len", len(res) == nm, f"{len(res)} moments returned, {nm} asked")
    for k in range(min(nm, len(res))):
        t.close("moments", res[k], float(np.mean(gaps ** (k + 1))), rtol=1e-7, msg=f"merged moment {k + 1}")
    t.count("merged_intervals", N)


def pair(t):
    rng = t.rng
    from most_queue.sim.flow_sum_sim import FlowSumSim
    fam = list(FAM)[t.idx % 4]
    a1, a2 = flow(rng, fam), flow(rng, fam)
    nm, N = int(rng.integers(1, 6)), int(rng.choice([1, 2, 5, 50, 800]))
    t.params(family=fam, a1=a1, a2=a2, moments=nm, intervals=N)
    with Recorder() as R, sut(t, "pair"):
        args = ([list(a1), list(a2)])
        res = getattr(FlowSumSim, FAM[fam][1])(*args, num_of_moments=nm, num_of_sim=N)
        t.require("args", args == [list(a1), list(a2)], "arguments changed")
        judge(t, R.take(), (a1, a2), res, nm, N)
        t.count("pair_" + fam)
        t.sig(fam, nm, N, float(res[0]))


def fold(t):
    """Several flows: each fold sums two flows, total intensity is kept, input untouched."""
    rng = t.rng
    from most_queue.sim.flow_sum_sim import FlowSumSim
    static = t.idx % 2 == 1
    fam = (["Gamma", "H", "E"] if static else ["Gamma", "H", "E", "Pa"])[(t.idx // 2) % (3 if static else 4)]
    k = int(rng.integers(2, 6))
    flows = [flow(rng, fam) for _ in range(k)]
    N = 4000
    t.params(family=fam, flows=flows, static=static)
    calls = []
    name = FAM[fam][1]
    orig = getattr(FlowSumSim, name)
    sig = inspect.signature(orig)
    with Recorder() as R:
        def spy(*a, **kw):
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            b.arguments["num_of_sim"] = N
            r = orig(*b.args, **b.kwargs)
            ins = [list(b.arguments["a1"]), list(b.arguments["a2"])]
            calls.append((ins, list(r)))
            judge(t, R.take(), ins, r, b.arguments["num_of_moments"], N)
            return r
        setattr(FlowSumSim, name, staticmethod(spy))
        try:
            with sut(t, "fold"):
                arg = [list(f) for f in flows]
                if static:
                    res = FlowSumSim.sum_n_flows(arg, fam, verbose=False)
                else:
                    s = FlowSumSim(arg, fam, verbose=False, num_of_jobs=N)
                    s.sum_flows()
                    res = s.result_flow
                t.require("args", arg == [list(f) for f in flows], "argument changed")
                if not t.require("folds", len(calls) == k - 1, f"{len(calls)} pairwise sums for {k} flows"):
                    return
                pool = [list(f) for f in flows]
                for ins, out in calls:
                    for i in ins:
                        if i not in pool:
                            t.fail("fold-input", f"flow {i[:2]} summed but not available (lost or used twice)")
                            return
                        pool.remove(i)
                    pool.append(out)
                t.require("fold-output", len(pool) == 1 and list(res) == pool[0], f"result {res[:2]}, last sum {pool[0][:2]}")
                tot = sum(1 / f[0] for f in flows)
                t.close("intensity", 1 / res[0], tot, rtol=0.25, msg="total intensity")
                if not static:
                    t.closev("coevs", s.coevs, [np.sqrt(o[1] - o[0] ** 2) / o[0] for _, o in calls], rtol=1e-9)
                    t.closev("a1_sum", s.a1_sum, [o[0] for _, o in calls], rtol=1e-12)
                    t.closev("a2_sum", s.a2_sum, [o[1] for _, o in calls], rtol=1e-12)
                t.count("folds", k - 1)
                t.sig("fold", fam, k, static, float(res[0]))
        finally:
            setattr(FlowSumSim, name, staticmethod(orig))


GROUPS = {"pair": (pair, 160, 1600), "fold": (fold, 42, 200)}
NEED = {"merged_intervals": 20000, "folds": 40, "pair_Pa": 10, "pair_E": 10}
