"""Q21: sample streams follow the declared law and use only the generator given."""
import math
import numpy as np
from mq.core import sut
from mq.fam import Law, random_law, mq_class, logu, KINDS

PROPERTY = "Q21"
RULE = "distinct (family, way of construction, parameters) streams whose law was tested"
NEED = {"streams": 60, "samples": 300000, "generator_checks": 60}
CPU_BUDGET = 200


def make_args(l):
    return l.p


def static_args(l):
    return (l.p,) if l.kind in ("M", "D") else tuple(l.p)


def law_test(t, l, x, how):
    """KS distance, mean, variance and serial correlation of a stream; false-alarm odds below 1e-11 each."""
    x = np.asarray(x, float)
    n = len(x)
    t.count("streams"); t.count("samples", n)
    t.sig(l.kind, how, repr(l.p))
    if not t.require("finite", np.all(np.isfinite(x)), "a sample is not finite", law=repr(l), how=how):
        return
    if l.kind == "D":
        t.require("Det", np.all(x == l.p), f"deterministic law {l.p} gave {x[:5]}")
        return
    if l.kind not in ("Norm",):
        t.require("negative", np.min(x) >= 0, f"negative sample {np.min(x)}", law=repr(l))
    xs = np.sort(x)
    F = np.asarray(l.cdf(xs), float)
    i = np.arange(1, n + 1)
    d = max(np.max(i / n - F), np.max(F - (i - 1) / n))
    lim = math.sqrt(-math.log(1e-12 / 2) / (2 * n))
    t.require("law", d <= lim, f"{l} {how}: KS distance {d:.4f} of {n} samples exceeds {lim:.4f}", law=repr(l), how=how)
    # moments: light tails only
    m = l.moments(8)
    if l.kind != "Pa" or l.p[0] > 8:
        mean, var = l.mean(), l.var()
        z = (x.mean() - mean) / math.sqrt(var / n)
        t.require("mean", abs(z) < 8, f"{l} {how}: mean {x.mean()} is {z:.1f} sigma from {mean}")
        c = (x - mean) ** 2
        if l.kind == "Norm":
            m4 = 3 * var ** 2
        else:
            m4 = m[3] - 4 * m[2] * mean + 6 * m[1] * mean ** 2 - 3 * mean ** 4
        sv = math.sqrt(max(m4 - var ** 2, 1e-12 * var ** 2) / n)
        kurt = m4 / var ** 2
        if kurt < 60:
            t.require("variance", abs(c.mean() - var) < 12 * sv, f"{l} {how}: variance {c.mean()} instead of {var} ({(c.mean()-var)/sv:.1f} sigma)")
    # independence on ranks (uniform scores are bounded, so no tail problem)
    u = np.asarray(l.cdf(x), float)
    for lag in (1, 2, 3):
        a, b = u[:-lag] - .5, u[lag:] - .5
        r = np.mean(a * b) * 12 * math.sqrt(n - lag)
        t.require("independence", abs(r) < 8, f"{l} {how}: lag-{lag} correlation is {r:.1f} sigma from 0")
    # tail: number beyond the 99.9% point
    k = int(np.sum(u > .999))
    t.require("tail", abs(k - n * .001) <= 8 * math.sqrt(n * .001) + 8, f"{l} {how}: {k} of {n} samples beyond the 99.9% point")
    k = int(np.sum(u < .01))
    t.require("head", abs(k - n * .01) <= 8 * math.sqrt(n * .01), f"{l} {how}: {k} of {n} samples below the 1% point")


def stream(t):
    from most_queue.sim.utils.distribution_utils import create_distribution
    rng = t.rng
    kind = KINDS[t.idx % len(KINDS)]
    how = ["object+generator", "factory", "static+generator", "object", "static"][(t.idx // len(KINDS)) % 5]
    l = random_law(rng, kind)
    if t.idx // len(KINDS) >= 5 and rng.random() < .5:
        # corner parameters
        if kind == "H":
            l = Law("H", [float(rng.choice([0.0, 1.0, .5])), 2.0, 2.0 if rng.random() < .3 else .1])
        if kind == "C":
            l = Law("C", [float(rng.choice([0.0, 1.0])), 2.0, float(rng.choice([2.0, .5]))])
        if kind == "E":
            l = Law("E", [int(rng.choice([1, 2, 30])), .7])
        if kind == "Gamma":
            l = Law("Gamma", [.7, float(rng.choice([.3, 1, 20]))])
    t.params(law=repr(l), how=how)
    n = 60000 if t.thorough else 15000
    C = mq_class(kind)
    g = np.random.Generator(np.random.PCG64(t.entropy + [3]))
    with sut(t, "generate"):
        if how == "object+generator":
            d = C(l.p) if kind == "D" else C(l.p, generator=g)
            x = [d.generate() for _ in range(n)]
        elif how == "factory":
            d = create_distribution(l.p, kind, g)
            t.require("factory-type", type(d) is C, f"letter {kind} made a {type(d).__name__}")
            x = [d.generate() for _ in range(n)]
        elif how == "static+generator":
            x = [C.generate_static(*static_args(l)) if kind == "D" else C.generate_static(*static_args(l), generator=g) for _ in range(n)]
        elif how == "object":
            d = C(l.p)
            x = [d.generate() for _ in range(n)]
        else:
            x = [C.generate_static(*static_args(l), *([None] if kind == "C" else [])) for _ in range(n)]
    if t.fails:
        return
    law_test(t, l, x, how)
    t.sample(first=x[:3])


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


class Watch:
    """Stand-in generator: records every draw method used and passes it on to a real generator."""

    def __init__(self, g):
        self.g, self.calls = g, 0

    def __getattr__(self, name):
        f = getattr(self.g, name)
        if callable(f):
            def w(*a, **k):
                self.calls += 1
                return f(*a, **k)
            return w
        return f


def generator(t):
    """With a generator given: the same seed gives the same stream, nothing else is drawn from, and every sample uses it."""
    from most_queue.sim.utils.distribution_utils import create_distribution
    rng = t.rng
    kind = [k for k in KINDS if k != "D"][t.idx % (len(KINDS) - 1)]
    l = random_law(rng, kind)
    C = mq_class(kind)
    how = ["object", "factory", "static"][(t.idx // (len(KINDS) - 1)) % 3]
    t.params(law=repr(l), how=how)
    s = int(rng.integers(1 << 30))
    n = 50
    streams = []
    made = []
    keep = np.random.default_rng

    def counted(*a, **k):
        made.append(a)
        return keep(*a, **k)
    np.random.default_rng = counted
    try:
        for rep in range(2):
            np.random.seed(1000 + rep)          # the global state differs between the two runs
            before = np.random.get_state()
            w = Watch(np.random.Generator(np.random.PCG64(s)))
            x = []
            with sut(t, "generate"):
                d = None
                if how == "object":
                    d = C(l.p, generator=w)
                elif how == "factory":
                    d = create_distribution(l.p, kind, w)
                for _ in range(n):
                    c0 = w.calls
                    x.append(C.generate_static(*static_args(l), generator=w) if d is None else d.generate())
                    t.require(f"generator:{kind}", w.calls > c0, f"{kind} ({how}) took a sample without its generator")
            streams.append(x)
            t.require(f"generator:{kind}", same_state(before, np.random.get_state()), f"{kind} ({how}) drew from numpy's global generator although it was given one")
        t.require(f"generator:{kind}", streams[0] == streams[1], f"{kind} ({how}): the same generator seed gave different streams")
        t.require(f"generator:{kind}", not made, f"{kind} ({how}) made a generator of its own")
        t.require(f"varied:{kind}", len(set(streams[0])) > n // 2, f"{kind} ({how}): samples repeat")
    finally:
        np.random.default_rng = keep
    t.count("generator_checks")
    t.sig("gen", kind, how)


def two_objects(t):
    """Two objects of a law sharing one generator interleave without sharing values; objects keep their own parameters."""
    rng = t.rng
    kinds = [k for k in KINDS if k != "D"]
    a, b = random_law(rng, kinds[t.idx % len(kinds)]), random_law(rng, kinds[int(rng.integers(len(kinds)))])
    t.params(a=repr(a), b=repr(b))
    g = np.random.Generator(np.random.PCG64(t.entropy + [5]))
    n = 30000 if t.thorough else 8000
    with sut(t, "generate"):
        da, db = mq_class(a.kind)(a.p, generator=g), mq_class(b.kind)(b.p, generator=g)
        xa, xb = [], []
        for _ in range(n):
            xa.append(da.generate()); xb.append(db.generate())
    if t.fails:
        return
    law_test(t, a, xa, "interleaved")
    law_test(t, b, xb, "interleaved")
    u, v = np.asarray(a.cdf(np.array(xa))) - .5, np.asarray(b.cdf(np.array(xb))) - .5
    for lag in (0, 1):
        r = np.mean(u[lag:] * v[:n - lag]) * 12 * math.sqrt(n - lag)
        t.require("independence", abs(r) < 8, f"streams of two objects are correlated ({r:.1f} sigma)")


def unknown(t):
    from most_queue.sim.utils.distribution_utils import create_distribution
    from most_queue.sim.utils.exceptions import QsSourseSettingException
    g = np.random.Generator(np.random.PCG64(1))
    bad = ["", "X", "m", "h", "Exp", "Pareto", "G", "M ", "norm", "U", "MM", "gamma", "Det"][t.idx % 13]
    t.params(letter=bad)
    with sut(t, "create_distribution", allow=(QsSourseSettingException,)) as s:
        d = create_distribution([.5, 1, 2], bad, g)
        t.fail("unknown-letter", f"unknown letter {bad!r} gave {type(d).__name__}")
    t.require("unknown-letter", isinstance(s.raised, QsSourseSettingException), f"unknown letter {bad!r} was not refused with QsSourseSettingException")
    t.sig("letter", bad)


GROUPS = {"stream": (stream, 540, 8100), "generator": (generator, 288, 4320), "two": (two_objects, 64, 960), "unknown": (unknown, 13, 13)}
