"""Q45: the unit of time does not matter."""
import importlib
import math
import numpy as np
from mq.core import sut
from mq.api import ENTRIES, scaled, rescale
from mq.fam import logu

PROPERTY = "Q45"
RULE = "distinct (calculator, power of ten of the unit) pairs whose results were compared with those in the original unit"
NEED = {e.name: 1 for e in ENTRIES}


def flat(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        out = []
        for x in v:
            out += flat(x)
        return out
    return [complex(v) if v is not None else None]


def calculators(t):
    e = ENTRIES[t.idx % len(ENTRIES)]
    args = e.gen(t.rng)
    c = logu(t.rng, 1e-5, 1e5) if t.idx // len(ENTRIES) % 2 else logu(t.rng, 1e-9, 1e9)
    t.params(entry=e.name, c=c, args=[a[1] for a in args])
    with sut(t, e.name):
        base = {k: (kind, f()) for k, (kind, f) in e.call(importlib.import_module, *[scaled(a, 1.0) for a in args]).items()}
        other = {k: rescale(kind, f(), c) for k, (kind, f) in e.call(importlib.import_module, *[scaled(a, c) for a in args]).items()}
        for k, (kind, v) in base.items():
            a, b = flat(v), flat(other[k])
            if not t.require(f"{e.name}:shape", len(a) == len(b), f"{k}: {len(b)} values in the other unit, {len(a)} in the original one"):
                continue
            fin = [abs(x) for x in a if x is not None and abs(x) < math.inf]
            big = max(fin + [1e-300])
            for i, (x, y) in enumerate(zip(a, b)):
                if x is None or y is None or x != x:
                    ok = (x is None) == (y is None) and (x is None or y != y)
                elif abs(x) == math.inf:
                    ok = x == y
                else:
                    # probabilities: against the largest; moments: each on its own
                    ok = abs(x - y) <= e.tol * (big if kind == "p" or abs(x) < 1e-6 * big else abs(x)) + (1e-300 if kind != "p" else 1e-12)
                if not t.require(f"{e.name}:{k}", ok, f"{k}[{i}] is {x} in the original unit and {y} (rescaled) in a unit {c:.3g} times as small"):
                    break
    t.count(e.name)
    t.sig(e.name, round(math.log10(c)))


GROUPS = {"calculators": (calculators, 24 * len(ENTRIES), 300 * len(ENTRIES))}
