"""Scripted random times.  A simulator configured with kind 'D' and parameter `key` draws from tape `key`:
the deterministic law's generator is replaced, for this process, by one that reads the tape.  The same
tape is read independently by the reference model, so both see the same interarrival/service/... times."""
import numpy as np

TIDE = "tide"   # long stretches of tiny gaps, then long stretches of large ones: thousands gather and leave again
STYLES = ("exp", "burst", "narrow", "heavy", "uniform", "lattice")


def draw(rng, style, mean):
    if style == "exp":
        return float(rng.exponential(mean))
    if style == "burst":      # many tiny gaps, few huge ones
        return float(mean * (rng.exponential(0.05) if rng.random() < 0.8 else rng.exponential(4.8)))
    if style == "narrow":
        return float(mean * rng.uniform(0.95, 1.05))
    if style == "heavy":
        return float(mean * rng.lognormal(-0.98, 1.4))
    if style == "lattice":    # near-coincident times
        return float(mean * (rng.integers(1, 4) / 2.0 + rng.uniform(0, 1e-4)))
    return float(mean * rng.uniform(0.0, 2.0))


class Tape:
    def __init__(self, rng, style, mean, unit=1.0):
        self.rng, self.style, self.mean, self.vals, self.unit = rng, style, mean, [], unit
        if style == TIDE:
            self.half = int(rng.integers(400, 2200))

    def at(self, i):
        while len(self.vals) <= i:
            if self.style == TIDE:
                high = (len(self.vals) // self.half) % 2 == 0
                self.vals.append(self.unit * draw(self.rng, "exp", self.mean * (.05 if high else 1.95)))
                continue
            self.vals.append(self.unit * draw(self.rng, self.style, self.mean))
        return self.vals[i]

    def reader(self):
        return Reader(self)


class Reader:
    def __init__(self, tape):
        self.tape, self.i = tape, 0

    def __call__(self):
        v = self.tape.at(self.i)
        self.i += 1
        return v


class Tapes:
    """Tapes by key + the patch of the deterministic distribution."""

    def __init__(self, rng, units=True):
        # the unit of time: nothing in a simulator may depend on it (a power of two keeps the arithmetic exact)
        self.unit = float(rng.choice([1.0, 1.0, 1.0, 2.0 ** -40, 2.0 ** -10, 2.0 ** 17, 2.0 ** 44])) if units else 1.0
        self.rng, self.tapes, self.readers, self.log, self.on_draw = rng, {}, {}, [], None
        self.next_key = 1.0

    def new(self, style, mean):
        # a distinct key value; keys are also plausible deterministic times (used e.g. by calc_load)
        self.next_key += 1.0
        k = round(self.next_key + float(self.rng.uniform(0.001, 0.4)), 6)
        sub = np.random.Generator(np.random.PCG64(self.rng.integers(0, 2**63)))
        self.tapes[k] = Tape(sub, style, mean, self.unit)
        self.readers[k] = self.tapes[k].reader()
        return k

    def ref(self, key):
        return self.tapes[key].reader()

    def read(self, key):
        r = self.readers.get(key)
        if r is None:
            return key
        i = r.i
        v = r()
        if self.on_draw is not None:
            self.on_draw(key, i, v)
        return v

    def used(self, key):
        return self.readers[key].i

    def __enter__(self):
        import most_queue.rand_distribution as rd
        self.rd = rd
        D = rd.Det_dist
        self.saved = (D.__init__, D.__dict__["generate"], D.__dict__["generate_static"])
        tapes = self
        orig_init = D.__init__

        def init(s, b, *a, **k):
            orig_init(s, b, *a, **k)
            s._mq_key = b

        D.__init__ = init
        D.generate = lambda s: tapes.read(s._mq_key)
        D.generate_static = staticmethod(lambda b, *a, **k: tapes.read(b))
        return self

    def __exit__(self, *a):
        D = self.rd.Det_dist
        D.__init__, D.generate, D.generate_static = self.saved
        return False
