"""Q41: moments of sums, n-fold sums and differences."""
import math
import numpy as np
from mq.core import sut
from mq.fam import random_law, logu, KINDS

PROPERTY = "Q41"
RULE = "distinct (operation, families, number of moments, n) calls judged"
NEED = {"calls": 400, "negative": 300}


def conv(a, b, num):
    a, b = [1] + list(a), [1] + list(b)
    return [sum(math.comb(k, i) * a[i] * b[k - i] for i in range(k + 1)) for k in range(1, num + 1)]


def algebra(t):
    from most_queue.general_utils import conv as C
    rng = t.rng
    kinds = [k for k in KINDS if k != "Pa"]
    la, lb = random_law(rng, kinds[int(rng.integers(len(kinds)))]), random_law(rng, kinds[int(rng.integers(len(kinds)))])
    num = [3, 3, 2, 1, 4][t.idx % 5]           # more than 3 are cut to 3
    length = max(num, int(rng.integers(num, 5)))
    a, b = la.moments(length), lb.moments(length)
    n = int(rng.integers(0, 9)) if rng.random() < .9 else int(rng.integers(9, 60))
    k = min(num, 3)
    t.params(a=repr(la), b=repr(lb), num=num, n=n, length=length)
    t.sig(la.kind, lb.kind, num, n)
    with sut(t, "conv"):
        s = C.get_moments(list(a), list(b), num)
        t.require("count", len(s) == k, f"{len(s)} moments instead of {k}")
        t.closev("sum", s, conv(a, b, k), rtol=1e-10)
        d = C.get_moments_minus(list(s), list(b), num)
        t.require("count", len(d) == k, f"{len(d)} moments instead of {k}")
        scale = max(1.0, b[0] / a[0], (conv(a, b, 3)[2] / a[2]) if length >= 3 else 1)
        t.closev("minus", d, a[:k], rtol=1e-9 * scale)
        w = [0.0] * 3
        for _ in range(n):
            w = conv(w, b, min(3, length)) + [0] * (3 - min(3, length))
        r = C.get_self_conv_moments(list(b), n, num)
        t.require("count", len(r) == k, f"{len(r)} moments instead of {k}")
        t.closev("self", r, w[:k], rtol=1e-9)
        t.count("calls", 3)
        # complex moments (the solvers work with complex H2 fits)
        ca = [x * (1 + .01j * (i + 1)) for i, x in enumerate(a)]
        cb = [x * (1 - .02j * (i + 1)) for i, x in enumerate(b)]
        t.closev("sum-complex", C.get_moments(ca, cb, num), conv(ca, cb, k), rtol=1e-10)
        t.count("calls")
    # default number of moments
    if length >= 3:
        with sut(t, "conv-default"):
            t.closev("sum", C.get_moments(a, b), conv(a, b, 3), rtol=1e-10)
            t.require("count", len(C.get_self_conv_moments(b, 2)) == 3 and len(C.get_moments_minus(s if k == 3 else conv(a, b, 3), b)) == 3, "default is not three moments")
    t.sample()


def signed(t):
    """Variables that may be negative: laws moved along the axis and mirrored."""
    from most_queue.general_utils import conv as C
    rng = t.rng
    kinds = [k for k in KINDS if k != "Pa"]

    def law():
        x = random_law(rng, kinds[int(rng.integers(len(kinds)))])
        m = [1] + list(x.moments(3))
        s, sh = float(rng.choice([-1, 1])), float(rng.uniform(-3, 3)) * m[1]
        return x.kind, [sum(math.comb(k, i) * s ** i * m[i] * sh ** (k - i) for i in range(k + 1)) for k in range(1, 4)]
    (ka, a), (kb, b) = law(), law()
    c = logu(rng, 1e-2, 1e2) * abs(a[1]) ** .5 / abs(b[1]) ** .5
    b = [x * c ** (k + 1) for k, x in enumerate(b)]
    n = int(rng.integers(0, 6)) if rng.random() < .9 else int(rng.integers(6, 60))
    t.params(a=a, b=b, n=n)
    sa, sb = math.sqrt(a[1]) + abs(a[2]) ** (1 / 3), math.sqrt(b[1]) + abs(b[2]) ** (1 / 3)
    with sut(t, "signed"):
        s = C.get_moments(list(a), list(b))
        d = C.get_moments_minus(conv(a, b, 3), list(b))
        r = C.get_self_conv_moments(list(b), n)
        w = [0.0] * 3
        for _ in range(n):
            w = conv(w, b, 3)
        for k in range(3):
            u = (sa + sb) ** (k + 1)
            t.close("sum", s[k], conv(a, b, 3)[k], rtol=1e-10, atol=1e-10 * u, msg=f"moment {k + 1} of a sum")
            t.close("minus", d[k], a[k], rtol=1e-9, atol=1e-10 * u, msg=f"moment {k + 1} of the restored summand")
            t.close("self", r[k], w[k], rtol=1e-9, atol=1e-10 * (n * sb) ** (k + 1), msg=f"moment {k + 1} of a {n}-fold sum")
        t.count("calls", 3)
    t.count("negative", sum(x < 0 for x in (a[0], a[2], b[0], b[2])))
    t.sig("signed", ka, kb, a[0] < 0, a[2] < 0, b[0] < 0, b[2] < 0, n)
    t.sample()


GROUPS = {"signed": (signed, 2400, 20000), "algebra": (algebra, 7200, 60000)}
