"""Truncated power series of transforms in x = -s: F(x) = sum m_k x^k / k!."""
import math
import numpy as np


def ser(m, K):
    """Series of the moments m (m[0] is the first)."""
    return np.array([1.0] + [m[k] / math.factorial(k + 1) for k in range(K)])


def moments(f, K=None):
    return [float(f[k]) * math.factorial(k) for k in range(1, K + 1 if K else len(f))]


def mul(f, g):
    return np.convolve(f, g)[:len(f)]


def div(f, g):
    out = np.zeros(len(f))
    for k in range(len(f)):
        out[k] = (f[k] - sum(out[i] * g[k - i] for i in range(k))) / g[0]
    return out


def compose(f, g):
    """f(g(x)) with g(0) = 0."""
    assert g[0] == 0
    out = np.zeros(len(f))
    for c in f[::-1]:
        out = mul(out, g)
        out[0] += c
    return out


def ident(K):
    x = np.zeros(K + 1)
    x[1] = 1
    return x


def busy(l, B):
    """Busy period of M/G/1 with arrival rate l and service series B."""
    K = len(B) - 1
    P = np.zeros(K + 1)
    P[0] = 1
    for k in range(1, K + 1):
        c = compose(B, stretch(l, P))[k]
        P[k] = c / (1 - l * B[1])
    return P


def stretch(l, P):
    """x -> x + l (P(x) - 1): work during which interruptions P arrive at rate l."""
    th = ident(len(P) - 1) + l * P
    th[0] = 0
    return th


def mix(ls, Bs):
    tot = sum(ls)
    return sum(l * B for l, B in zip(ls, Bs)) / tot if tot else Bs[0] * 0


def shift(F):
    """(F(x) - F(0)) / x, one order shorter."""
    return F[1:]
