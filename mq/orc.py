"""Independent exact solutions: finite Markov chains, birth-death chains, transforms."""
import math
import numpy as np
from scipy.linalg import lu_factor, lu_solve


def stationary(Q):
    """Stationary law of a finite CTMC given its off-diagonal rate matrix (diagonal ignored), by GTH elimination."""
    A = np.array(Q, float)
    n = len(A)
    np.fill_diagonal(A, 0)
    for k in range(n - 1, 0, -1):
        s = A[k, :k].sum()
        A[:k, k] /= s
        A[:k, :k] += np.outer(A[:k, k], A[k, :k])
        np.fill_diagonal(A[:k, :k], 0)
    x = np.zeros(n)
    x[0] = 1
    for k in range(1, n):
        x[k] = x[:k] @ A[:k, k]
    return x / x.sum()


def sparse_stationary(rows, cols, vals, n):
    """Stationary law of a larger CTMC from its transitions."""
    import scipy.sparse as sps
    import scipy.sparse.linalg as spl
    Q = sps.coo_matrix((vals, (rows, cols)), shape=(n, n)).tocsc()
    d = np.asarray(Q.sum(axis=1)).ravel()
    A = (Q - sps.diags(d)).T.tocsc()
    # drop one balance equation, fix x[0] = 1
    B = A[1:, 1:]
    b = -A[1:, 0].toarray().ravel()
    x = np.concatenate([[1.0], spl.spsolve(B, b)])
    return x / x.sum()


class Chain:
    """Builds a CTMC over arbitrary hashable states by exploring from a start state."""

    def __init__(self, start, moves):
        """moves(state) -> list of (rate, next state)"""
        self.idx = {start: 0}
        self.states = [start]
        r, c, v = [], [], []
        i = 0
        while i < len(self.states):
            for rate, nx in moves(self.states[i]):
                if rate <= 0:
                    continue
                j = self.idx.get(nx)
                if j is None:
                    j = self.idx[nx] = len(self.states)
                    self.states.append(nx)
                r.append(i); c.append(j); v.append(rate)
            i += 1
        n = len(self.states)
        self.n = n
        if n <= 400:
            Q = np.zeros((n, n))
            for a, b, x in zip(r, c, v):
                Q[a, b] += x
            self.p = stationary(Q)
        else:
            self.p = sparse_stationary(r, c, v, n)

    def expect(self, f):
        return float(sum(p * f(s) for p, s in zip(self.p, self.states)))

    def law(self, f, size):
        out = np.zeros(size)
        for p, s in zip(self.p, self.states):
            k = f(s)
            if k < size:
                out[k] += p
        return out


def birth_death(up, down, n):
    """up(i), down(i) for states 0..n, computed with normalisation at every step."""
    x = [1.0]
    for i in range(n):
        x.append(x[-1] * up(i) / down(i + 1))
        if x[-1] > 1e200:
            x = [y / 1e200 for y in x]
    x = np.array(x)
    return x / x.sum()


def rising(i, k):
    return math.prod(range(i, i + k))


def series_coeffs(f, num, N=8192, r=None):
    """First num Taylor coefficients of f (analytic in the unit disc, coefficients bounded by 1) by FFT."""
    r = r or 10 ** (-9 / N)
    z = r * np.exp(2j * np.pi * np.arange(N) / N)
    c = np.fft.fft(f(z)) / N
    return (c.real / r ** np.arange(N))[:num]


def wait_moments_mg1(l, b, k):
    """Pollaczek-Khinchine by power series of (1-rho) s / (s - l + l B(s))."""
    # B_e(s) = (1 - B(s)) / (s b1) = sum (-s)^j b_{j+1} / ((j+1)! b1);  W = (1-rho) / (1 - rho B_e)
    rho = l * b[0]
    be = [b[j] / (b[0] * math.factorial(j + 1)) for j in range(k + 1)]   # coefficient of (-s)^j
    w = [1.0]
    for m in range(1, k + 1):
        w.append(rho / (1 - rho) * sum(be[j] * w[m - j] for j in range(1, m + 1)))
    return [w[m] * math.factorial(m) for m in range(1, k + 1)]


def add_moments(a, b):
    k = min(len(a), len(b))
    a, b = [1] + list(a), [1] + list(b)
    return [sum(math.comb(m, i) * a[i] * b[m - i] for i in range(m + 1)) for m in range(1, k + 1)]
