"""Level-structured chains with (possibly complex) rates, solved exactly by block elimination from the top level.

A model gives level(k) -> list of states and moves(k, state) -> list of (rate, dk, new state), dk in -1, 0, 1.
"""
import math
import numpy as np


class LevelChain:
    def __init__(self, level, moves, K, flat=None):
        """Levels 0..K-1; arrivals are lost at the top level. From level `flat` on the blocks repeat."""
        S = [list(level(k)) for k in range(K)]
        self.states = S
        blocks = []
        for k in range(K):
            if flat is not None and flat + 1 < k < K - 1:
                blocks.append(blocks[flat + 1])
                continue
            ix = {s: i for i, s in enumerate(S[k])}
            up = {s: i for i, s in enumerate(S[k + 1])} if k + 1 < K else {}
            dn = {s: i for i, s in enumerate(S[k - 1])} if k else {}
            n = len(S[k])
            A, C = np.zeros((n, len(up)), complex), np.zeros((n, n), complex)
            B, D = np.zeros((n, len(dn)), complex), np.zeros(n, complex)
            for s in S[k]:
                i = ix[s]
                for r, d, z in moves(k, s):
                    if d == 1:
                        if k + 1 == K:
                            continue
                        A[i, up[z]] += r
                    elif d == 0:
                        C[i, ix[z]] += r
                    else:
                        B[i, dn[z]] += r
                    D[i] += r
            blocks.append((A, B, C, D))
        self.blocks = blocks
        self.moves = moves
        R = [None] * K
        for k in range(K - 2, -1, -1):
            A, B, C, D = blocks[k + 1]
            M = np.diag(D) - C
            if k + 2 < K:
                M = M - R[k + 1] @ blocks[k + 2][1]
            R[k] = np.linalg.solve(M.T, blocks[k][0].T).T
        A, B, C, D = blocks[0]
        M = np.diag(D) - C - (R[0] @ blocks[1][1] if K > 1 else 0)
        n = len(M)
        if n == 1:
            x = np.ones(1, complex)
        else:
            T = M.T.copy()
            T[-1] = 1
            x = np.linalg.solve(T, np.eye(n)[-1].astype(complex))
        pi = [x]
        for k in range(K - 1):
            pi.append(pi[-1] @ R[k])
        s = sum(v.sum() for v in pi)
        self.pi = [v / s for v in pi]
        self.p = np.array([v.sum() for v in self.pi]).real

    def expect(self, f):
        """Mean of f(k, state)."""
        return sum((x * f(k, s)) for k, v in enumerate(self.pi) for x, s in zip(v, self.states[k])).real

    def waits(self, l, waiting, num=3):
        """Wait moments in FIFO order from the number waiting (Poisson arrivals: distributional Little's law)."""
        return [self.expect(lambda k, s: math.perm(waiting(k, s), m)) / l ** m for m in range(1, num + 1)]


    def waits_taken(self, waiting, num=3):
        """Wait moments in FIFO order of the jobs taken into the finite system: later arrivals do not matter to a waiting job,
        so its wait is the time, without arrivals, until as many jobs as it found are no longer ahead of it."""
        K = len(self.states)
        T, total, acc = [], 0, np.zeros(num, complex)
        for k in range(K):
            S = self.states[k]
            ix = {s: i for i, s in enumerate(S)}
            t = np.zeros((num + 1, len(S)), complex)
            t[0] = 1
            busy = [s for s in S if waiting(k, s) > 0]
            for m in range(1, num + 1):
                if not busy:
                    break
                M, r = np.zeros((len(busy),) * 2, complex), np.zeros(len(busy), complex)
                at = {s: i for i, s in enumerate(busy)}
                for s in busy:
                    i = at[s]
                    r[i] += m * t[m - 1, ix[s]]
                    for rate, d, z in self.moves(k, s):
                        if d == 1:
                            continue
                        M[i, i] += rate
                        if d == -1:
                            r[i] += rate * T[k - 1][m, {x: j for j, x in enumerate(self.states[k - 1])}[z]]
                        elif z in at:
                            M[i, at[z]] -= rate
                t[m, [ix[s] for s in busy]] = np.linalg.solve(M, r)
            T.append(t)
        for k in range(K - 1):
            up = {s: i for i, s in enumerate(self.states[k + 1])}
            for x, s in zip(self.pi[k], self.states[k]):
                for rate, d, z in self.moves(k, s):
                    if d == 1:
                        total += x * rate
                        acc += x * rate * T[k + 1][1:, up[z]]
        return list((acc / total).real)


def h2_fit(b):
    """Two-phase exponential mixture (possibly complex) with moments b: the Gauss rule of the mixing measure of means."""
    f = [1.0, b[0], b[1] / 2, b[2] / 6]
    d = f[2] - f[1] ** 2
    c1 = (f[3] - f[1] * f[2]) / d
    c0 = c1 * f[1] - f[2]
    q = np.sqrt(complex(c1 * c1 - 4 * c0))
    x1, x2 = (c1 + q) / 2, (c1 - q) / 2
    y1 = (f[1] - x2) / (x1 - x2)
    return y1, 1 / x1, 1 / x2


def start(y):
    """One job starts service: (probability, jobs added in phase 2)."""
    return [(y[0], 0), (y[1], 1)]


def mh2n(n, l, y, mu, K):
    """M/H2/n: state = number of jobs in service that are in phase 2."""
    def level(k):
        return range(min(k, n) + 1)

    def moves(k, i):
        c = min(k, n)
        out = []
        for pr, d in start(y) if k < n else [(1, 0)]:
            out.append((l * pr, 1, i + d))
        for rate, j in (((c - i) * mu[0], i), (i * mu[1], i - 1)):
            if rate != 0:
                for pr, d in start(y) if k > n else [(1, 0)]:
                    out.append((rate * pr, -1, j + d))
        return out
    return LevelChain(level, moves, K, n)


def binom(c, y):
    """Phases of c jobs starting together: (probability, number in phase 2)."""
    return [(math.comb(c, i) * y[0] ** (c - i) * y[1] ** i, i) for i in range(c + 1)]


def vacation(n, l, serv, K, warm=None, cold=None, delay=None):
    """M/H2/n that warms up when a job finds it off, cools down (after a delay) when it empties.

    serv, warm, cold, delay: (y, (mu1, mu2)); warm given. States: "off", ("d", j), ("c", j), ("w", j), ("s", i)."""
    y, mu = serv

    def level(k):
        out = [("w", 0), ("w", 1)] if k else ["off"]
        if k == 0 and delay:
            out += [("d", 0), ("d", 1)]
        if k:
            out += [("s", i) for i in range(min(k, n) + 1)]
        if cold:
            out += [("c", 0), ("c", 1)]
        return out

    def empty():
        """Distribution of the state entered when the last job leaves."""
        if delay:
            return [(delay[0][j], ("d", j)) for j in (0, 1)]
        if cold:
            return [(cold[0][j], ("c", j)) for j in (0, 1)]
        return [(1, "off")]

    def moves(k, s):
        if s == "off":
            return [(l * warm[0][j], 1, ("w", j)) for j in (0, 1)]
        kind, i = s
        if kind == "d":
            out = [(l * pr, 1, ("s", d)) for pr, d in start(y)]
            return out + [(delay[1][i] * cold[0][j], 0, ("c", j)) for j in (0, 1)]
        if kind == "c":
            out = [(l, 1, s)]
            if k == 0:
                return out + [(cold[1][i], 0, "off")]
            return out + [(cold[1][i] * warm[0][j], 0, ("w", j)) for j in (0, 1)]
        if kind == "w":
            return [(l, 1, s)] + [(warm[1][i] * pr, 0, ("s", d)) for pr, d in binom(min(k, n), y)]
        c = min(k, n)
        out = []
        for pr, d in start(y) if k < n else [(1, 0)]:
            out.append((l * pr, 1, ("s", i + d)))
        for rate, j in (((c - i) * mu[0], i), (i * mu[1], i - 1)):
            if rate == 0:
                continue
            if k == 1:
                out += [(rate * pr, -1, z) for pr, z in empty()]
                continue
            for pr, d in start(y) if k > n else [(1, 0)]:
                out.append((rate * pr, -1, ("s", j + d)))
        return out
    return LevelChain(level, moves, K, n)


def first_special(n, l, serv, warm, K):
    """M/H2/n where the job that finds the system empty has its own H2 service. States (w, i): w = its phase or -1."""
    y, mu = serv

    def level(k):
        if k == 0:
            return [(-1, 0)]
        c = min(k, n)
        return [(w, i) for w in (0, 1) for i in range(c)] + [(-1, i) for i in range(c + 1)]

    def moves(k, s):
        w, i = s
        if k == 0:
            return [(l * warm[0][j], 1, (j, 0)) for j in (0, 1)]
        c = min(k, n) - (w >= 0)
        out = []
        for pr, d in start(y) if k < n else [(1, 0)]:
            out.append((l * pr, 1, (w, i + d)))
        nxt = start(y) if k > n else [(1, 0)]
        for rate, z in (((c - i) * mu[0], (w, i)), (i * mu[1], (w, i - 1))) + (((warm[1][w], (-1, i)),) if w >= 0 else ()):
            if rate != 0:
                out += [(rate * pr, -1, (z[0], z[1] + d)) for pr, d in nxt]
        return out
    return LevelChain(level, moves, K, n)
