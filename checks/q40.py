"""Q40: priority solvers with busy periods against the chain with Cox busy periods and the exact multi-class chain."""
import contextlib
import io
import math
import numpy as np
from mq.core import sut
from mq.fam import logu, gamma_moments
from mq.qbd import LevelChain, h2_fit
from checks.q43 import oracle

PROPERTY = "Q40"
ROUND = True
RULE = "distinct (solver, channels, load bucket, share of the higher classes, ratio of the service rates, mode) systems solved and compared"
NEED = {"two": 150, "three": 40, "ph-cox": 30, "ph-h2": 12, "exact": 120, "equal": 30, "default": 20}

TOL = 2e-5


def cox(b):
    """(y, mu1, mu2) with raw moments b; the law is unique though the representation is not. None outside genuine laws."""
    f = [complex(b[0]), b[1] / 2, b[2] / 6]
    A, B, C = f[0] ** 2 - f[1], -f[0] * f[1] + f[2], f[1] ** 2 - f[0] * f[2]
    if abs(A) < 2e-3 * abs(f[0]) ** 2:
        return None
    q = np.sqrt(B * B - 4 * A * C)
    out = []
    for s in (1, -1):
        a = (-B + s * q) / (2 * A)
        if abs(a) < 1e-9 * abs(f[0]) or abs(f[0] - a) < 1e-9 * abs(f[0]):
            continue
        c = (f[1] - a * f[0]) / (f[0] - a)
        y = (f[0] - a) / c
        par = (y, 1 / a, 1 / c)
        if all(abs(x.imag) < 1e-9 * abs(x) and x.real > 0 for x in par) and y.real <= 1:
            out.append(tuple(x.real for x in par))
    return out[0] if out else None


def mm_period(l, m):
    """First three moments of the busy period of M/M/1."""
    b = 1 / m
    r = 1 - l * b
    return [b / r, 2 * b ** 2 / r ** 3, 6 * b ** 3 / r ** 4 + 12 * l * b ** 4 / r ** 5]


def stack(l, mv, levels, K):
    """Matrices A, B, C, D of the higher classes' chain, levels(k) -> states, mv(k, s) -> moves."""
    S = [list(levels(k)) for k in range(K + 1)]
    A, B, C, D = [], [], [], []
    for k in range(K):
        a, c = np.zeros((len(S[k]), len(S[k + 1]))), np.zeros((len(S[k]),) * 2)
        b = np.zeros((len(S[k]), len(S[k - 1]) if k else 1))
        for i, s in enumerate(S[k]):
            for r, d, z in mv(k, s):
                (a if d == 1 else c if d == 0 else b)[i, S[k + d].index(z)] += r
        A.append(a), B.append(b), C.append(c), D.append(a.sum(1) + b.sum(1) + c.sum(1))
    return A, B, C, D


def periods(t, chain, n, starts, h2=False, far=0):
    """Per (state at level n, exit state at level n-1): probability and fitted Cox (or H2) law; None outside the domain."""
    A, B, C, D = (list(x) for x in chain)
    it, M = oracle(A, B, C, D, n + 1)
    if M is None:
        return None
    G = M[n]
    out = {}
    for i in starts:
        for j in range(G[0].shape[1]):
            p = G[0][i, j].real
            z = [G[r][i, j].real / p for r in (1, 2, 3)] if p > 1e-7 else None
            if z is None:
                return None
            c = z[1] / 2 / z[0] ** 2
            if abs(c - 1) < far or abs(c - .75) < far:   # the solver replaces such laws
                return None
            if h2:
                y, m1, m2 = h2_fit(z) if abs(z[1] / 2 - z[0] ** 2) > 2e-3 * z[0] ** 2 else (-1, 0, 0)
                par = (y.real, m1.real, m2.real) if abs(complex(y).imag) < 1e-12 and 0 < y.real < 1 and min(m1.real, m2.real) > 0 else None
            else:
                par = cox(z)
            if par is None or not .02 < par[1] * z[0] < 200 or not .005 < par[2] * z[0] < 500:
                return None
            out[i, j] = (p, par, z)
    return it, out


def mean(p):
    return float(np.dot(p, np.arange(len(p))))


def mmn(n, r, K=400):
    """State probabilities of M/M/n with offered load r."""
    p = [1.0]
    for k in range(1, K):
        p.append(p[-1] * r / min(k, n))
    p = np.array(p)
    return p / p.sum()


def two_exact(n, mL, mH, lL, lH, N, M):
    mv = lambda k, i: ([(lL, 1, i)] + ([(lH, 0, i + 1)] if i < M else []) + ([(min(i, n) * mH, 0, i - 1)] if i else [])
                       + ([(min(k, n - i) * mL, -1, i)] if k and i < n else []))
    return LevelChain(lambda k: range(M + 1), mv, N, flat=n).p


def two_method(n, mL, mH, lL, lH, N, par):
    y, m1, m2 = par

    def mv(k, i):
        o = [(lL, 1, i)]
        if i < n:
            o += [(lH, 0, i + 1)]
        if 0 < i < n:
            o += [(i * mH, 0, i - 1)]
        if i == n:
            o += [(m1 * (1 - y), 0, n - 1), (m1 * y, 0, n + 1)]
        if i == n + 1:
            o += [(m2, 0, n - 1)]
        if k and i < n:
            o += [(min(k, n - i) * mL, -1, i)]
        return o
    return LevelChain(lambda k: range(n + 2), mv, N, flat=n).p


def three_exact(mL, mM, mH, lL, lM, lH, N, M):
    st = [(h, m) for h in range(M + 1) for m in range(M + 1 - h)]

    def mv(k, s):
        h, m = s
        o = [(lL, 1, s)]
        if h + m < M:
            o += [(lH, 0, (h + 1, m)), (lM, 0, (h, m + 1))]
        a = min(h, 2)
        b = min(m, 2 - a)
        c = min(k, 2 - a - b)
        if a:
            o.append((a * mH, 0, (h - 1, m)))
        if b:
            o.append((b * mM, 0, (h, m - 1)))
        if c:
            o.append((c * mL, -1, s))
        return o
    return LevelChain(lambda k: st, mv, N, flat=2).p


def three_method(t, mL, mM, mH, lL, lM, lH, N):
    """Chain with the six busy periods of the two higher classes (start mm, hm, hh; end m, h)."""
    par = cox(mm_period(lH, 2 * mH))
    if par is None:
        return None
    y, m1, m2 = par
    top = ["mm", "hm", "B1", "B2"]   # what is in service; B: busy period of the highest class

    def levels(k):
        return [""] if k == 0 else ["m", "h"] if k == 1 else top

    def mv(k, s):
        if s == "":
            return [(lM, 1, "m"), (lH, 1, "h")]
        if s == "m":
            return [(lM, 1, "mm"), (lH, 1, "hm"), (mM, -1, "")]
        if s == "h":
            return [(lM, 1, "hm"), (lH, 1, "B1"), (mH, -1, "")]
        if s == "mm":
            return [(lM, 1, "mm"), (lH, 1, "hm"), (2 * mM, -1, "m" if k == 2 else "mm")]
        if s == "hm":
            # the level counts the middle jobs plus the highest ones (at most two)
            return [(lM, 1, "hm"), (lH, 1, "B1"), (mM, -1, "h" if k == 2 else "hm"), (mH, -1, "m" if k == 2 else "mm")]
        o = [(lM, 1, s)]
        end = "h" if k == 2 else "hm"
        if s == "B1":
            return o + [(m1 * (1 - y), -1, end), (m1 * y, 0, "B2")]
        return o + [(m2, -1, end)]
    res = periods(t, stack(None, mv, levels, 4), 2, range(3))
    if res is None:
        return None
    it, bp = res
    states = ["", "m", "h"] + [(i, j, ph) for i in range(3) for j in range(2) for ph in (1, 2)]

    def go(rate, i):
        return [(rate * bp[i, j][0], 0, (i, j, 1)) for j in range(2)]

    def main(k, s):
        o = [(lL, 1, s)]
        if s == "":
            return o + [(lM, 0, "m"), (lH, 0, "h")] + ([(min(k, 2) * mL, -1, s)] if k else [])
        if s in ("m", "h"):
            o += go(lM, 0 if s == "m" else 1) + go(lH, 1 if s == "m" else 2) + [(mM if s == "m" else mH, 0, "")]
            return o + ([(mL, -1, s)] if k else [])
        i, j, ph = s
        y, m1, m2 = bp[i, j][1]
        end = ("m", "h")[j]
        return o + ([(m1 * (1 - y), 0, end), (m1 * y, 0, (i, j, 2))] if ph == 1 else [(m2, 0, end)])
    return it, LevelChain(lambda k: states, main, N, flat=2).p


def ph_moves(n, lH, y, m1, m2, k, c):
    """Higher class alone in M/Cox/n: k jobs, c of those in service in phase 2."""
    s = min(k, n)
    a = s - c
    o = [(lH, 1, c)]
    if a:
        o += [(a * m1 * y, 0, c + 1), (a * m1 * (1 - y), -1, c)]
    if c:
        o += [(c * m2, -1, c - 1)]
    return o


def ph_exact(n, mL, par, lL, lH, N, M):
    st = [(h, c) for h in range(M + 1) for c in range(min(h, n) + 1)]

    def mv(k, s):
        o = [(lL, 1, s)]
        for r, d, c in ph_moves(n, lH, *par, *s):
            if s[0] + d <= M:
                o.append((r, 0, (s[0] + d, c)))
        f = min(k, n - min(s[0], n))
        if f:
            o.append((f * mL, -1, s))
        return o
    return LevelChain(lambda k: st, mv, N, flat=n).p


def ph_method(t, n, mL, par, lL, lH, N, h2, far):
    K = n + 2   # levels from n + 1 on repeat
    chain = stack(None, lambda k, c: [m for m in ph_moves(n, lH, *par, k, c)], lambda k: range(min(k, n) + 1), K)
    res = periods(t, chain, n, range(n), h2, far)
    if res is None:
        return None
    it, bp = res
    small = [(h, c) for h in range(n) for c in range(h + 1)]
    states = small + [(i, j, ph) for i in range(n) for j in range(n) for ph in (0, 1)]

    def mv(k, s):
        o = [(lL, 1, s)]
        if len(s) == 2:
            h, c = s
            for r, d, z in ph_moves(n, lH, *par, h, c):
                if h + d < n:
                    o.append((r, 0, (h + d, z)))
                else:
                    for j in range(n):
                        p, (y, m1, m2), _ = bp[z, j]
                        o += [(r * p * y, 0, (z, j, 0)), (r * p * (1 - y), 0, (z, j, 1))] if h2 else [(r * p, 0, (z, j, 0))]
            if k:
                o.append((min(k, n - h) * mL, -1, s))
            return o
        i, j, ph = s
        y, m1, m2 = bp[i, j][1]
        end = (n - 1, j)
        if h2:
            return o + [((m1, m2)[ph], 0, end)]
        return o + ([(m1 * (1 - y), 0, end), (m1 * y, 0, (i, j, 1))] if ph == 0 else [(m2, 0, end)])
    return it, LevelChain(lambda k: states, mv, N, flat=n).p


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def levels_for(p):
    """Levels beyond which less than 1e-11 is left, from a solution with plenty of levels."""
    tail = np.cumsum(p[::-1])[::-1]
    k = int(np.argmax(tail < 1e-11)) if (tail < 1e-11).any() else len(p)
    return k + 2


def judge(t, name, p, v1, lL, want, ex, tol=TOL, xtol=2e-3, it=0):
    p = np.asarray(p)
    t.require("shape", len(p) <= len(want) or abs(p[len(want):]).max() < 1e-6, f"{name}: wrong number of probabilities")
    t.require("sum", abs(p.sum() - 1) < 2e-6 and p.min() > -max(1e-7, 1e-3 * tol), f"{name}: probabilities sum to {p.sum()}, least {p.min()}")
    m = min(len(p), len(want))
    e = np.max(abs(p[:m] - want[:m]))
    t.require("chain", e < tol, f"{name}: a state probability differs by {e:.2e} from the chain with fitted busy periods", got=p[:8], want=want[:8])
    E, W = mean(p), mean(want)
    t.require("mean", abs(E - W) < 5 * tol * max(1, W), f"{name}: mean number {E}, {W} in the chain with fitted busy periods")
    t.close("little", v1, E / lL, rtol=1e-9, msg=f"{name}: mean sojourn time")
    if ex is not None:
        X = mean(ex)
        t.require("exact", abs(E / X - 1) < xtol, f"{name}: mean number {E}, {X} in the exact chain")
        t.require("exact-p", max(abs(p[k] - ex[k]) for k in range(min(len(p), len(ex)))) < 2.5e-2, f"{name}: state probabilities differ from the exact chain",
                  got=p[:8], want=ex[:8])
        t.count("exact")


def loads(rng, n, hi):
    ro = (float(rng.uniform(.1, hi)) if rng.random() < .9 else logu(rng, .01, .1)) * n
    f = float(rng.uniform(.1, .9)) if rng.random() < .9 else float(rng.uniform(.02, .1))
    return ro, f


def rates(rng, unit, k, ratio=2):
    """k service rates of one order; now and then far apart."""
    far = 10 if rng.random() < .12 else ratio
    return [unit * logu(rng, 1 / far, far) for _ in range(k)]


def two(t):
    from most_queue.theory.mmn_prty_pnz_approx import MMn_PRTY_PNZ_Cox_approx as S
    rng = t.rng
    while True:
        n = int(rng.integers(1, 7)) if rng.random() < .9 else int(rng.integers(7, 9))
        unit = logu(rng, 1e-3, 1e3)
        mL, mH = rates(rng, unit, 2)
        equal = rng.integers(0, 4) == 0
        if equal:
            mH = mL
        ro, f = loads(rng, n, .85)
        lH, lL = ro * f * mH, ro * (1 - f) * mL
        par = cox(mm_period(lH, n * mH))
        if par is None:
            t.count("skipped")
            continue
        want = two_method(n, mL, mH, lL, lH, 400, par)
        N = levels_for(want)
        if N < 390:
            break
    acc = float(rng.choice([1e-9, 1e-11]))
    t.params(n=n, mu_L=mL, mu_H=mH, l_L=lL, l_H=lH, N=N, accuracy=acc)
    M = int(math.log(1e-12) / math.log(lH / (n * mH))) + n + 2
    ex = two_exact(n, mL, mH, lL, lH, min(N, 150), M) if M < 70 else None
    with sut(t, "two"):
        s = S(n, mL, mH, lL, lH, N=N, accuracy=acc)
        pz = s.busy_period
        t.closev("period", list(pz), mm_period(lH, n * mH), rtol=1e-9, msg="busy period of the higher class")
        m1, m2 = mm_period(lH, n * mH)[:2]
        t.close("period", s.busy_coev, math.sqrt(m2 - m1 * m1) / m1, rtol=1e-7, msg="coefficient of variation of the busy period")
        quiet(s.run)
        p = s.get_p()
        judge(t, "two classes", p, s.get_second_class_v1(), lL, want, ex, xtol=3e-3)
        # the higher class does not notice the lower one
        Y = sum(np.asarray(y)[0] for y in s.Y)
        hi = mmn(n, lH / mH)
        near = 3e-4 if ro > .1 * n else 2e-3
        t.require("higher", abs(Y[:n] - hi[:n]).max() < near and abs(Y[n] + Y[n + 1] - hi[n:].sum()) < near,
                  "numbers of the higher class differ from M/M/n alone", got=Y, want=hi[:n + 2])
        if equal:
            E = mean(mmn(n, ro, 3000)) - mean(hi)
            t.require("equal", abs(mean(p) / E - 1) < 1e-3, f"equal service rates: mean number of the lower class {mean(p)}, expected {E}")
            t.count("equal")
    t.count("two")
    t.sig("two", n, round(ro / n, 1), round(f, 1), round(math.log2(mL / mH)))
    t.sample(n=n, ro=ro / n, f=f, EN=mean(p), exact=ex is not None)


def two_default(t):
    """With the default number of levels and accuracy."""
    from most_queue.theory.mmn_prty_pnz_approx import MMn_PRTY_PNZ_Cox_approx as S
    rng = t.rng
    n = int(rng.integers(1, 5))
    unit = logu(rng, 1e-3, 1e3)
    mL, mH = rates(rng, unit, 2)
    ro, f = loads(rng, n, .7)
    lH, lL = ro * f * mH, ro * (1 - f) * mL
    par = cox(mm_period(lH, n * mH))
    if par is None:
        t.count("skipped")
        return
    want = two_method(n, mL, mH, lL, lH, 150, par)
    if levels_for(want) > 140:
        t.count("skipped")
        return
    t.params(n=n, mu_L=mL, mu_H=mH, l_L=lL, l_H=lH)
    with sut(t, "default"):
        s = S(n, mL, mH, lL, lH)
        quiet(s.run)
        p = s.get_p()
        t.require("shape", len(p) == 150, f"{len(p)} probabilities")
        judge(t, "two classes, default accuracy", p, s.get_second_class_v1(), lL, want, None, tol=2e-3)
    t.count("default")
    t.sig("default", n, round(ro / n, 1), round(f, 1))


def three(t):
    from most_queue.theory.mmn3_pnz_cox_approx import Mmn3_pnz_cox as S
    rng = t.rng
    while True:
        unit = logu(rng, 1e-2, 1e2)
        mL, mM, mH = rates(rng, unit, 3, 1.7)
        equal = rng.integers(0, 4) == 0
        if equal:
            mM = mH = mL
        ro = float(rng.uniform(.1, .75)) * 2
        f = rng.dirichlet([2.0] * 3) * ro
        if min(f) < .01:
            continue
        lL, lM, lH = (float(f[i] * m) for i, m in enumerate((mL, mM, mH)))
        res = three_method(t, mL, mM, mH, lL, lM, lH, 200)
        if res is None:
            t.count("skipped")
            continue
        it, want = res
        N = levels_for(want)
        if N < 120:
            break
    t.params(mu=[mL, mM, mH], l=[lL, lM, lH], N=N)
    M = int(math.log(1e-6) / math.log((f[1] + f[2]) / 2)) + 3
    ex = three_exact(mL, mM, mH, lL, lM, lH, min(N, 60), M) if M < (16 if t.tier == "quick" else 26) and N < 60 else None
    with sut(t, "three"):
        s = quiet(S, mL, mM, mH, lL, lM, lH, N=N, accuracy=1e-10)
        quiet(s.run)
        p = s.get_p()
        judge(t, "three classes", p, s.get_low_class_v1(), lL, want, ex, xtol=5e-3)
        if equal:
            E = mean(mmn(2, ro, 2000)) - mean(mmn(2, f[1] + f[2], 2000))
            t.require("equal", abs(mean(p) / E - 1) < 5e-3, f"equal service rates: mean number of the lowest class {mean(p)}, expected {E}")
            t.count("equal")
    t.count("three")
    t.sig("three", round(ro / 2, 1), [round(x, 1) for x in f], round(math.log2(mL / mH)), round(math.log2(mM / mH)))
    t.sample(ro=ro / 2, share=list(f), EN=mean(p), exact=ex is not None)


def ph(t):
    from most_queue.theory.m_ph_n_prty import m_ph_n_prty as S
    rng = t.rng
    h2 = rng.integers(0, 3) == 0
    dflt = rng.integers(0, 4) == 0
    for _ in range(60):
        n = int(rng.choice([1, 2, 2, 3])) if rng.random() < .9 else 4
        unit = logu(rng, 1e-2, 1e2)
        mL, mH = rates(rng, unit, 2)
        cv = float(rng.uniform(1.1, 2)) if h2 or rng.integers(0, 2) else float(rng.uniform(.75, .95))
        par = cox(gamma_moments(1 / mH, cv))
        ro, f = loads(rng, n, .75)
        lH, lL = ro * f * mH, ro * (1 - f) * mL
        res = ph_method(t, n, mL, par, lL, lH, 200, h2, .13 if dflt else 0) if par else None
        if res is None:
            t.count("skipped")
            continue
        it, want = res
        N = levels_for(want)
        if N < 100:
            break
    else:
        return
    t.params(n=n, mu_L=mL, cox_H=par, l_L=lL, l_H=lH, N=N, h2=h2, default=dflt)
    r = lH / (n * mH)
    M = int(math.log(1e-7) / math.log(r) * max(1, (1 + cv ** 2) / 2)) + n + 2
    ex = ph_exact(n, mL, par, lL, lH, min(N, 60), M) if M * (n + 1) < (150 if t.tier == "quick" else 250) and N < 60 else None
    kw = dict(N=N, is_cox=not h2, verbose=False)
    if not dflt:
        kw.update(accuracy=1e-10, approx_ee=1e-3, max_iter=3000)
    with sut(t, "ph"):
        s = quiet(S, mL, par[1], par[2], par[0], lL, lH, n, **kw)
        quiet(s.run)
        p = s.get_p()
        judge(t, f"M/Ph/n, {'H2' if h2 else 'Cox'} busy periods" + (", default accuracy" if dflt else ""), p, s.get_low_class_v1(), lL, want, ex,
              tol=2e-3 if dflt else TOL, xtol=1e-2)
    t.count("default" if dflt else "ph-h2" if h2 else "ph-cox")
    t.sig("ph", n, h2, dflt, round(ro / n, 1), round(f, 1), round(cv, 1), round(math.log2(mL / mH)))
    t.sample(n=n, cv=cv, ro=ro / n, f=f, EN=mean(p), exact=ex is not None)


GROUPS = {"two": (two, 300, 6000), "two_default": (two_default, 40, 600), "three": (three, 80, 1600), "ph": (ph, 130, 2600)}
