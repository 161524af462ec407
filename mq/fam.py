"""Independent laws: parameters, moments, distribution function, density, Laplace transform of every family
the package has, computed here with scipy/numpy from the definitions (not from most_queue)."""
import math
import numpy as np
from scipy import stats, special


def round_sig(x, d):
    return float(f"{x:.{d - 1}e}")


class RoundRng:
    """A generator whose uniform() values are round numbers (one or two digits), the way people choose parameters:
    formulas with removable singularities, equal rates and boundary cases are met there and nowhere else."""

    def __init__(self, rng):
        self._rng = rng
        self.digits = int(rng.integers(1, 3))

    def __getattr__(self, name):
        return getattr(self._rng, name)

    def uniform(self, low=0.0, high=1.0, size=None):
        x = self._rng.uniform(low, high, size)
        if size is None:
            y = round_sig(x, self.digits)
            return y if low < y < high else x
        return np.vectorize(lambda v: round_sig(v, self.digits))(x)


def logu(rng, a, b):
    if isinstance(rng, RoundRng):
        x = float(10 ** rng._rng.uniform(math.log10(a), math.log10(b)))
        y = round_sig(x, rng.digits)
        return y if a <= y <= b else x
    return float(10 ** rng.uniform(math.log10(a), math.log10(b)))


class Law:
    """name, package parameters p, and the exact law."""

    def __init__(self, kind, p):
        self.kind, self.p = kind, p

    def __repr__(self):
        return f"{self.kind}{self.p}"

    # --- raw moments 1..k
    def moments(self, k=3):
        K, p = self.kind, self.p
        if K == "M":
            return [math.factorial(i) / p ** i for i in range(1, k + 1)]
        if K == "H":
            y, a, b = p
            return [math.factorial(i) * (y / a ** i + (1 - y) / b ** i) for i in range(1, k + 1)]
        if K == "E":
            r, mu = p
            return [math.exp(math.lgamma(r + i) - math.lgamma(r)) / mu ** i for i in range(1, k + 1)]
        if K == "Gamma":
            mu, al = p
            return [math.exp(math.lgamma(al + i) - math.lgamma(al)) / mu ** i for i in range(1, k + 1)]
        if K == "C":
            y, a, b = p
            out = []
            for i in range(1, k + 1):
                s = math.factorial(i) / a ** i
                two = math.factorial(i) * sum(1 / (a ** j * b ** (i - j)) for j in range(i + 1))
                out.append((1 - y) * s + y * two)
            return out
        if K == "Pa":
            a, m = p
            return [a * m ** i / (a - i) if a > i else math.inf for i in range(1, k + 1)]
        if K == "D":
            return [p ** i for i in range(1, k + 1)]
        if K == "Uniform":
            m, h = p
            lo, hi = m - h, m + h
            return [sum(hi ** j * lo ** (i - j) for j in range(i + 1)) / (i + 1) for i in range(1, k + 1)]
        if K == "Norm":
            return [stats.norm.moment(i, loc=p[0], scale=p[1]) for i in range(1, k + 1)]
        raise KeyError(K)

    def mean(self):
        return self.moments(1)[0]

    def var(self):
        m = self.moments(2)
        if self.kind == "Norm":
            return self.p[1] ** 2
        if self.kind == "Uniform":
            return self.p[1] ** 2 / 3
        return m[1] - m[0] ** 2

    def cdf(self, x):
        x = np.asarray(x, float)
        K, p = self.kind, self.p
        z = np.maximum(x, 0)
        if K == "M":
            return np.where(x < 0, 0, -np.expm1(-p * z))
        if K == "H":
            y, a, b = p
            return np.where(x < 0, 0, -y * np.expm1(-a * z) - (1 - y) * np.expm1(-b * z))
        if K == "E":
            return special.gammainc(p[0], p[1] * z)
        if K == "Gamma":
            return special.gammainc(p[1], p[0] * z)
        if K == "C":
            y, a, b = p
            ea, eb = np.exp(-a * z), np.exp(-b * z)
            if abs(a - b) < 1e-9 * a:
                two = 1 - ea * (1 + a * z)
            else:
                two = 1 - (b * ea - a * eb) / (b - a)
            return np.where(x < 0, 0, (1 - y) * (1 - ea) + y * two)
        if K == "Pa":
            a, m = p
            return np.where(x < m, 0, 1 - (m / np.maximum(x, m)) ** a)
        if K == "D":
            return (x >= p).astype(float)
        if K == "Uniform":
            return np.clip((x - p[0] + p[1]) / (2 * p[1]), 0, 1)
        if K == "Norm":
            return stats.norm.cdf(x, p[0], p[1])

    def pdf(self, x):
        x = np.asarray(x, float)
        K, p = self.kind, self.p
        z = np.maximum(x, 0)
        if K == "M":
            return np.where(x < 0, 0, p * np.exp(-p * z))
        if K == "H":
            y, a, b = p
            return np.where(x < 0, 0, y * a * np.exp(-a * z) + (1 - y) * b * np.exp(-b * z))
        if K == "E":
            return stats.gamma.pdf(x, p[0], scale=1 / p[1])
        if K == "Gamma":
            return stats.gamma.pdf(x, p[1], scale=1 / p[0])
        if K == "Pa":
            a, m = p
            return np.where(x < m, 0, a * m ** a / np.maximum(x, m) ** (a + 1))
        if K == "Uniform":
            return np.where(abs(x - p[0]) <= p[1], 1 / (2 * p[1]), 0)
        raise KeyError(K)

    def lst(self, s):
        """Laplace-Stieltjes transform at real or complex s (Re s >= 0)."""
        K, p = self.kind, self.p
        if K == "M":
            return p / (p + s)
        if K == "H":
            y, a, b = p
            return y * a / (a + s) + (1 - y) * b / (b + s)
        if K == "E":
            return (p[1] / (p[1] + s)) ** p[0]
        if K == "Gamma":
            return (p[0] / (p[0] + s)) ** p[1]
        if K == "C":
            y, a, b = p
            return a / (a + s) * (1 - y + y * b / (b + s))
        if K == "D":
            return np.exp(-s * p)
        if K == "Uniform":
            m, h = p
            if abs(s * h) < 1e-6:
                return np.exp(-s * m) * (1 + (s * h) ** 2 / 6)
            return np.exp(-s * m) * np.sinh(s * h) / (s * h)
        if K == "Pa":
            from scipy.integrate import quad
            a, m = p
            f = lambda u: a * math.exp(-a * u - s * m * math.exp(min(u, 60)))
            top = min(40 / a, max(math.log(700 / (s * m)), .1)) if s > 0 else 40 / a
            return quad(f, 0, top, epsabs=1e-13, epsrel=1e-12, limit=400)[0]
        raise KeyError(K)


def random_law(rng, kind, mean=None, cv=None):
    """A random law of the kind; with the mean given, scaled to it."""
    if mean is None:
        mean = logu(rng, 0.05, 20)
    if kind == "M":
        return Law("M", 1 / mean)
    if kind == "H":
        y = float(rng.uniform(0.02, 0.98))
        r = logu(rng, 1.0, 50) if rng.random() < .9 else 1.0 if rng.random() < .6 else logu(rng, 50, 2000)
        a = 1.0; b = r
        m = y / a + (1 - y) / b
        a, b = a * m / mean, b * m / mean
        if rng.random() < .5:
            y, a, b = 1 - y, b, a
        return Law("H", [y, a, b])
    if kind == "C":
        y = float(rng.uniform(0, 1)); r = logu(rng, 0.05, 20)
        m = 1 + y / r
        return Law("C", [y, m / mean, r * m / mean])
    if kind == "E":
        r = int(rng.integers(1, 9)) if rng.random() < .9 else int(rng.integers(9, 41))
        return Law("E", [r, r / mean])
    if kind == "Gamma":
        c = cv or any_cv(rng, .3, 3, .1, 5)
        al = 1 / c ** 2
        return Law("Gamma", [al / mean, al])
    if kind == "Pa":
        a = float(rng.uniform(1.3, 8)) if rng.random() < .9 else logu(rng, 8, 40)
        return Law("Pa", [a, mean * (a - 1) / a])
    if kind == "D":
        return Law("D", mean)
    if kind == "Uniform":
        return Law("Uniform", [mean, mean * float(rng.uniform(0.02, 1))])
    if kind == "Norm":
        return Law("Norm", [mean, mean * float(rng.uniform(0.01, .3))])
    raise KeyError(kind)


def any_load(rng, lo=.05, hi=.95, low=1e-3, top=.995):
    """A load: mostly ordinary, now and then next to nothing or almost one."""
    x = rng.random()
    if x < .75:
        return float(rng.uniform(lo, hi))
    return logu(rng, low, lo) if x < .87 else 1 - logu(rng, 1 - top, 1 - hi)


def any_cv(rng, lo=.3, hi=2.5, low=.03, top=6.0):
    """A coefficient of variation: mostly ordinary, now and then almost constant or very large."""
    x = rng.random()
    if x < .75:
        return float(rng.uniform(lo, hi))
    return logu(rng, low, lo) if x < .87 else logu(rng, hi, top)


def gamma_moments(mean, cv, k=3):
    al = 1 / cv ** 2
    mu = al / mean
    return [math.exp(math.lgamma(al + i) - math.lgamma(al)) / mu ** i for i in range(1, k + 1)]


KINDS = ["M", "H", "E", "Gamma", "C", "Pa", "D", "Uniform", "Norm"]


def mq_class(kind):
    import most_queue.rand_distribution as rd
    return {"M": rd.Exp_dist, "H": rd.H2_dist, "E": rd.Erlang_dist, "Gamma": rd.Gamma, "C": rd.Cox_dist,
            "Pa": rd.Pareto_dist, "D": rd.Det_dist, "Uniform": rd.Uniform_dist, "Norm": rd.Normal_dist}[kind]
