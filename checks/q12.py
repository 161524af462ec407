from checks.fj_common import *
PROPERTY = "Q12"
RULE = ("random tapes, split-join and delayed-part simulators, n 1-6, constant/zero/random part delays from much shorter to much longer than service; state compared after every event; "
        "distinct = (mode, n, parts, buffer, served)")


def split(t, crowd=False):
    rng = t.rng
    from most_queue.sim.fj_sim import ForkJoinSim
    n = int(rng.choice([1, 2, 2, 3, 4, 6])) if rng.random() < .9 else int(rng.integers(7, 20))
    k = int(rng.integers(1, n + 1)) if rng.random() < 0.3 else n
    buf = int(rng.choice([0, 1, n, 2 * n, 3 * n + 1])) if t.idx % 3 == 0 else None
    rho = float(rng.choice([0.15, 0.3, 0.45, 1.5 if buf is not None else 0.5]))
    if crowd:
        buf = None
    T_ = Tapes(rng)
    ka, ks = T_.new(TIDE if crowd else str(rng.choice(STYLES)), 1.0), T_.new(str(rng.choice(STYLES)), rho)
    t.params(n=n, k=k, buffer=buf, rho=rho, styles=[T_.tapes[ka].style, T_.tapes[ks].style])
    drive(t, T_, lambda: ForkJoinSim(n, k, True, False, buf), FJModel(n, n, n, "SJ", False, buf), ka, ks, 4000 if crowd else 2000 if t.thorough else 500)


def delayed(t, sj, crowd=False):
    rng = t.rng
    from most_queue.sim.fj_delta_sim import ForkJoinSimDelta
    n = int(rng.choice([1, 2, 2, 3, 4, 6])) if rng.random() < .9 else int(rng.integers(7, 20))
    k = n if rng.random() < 0.5 else int(rng.integers(1, n + 1))
    if not sj and rng.random() < 0.3:
        k = n + int(rng.integers(1, 3))     # more parts than channels: fine with a common queue
    buf = int(rng.choice([0, 1, n, 2 * n, 3 * n + 1])) if t.idx % 4 == 0 else None
    rho = float(rng.choice([0.15, 0.3, 0.45])) * (1 if sj else min(1.8, 1.8 * n / k))
    d = float(rng.choice([0.0, 0.01, 0.1, 0.3, 1.0] if not sj else [0.0, 0.01, 0.1, 0.2, 0.6 / max(k - 1, 1)]))
    if crowd:
        buf = None
    T_ = Tapes(rng)
    d *= T_.unit
    delta = d
    if t.idx % 2 and d > 0:
        cv2 = float(rng.choice([0.2, 1.0, 2.0]))
        m2 = d * d * (1 + cv2)
        delta = [d, m2, m2 * d * (1 + 2 * cv2), m2 * d * (1 + 2 * cv2) * d * (1 + 3 * cv2)]
    ka, ks = T_.new(TIDE if crowd else str(rng.choice(STYLES)), 1.0), T_.new(str(rng.choice(STYLES)), rho)
    t.params(n=n, parts=k, split_join=sj, delta=delta, buffer=buf, rho=rho, styles=[T_.tapes[ka].style, T_.tapes[ks].style])
    drive(t, T_, lambda: ForkJoinSimDelta(n, k, delta, sj, buf), FJModel(n, k, k, "SJ" if sj else "FJ", False, buf, shared=not sj), ka, ks,
          4000 if crowd else 2500 if t.thorough else 600, delta=delta)


def delayed_split(t):
    delayed(t, True)


def delayed_fork(t):
    delayed(t, False)


GROUPS = {"split": (split, 300, 1800), "delayed_split": (delayed_split, 420, 2520), "delayed_fork": (delayed_fork, 360, 2160),
          "crowd": (lambda t: split(t, True) if t.idx % 3 == 0 else delayed(t, bool(t.idx % 3 == 1), True), 18, 150)}
NEED = {"served": 10000, "drops": 300, "late_parts": 5000, "crowded": 5}
