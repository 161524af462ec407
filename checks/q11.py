from checks.fj_common import *
PROPERTY = "Q11"
RULE = ("random interarrival/service tapes, n 1-6, k 1..n, purge on/off, buffers; channels, part queues, counters and clock compared with the reference after every event, "
        "moments and state fractions at the end; distinct = (n, k, purge, buffer, served)")


def fork(t, crowd=False):
    rng = t.rng
    from most_queue.sim.fj_sim import ForkJoinSim
    n = int(rng.choice([1, 2, 2, 3, 4, 6])) if rng.random() < .9 else int(rng.integers(7, 25))
    k = int(rng.integers(1, n + 1))
    purge = bool(t.idx % 2)
    buf = int(rng.choice([0, 1, 3, n, 2 * n, 3 * n + 1])) if t.idx % 3 == 0 else None
    rho = float(rng.choice([0.3, 0.7, 0.9, 2.0 if buf is not None else 0.95]))
    if crowd:
        buf = None
    T_ = Tapes(rng)
    ka, ks = T_.new(TIDE if crowd else str(rng.choice(STYLES)), 1.0), T_.new(str(rng.choice(STYLES)), rho)
    t.params(n=n, k=k, purge=purge, buffer=buf, rho=rho, styles=[T_.tapes[ka].style, T_.tapes[ks].style])
    drive(t, T_, lambda: ForkJoinSim(n, k, False, purge, buf), FJModel(n, n, k, "FJ", purge, buf), ka, ks, 4000 if crowd else 2000 if t.thorough else 500)


GROUPS = {"fork": (fork, 720, 7200), "crowd": (lambda t: fork(t, True), 16, 120)}
NEED = {"served": 10000, "drops": 500, "purged": 2000, "crowded": 5}
