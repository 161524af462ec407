from checks.base_common import *
PROPERTY = "Q02"
RULE = ("a case = one random configuration run against the reference queue; at many prefixes the three reported wait and sojourn "
        "moments are compared with averages over the reference's job list; distinct = (n, buffer, phases, checkpoint count, some wait positive)")


def stats(t, phases=None, steps=None):
    T_, ref, c = make(t, phases, crowd=steps is not None)
    with T_:
        with sut(t, "build"):
            s = build(c)
        if t.fails:
            return
        k = [0]

        def on_step(i, kind):
            if (i < 60 or i % 37 == 0 or i % 101 < 2) if steps is None else (i < 3 or i % 7919 == 0):
                k[0] += 1
                if not t.closev("wait-moments", s.w, moments(ref.waits), 1e-7, 1e-10, "wait moments", step=i, started=ref.started):
                    return False
                if not t.closev("sojourn-moments", s.v, moments(ref.soj), 1e-7, 1e-10, "sojourn moments", step=i, served=ref.served):
                    return False
            return True
        drive(t, s, ref, steps or steps_for(t), on_step, "run")
        if not t.fails:
            t.closev("wait-moments", s.w, moments(ref.waits), 1e-7, 1e-10, "final wait moments")
            t.closev("sojourn-moments", s.v, moments(ref.soj), 1e-7, 1e-10, "final sojourn moments")
            t.require("zero-wait-count", s.zero_wait_arrivals_num == ref.zero_wait,
                      f"jobs started without waiting: {s.zero_wait_arrivals_num}, expected {ref.zero_wait}")
    t.count("checkpoints", k[0])
    if steps and ref.served > 20000:
        t.count("long_runs")
    t.count("waits_positive", sum(1 for w in ref.waits if w > 0))
    t.count("waits_zero", sum(1 for w in ref.waits if w == 0))
    t.sig(c["n"], c["r"], tuple(c["pk"]), k[0], round(sum(ref.waits), 3))
    t.sample(w=moments(ref.waits), v=moments(ref.soj), started=ref.started, served=ref.served)


GROUPS = {"plain": (lambda t: stats(t, ()), 120, 900), "phased": (stats, 720, 3600), "long": (lambda t: stats(t, () if t.idx % 2 else None, 60000 if t.idx % 4 else 150000), 8, 60)}
NEED = {"checkpoints": 2000, "waits_positive": 500, "waits_zero": 300, "long_runs": 4}
