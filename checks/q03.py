from checks.base_common import *
PROPERTY = "Q03"
RULE = ("a case = one random configuration; at several prefixes get_p() is compared state by state with the reference's time integral "
        "of the number in system; distinct = (n, buffer, phases, number of states visited)")


def probs(t, phases=None, crowd=False):
    T_, ref, c = make(t, phases, crowd=crowd)
    steps = 6000 if crowd else steps_for(t)
    marks = set(int(x) for x in t.rng.integers(1, steps, 6)) | {0, 1, 2, steps - 1}
    with T_:
        with sut(t, "build"):
            s = build(c)
        if t.fails:
            return

        def on_step(i, kind):
            if i in marks:
                p = s.get_p()
                want = occ_fraction(ref.occ, ref.t)
                t.count("checkpoints")
                tot = float(np.sum(p))
                if not t.require("sum", abs(tot - 1) < 1e-6, f"probabilities sum to {tot} at event {i}"):
                    return False
                if not t.require("nonneg", min(p) >= -1e-15, f"negative probability {min(p)}"):
                    return False
                for j in range(max(want, default=0) + 3):
                    if not t.close("state-fraction", p[j], want.get(j, 0.0), 1e-7, 1e-10, f"p[{j}] at event {i} t={ref.t}"):
                        return False
            return True
        drive(t, s, ref, steps, on_step, "run")
    t.count("states_seen", len(ref.occ))
    t.count("far_states", max(ref.occ) > 1000)
    t.sig(c["n"], c["r"], tuple(c["pk"]), len(ref.occ))
    t.sample(p=dict(sorted(occ_fraction(ref.occ, ref.t).items())[:8]), t=ref.t)


GROUPS = {"plain": (lambda t: probs(t, ()), 100, 600), "phased": (probs, 100, 600), "crowd": (lambda t: probs(t, () if t.idx % 3 else None, True), 16, 120)}
NEED = {"checkpoints": 400, "states_seen": 500, "far_states": 3}
