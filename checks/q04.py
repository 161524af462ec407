from checks.base_common import *
PROPERTY = "Q04"
RULE = ("a case = one random configuration; after every event that ends an all-channels-busy period the reported count and moments are compared "
        "with the reference's list of period lengths; distinct = (n, buffer, phases, number of periods, longest period class)")


def periods(t, phases=None, crowd=False):
    T_, ref, c = make(t, phases, crowd=crowd)
    with T_:
        with sut(t, "build"):
            s = build(c)
        if t.fails:
            return
        seen = [0]

        def on_step(i, kind):
            if len(ref.periods) != seen[0] or i % 50 == 0:
                seen[0] = len(ref.periods)
                if not t.require("period-count", s.ppnz_moments == seen[0],
                                 f"event {i}: {s.ppnz_moments} busy periods reported, {seen[0]} completed"):
                    return False
                if not t.closev("period-moments", s.ppnz, moments(ref.periods), 1e-7, 1e-10, "busy period moments", step=i, periods=seen[0]):
                    return False
            return True
        drive(t, s, ref, 6000 if crowd else steps_for(t), on_step, "run")
    t.count("periods", len(ref.periods))
    longp = sum(1 for x in ref.periods if x > 0)
    t.count("kinds_" + "+".join(c["pk"]) if c["pk"] else "kinds_plain", len(ref.periods))
    t.sig(c["n"], c["r"], tuple(c["pk"]), len(ref.periods))
    t.sample(periods=ref.periods[:6], count=len(ref.periods))


GROUPS = {"plain": (lambda t: periods(t, ()), 120, 900), "phased": (periods, 960, 4800), "crowd": (lambda t: periods(t, None, True), 24, 160)}
NEED = {"periods": 1000}
