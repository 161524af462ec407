from checks.base_common import *
PROPERTY = "Q05"
RULE = ("a case = one configuration with at least one of warm-up/cooling/delay; at every event the phase flags, starts, services and "
        "accumulated phase times are compared with the reference protocol; distinct = (n, buffer, phases, counts of phase starts)")


def protocol(t):
    ph = PHASES[1 + t.idx % 5]
    T_, ref, c = make(t, ph)
    n = c["n"]
    with T_:
        with sut(t, "build"):
            s = build(c)
        if t.fails:
            return

        def on_step(i, kind):
            t.ev()
            on = (s.warm_phase.is_start, s.cold_phase.is_start, s.cold_delay_phase.is_start)
            want = (ref.warm_end < 1e300, ref.cold_end < 1e300, ref.delay_end < 1e300)
            busy = sum(1 for x in s.servers if not x.is_free)
            if sum(on) > 1:
                t.fail("overlap", f"phases overlap at event {i}: warm/cold/delay={on}")
                return False
            if (on[0] or on[1]) and busy:
                t.fail("service-in-phase", f"event {i}: {busy} jobs in service during {'warm-up' if on[0] else 'cooling'}")
                return False
            if on[2] and s.in_sys:
                t.fail("delay-with-jobs", f"event {i}: cooling delay running with {s.in_sys} jobs in system")
                return False
            if on != want or busy != len(ref.busy) or s.in_sys != ref.in_sys or not eq(s.ttek, ref.t):
                t.fail("protocol", f"event {i} ({kind}) t={s.ttek}: warm/cold/delay={on} in service={busy} in system={s.in_sys}; "
                       f"expected {want} {len(ref.busy)} {ref.in_sys} t={ref.t}")
                return False
            if i % 20 == 0 or kind in ("warm", "cold", "delay"):
                if ref.t > 0:
                    g = (s.get_warmup_prob(), s.get_cold_prob(), s.get_cold_delay_prob())
                    for name, got in zip(("warm", "cold", "delay"), g):
                        if not t.close("phase-fraction", got, ref.phase_t[name] / ref.t, 1e-7, 1e-10, f"{name} fraction at event {i}"):
                            return False
                g = (s.warm_phase.starts_times, s.cold_phase.starts_times, s.cold_delay_phase.starts_times, s.warm_after_cold_starts)
                w = (ref.phase_n["warm"], ref.phase_n["cold"], ref.phase_n["delay"], ref.warm_after_cold)
                if not t.require("phase-starts", g == w, f"starts of warm/cold/delay/warm-after-cold={g}, expected {w} at event {i}"):
                    return False
            return True
        drive(t, s, ref, steps_for(t), on_step, "run")
    for k in ("warm", "cold", "delay"):
        t.count(k + "_starts", ref.phase_n[k])
        t.count(k + "_ends", ref.kinds.get(k, 0))
    t.count("delay_cancelled", ref.phase_n["delay"] - ref.kinds.get("delay", 0))
    t.count("warm_after_cold", ref.warm_after_cold)
    t.sig(n, c["r"], ph, tuple(ref.phase_n.values()))
    t.sample(starts=ref.phase_n, fractions={k: v / ref.t for k, v in ref.phase_t.items()})


GROUPS = {"protocol": (protocol, 2160, 7200)}
NEED = {"warm_starts": 300, "cold_starts": 300, "delay_starts": 100, "delay_cancelled": 20, "warm_after_cold": 30}
