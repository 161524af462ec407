from checks.prio_common import *
PROPERTY = "Q09"
RULE = ("as Q07; at many prefixes the per-class moments and state fractions reported are compared with the monitor's own per-job record; "
        "distinct = (discipline, classes, n, buffer, warm, interruptions, served)")


def stats(t, crowd=False):
    steps = 2500 if crowd else 1200 if t.thorough else 400
    marks = {steps // 7, steps // 2, steps - 1}

    busy, full = [], [None]      # lengths of the completed all-channels-busy periods, start of the current one

    def after(i, s, m):
        free = sum(1 for x in s.servers if x.is_free)
        if free == 0 and full[0] is None:
            full[0] = s.ttek
        elif free and full[0] is not None:
            busy.append(s.ttek - full[0])
            full[0] = None
        if t.idx % 3 == 1:
            nxt = min(list(s.arrival_time) + [m.end_of(m.jobs[x.tsk_on_service.id]) for x in s.servers if not x.is_free]) - s.ttek
            t.count("next_events")
            if not t.close("next-event", s.time_to_next_event, nxt, 1e-9, 1e-9 * s.ttek, "time to the next event", event=i):
                return False
        if i < 30 or i % (431 if crowd else 43) == 0 or i == steps - 1:
            t.count("checkpoints")
            if not t.require("starts", list(s.taked) == m.starts, f"taken for service {s.taked}, service began {m.starts} times (event {i})"):
                return False
            if m.K == 1:
                t.count("busy_periods", len(busy))
                if not t.require("busy-count", s.ppnz_moments[0] == len(busy), f"{s.ppnz_moments[0]} busy periods counted, {len(busy)} completed (event {i})") \
                        or not t.closev("busy-moments", s.ppnz[0], moments(busy), 1e-7, 1e-9, "busy-period moments of the only class", event=i):
                    return False
            for k in range(m.K):
                if not t.closev("sojourn-moments", s.v[k], moments(m.soj[k]), 1e-7, 1e-9, f"class {k} sojourn moments", event=i):
                    return False
                if not t.closev("wait-moments", s.w[k], moments(m.waits[k]), 1e-7, 1e-9, f"class {k} wait moments", event=i):
                    return False
        if i in marks:
            p = s.get_p()
            for k in range(m.K):
                last = m.last_t[k]
                slack = s.ttek - last
                cur = m.in_sys[k]
                for j in range(max(m.occ[k], default=0) + 2):
                    want = m.occ[k].get(j, 0.0) / s.ttek
                    # the state since the last event of this class may or may not be booked yet
                    extra = slack / s.ttek if j == cur else 0.0
                    lo, hi = want - 1e-9, want + extra + 1e-9
                    if not t.require("state-fraction", lo <= p[k][j] <= hi, f"class {k} p[{j}]={p[k][j]}, expected {want} (+{extra}) at event {i}"):
                        return False
        return True
    drive(t, steps, after, crowd=crowd)


GROUPS = {"stats": (stats, 480, 2880), "crowd": (lambda t: stats(t, True), 20, 200)}
NEED = {"checkpoints": 3000, "interruptions": 1000, "next_events": 5000, "busy_periods": 1000, "crowded": 6}
