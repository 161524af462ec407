import numpy as np
from mq.core import sut
from mq.tape import Tapes, STYLES, TIDE
from mq.prio import Bad, close
from mq.refq import moments
from mq.fj import FJModel, INF


def drive(t, T_, sim_maker, model, ka, ks, steps, delta=None):
    ratios = []
    with T_:
        with sut(t, "build"):
            sim = sim_maker()
            sim.set_sources(ka, "D")
            sim.set_servers(ks, "D")
        if t.fails:
            return None
        arr = T_.ref(ka)
        na = arr()
        draws = []
        T_.on_draw = lambda key, i, v: draws.append(v) if key == ks else None
        with sut(t, "run"):
            for i in range(steps):
                draws.clear()
                te, ch = model.next_end()
                tp, ptask = model.next_part()
                before = len(sim.subtask_arr_queue) if delta is not None else 0
                seen = set(id(x) for x in sim.subtask_arr_queue) if delta is not None else set()
                sim.run_one_step()
                t.ev()
                try:
                    if min(na, tp) < te and na < tp:
                        what = f"event {i}: arrival at {na}"
                        acc = model.will_accept()
                        if (sim.dropped > model.dropped) == acc:
                            raise Bad("buffer", f"{what}: {'refused' if acc else 'accepted'} with {model.waiting()} parts waiting, {model.free()} idle, buffer {model.buffer}")
                        ids = set(s.tsk_on_service.task_id for s in sim.servers if not s.is_free)
                        ids |= set(x.task_id for c in sim.queues for x in c) | set(x.task_id for x in sim.queue.queue)
                        new = [x for x in ids if x not in model.jobs]
                        if acc and len(new) != 1:
                            raise Bad("parts", f"{what}: accepted job has no part in the system ({len(new)} new jobs)")
                        times = None
                        if delta is not None and acc:
                            fresh = [x for x in sim.subtask_arr_queue if id(x) not in seen]
                            times = sorted(x.future_arr_time for x in fresh)
                            if any(x.task_id != new[0] for x in fresh) or len(times) != model.parts - 1:
                                raise Bad("parts", f"{what}: {len(times)} delayed parts created for {model.parts} parts")
                            if not isinstance(delta, list):
                                want = [na + (j + 1) * delta for j in range(model.parts - 1)]
                                if any(not close(a, b) for a, b in zip(times, want)):
                                    raise Bad("part-delay", f"{what}: delayed parts at {times}, expected {want}")
                            else:
                                if any(x < na for x in times):
                                    raise Bad("part-delay", f"{what}: a part before its job: {times}")
                                ratios.append(sum(x - na for x in times))
                        model.arrival(na, new[0] if acc else None, acc, times)
                        tt = na
                        na += arr()
                    elif tp < te:
                        what = f"event {i}: delayed part of job {ptask} at {tp}"
                        model.part(tp)
                        tt = tp
                    else:
                        what = f"event {i}: completion on channel {ch} at {te}"
                        model.completion(te, ch)
                        tt = te
                    model.sync(tt, sim, draws, what)
                except Bad as b:
                    t.fail(b.key, b.msg)
                    return None
        if t.fails:
            return None
        with sut(t, "results"):
            if model.soj:
                t.closev("v", sim.v, moments(model.soj), rtol=1e-7, msg="sojourn moments")
            p = sim.get_p()
            T_tot = model.last
            for j in range(max(model.occ) + 2):
                t.close("p", p[j], model.occ.get(j, 0.0) / T_tot, rtol=1e-7, atol=1e-10, msg=f"fraction of time with {j} jobs")
            t.close("p-sum", sum(p), 1.0, rtol=1e-7)
    if ratios and model.parts > 1:
        # sum over parts of i*delta has mean delta*parts*(parts-1)/2
        m1, m2 = delta[0], delta[1]
        K = model.parts
        want = m1 * K * (K - 1) / 2
        sd = np.sqrt((m2 - m1 * m1) * K * (K - 1) / 2 / len(ratios))
        t.require("delay-mean", abs(np.mean(ratios) - want) <= 7 * sd + 1e-9, f"mean total delay {np.mean(ratios)}, expected {want} (sd {sd})")
    t.count("served", model.served)
    t.count("crowded", max(model.occ) > 300)
    t.count("drops", model.dropped)
    t.count("purged", model.purged)
    t.count("late_parts", model.late_starts)
    t.sig(t.group, model.n, model.parts, model.need, model.mode, model.purge, model.buffer, model.served)
    t.sample(served=model.served, dropped=model.dropped, purged=model.purged, events=steps)
    return sim
