"""Trace monitor of one multi-class multichannel node: judges every transition against the discipline,
keeps its own record of each job's due service and of waits, sojourns and occupancy."""
INF = float("inf")


class Bad(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg
        super().__init__(msg)


class PJ:
    __slots__ = ("id", "cls", "arr", "work", "rem", "istart", "wstart", "wait", "intervals", "started", "pre", "fresh", "warm", "seq")

    def __init__(self, id, cls, arr, seq):
        self.id, self.cls, self.arr, self.seq = id, cls, arr, seq
        self.work = self.rem = self.istart = self.wstart = None
        self.wait, self.intervals, self.started, self.pre = 0.0, [], False, 0
        self.fresh = None


def close(a, b, tol=1e-8):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class NodeMonitor:
    def __init__(self, n, K, disc, r, skeys, wkeys=None, flat=None):
        self.n, self.K, self.disc, self.r = n, K, disc, r
        self.skeys, self.wkeys = skeys, wkeys
        self.preemptive = disc in ("PR", "RS", "RW")
        self.flat = disc == "No" if flat is None else flat
        self.jobs = {}
        self.seq = 0
        self.soj = [[] for _ in range(K)]
        self.waits = [[] for _ in range(K)]
        self.occ = [dict() for _ in range(K)]
        self.in_sys = [0] * K
        self.last_t = [0.0] * K
        self.arrived, self.served, self.dropped = [0] * K, [0] * K, [0] * K
        self.starts = [0] * K
        self.interruptions = self.repeat_interruptions = self.queue_starts = self.direct = self.queued = self.warm_starts = 0

    # ---- reading the simulator
    def snap(self, sim):
        srv = [None if x.is_free else x.tsk_on_service.id for x in sim.servers]
        if self.flat:
            q = {0: [x.id for x in sim.queue]}
        else:
            q = {k: [x.id for x in sim.queue[k]] for k in range(self.K)}
        return srv, q

    def _occ(self, cls, t):
        o = self.occ[cls]
        o[self.in_sys[cls]] = o.get(self.in_sys[cls], 0.0) + t - self.last_t[cls]
        self.last_t[cls] = t

    def end_of(self, j):
        return j.istart + j.rem

    def next_end(self, srv):
        b = (INF, None)
        for i in srv:
            if i is not None:
                j = self.jobs[i]
                b = min(b, (self.end_of(j), i))
        return b

    def _take(self, draws, key, what):
        for x, d in enumerate(draws):
            if d[0] == key:
                return draws.pop(x)[1]
        raise Bad("service-draw", f"{what}: no time was drawn from its own distribution (draws seen: {draws})")

    def _start(self, j, t, draws, warm=False):
        self.starts[j.cls] += 1
        if not j.started:
            if warm:
                j.work = self._take(draws, self.wkeys[j.cls], f"warm-up start of class {j.cls}")
                self.warm_starts += 1
            else:
                j.work = self._take(draws, self.skeys[j.cls], f"first start of class {j.cls}")
            j.rem = j.work
            j.started = True
        elif self.disc == "RW":
            j.rem = j.work
        elif self.disc == "RS":
            if j.fresh is None:
                j.fresh = self._take(draws, self.skeys[j.cls], f"restart of class {j.cls}")
            j.rem, j.fresh = j.fresh, None
        j.istart = t

    def _same(self, b, a, gone, new, t, what):
        """Service set changes only by `gone` leaving and `new` entering; the rest stays in place."""
        bs, as_ = [x for x in b if x is not None], [x for x in a if x is not None]
        if len(set(as_)) != len(as_):
            raise Bad("duplicate-service", f"{what}: a job is on two channels at t={t}")
        want = set(bs) - set(gone) | set(new)
        if set(as_) != want:
            raise Bad("service-set", f"{what} at t={t}: in service {self._d(as_)}, expected {self._d(want)}")
        for x, y in zip(b, a):
            if x is not None and x not in gone and y != x:
                raise Bad("moved", f"{what} at t={t}: a job in service changed channel")

    def _d(self, ids):
        return sorted((self.jobs[i].cls if i in self.jobs else "?", i) for i in ids)

    def _qeq(self, got, want, what, t):
        if got != want:
            raise Bad("queue", f"{what} at t={t}: waiting {got}, expected {want}")

    def arrival(self, t, cls, jid, before, after, draws):
        bsrv, bq = before
        asrv, aq = after
        draws = list(draws)
        self._occ(cls, t)
        self.arrived[cls] += 1
        self.seq += 1
        busy = [x for x in bsrv if x is not None]
        what = f"arrival of class {cls} ({self.disc}, {len(busy)}/{self.n} busy)"
        present = jid is not None
        lower = [i for i in busy if self.jobs[i].cls > cls]
        total = sum(len(v) for v in bq.values())
        if present:
            j = PJ(jid, cls, t, self.seq)
            if jid in self.jobs:
                raise Bad("job-identity", f"{what}: job id {jid} already in the node")
            self.jobs[jid] = j
            self.in_sys[cls] += 1
        if len(busy) < self.n:
            if total:
                raise Bad("work-conservation", f"{what}: {total} jobs waiting while a channel is free")
            if not present:
                raise Bad("lost", f"{what}: job not found in the node although a channel is free")
            self._same(bsrv, asrv, (), (jid,), t, what)
            self._qeq(aq, bq, what, t)
            self._start(j, t, draws, warm=self.wkeys is not None and not busy)
            self.direct += 1
        elif self.preemptive and lower:
            if not present:
                raise Bad("lost", f"{what}: job not found although lower classes {self._d(lower)} are in service")
            gone = set(busy) - set(x for x in asrv if x is not None)
            if len(gone) != 1:
                raise Bad("preemption", f"{what} at t={t}: interrupted {self._d(gone)}, expected one of {self._d(lower)}")
            v = self.jobs[gone.pop()]
            if v.cls <= cls:
                raise Bad("preemption", f"{what} at t={t}: interrupted a job of class {v.cls}")
            self._same(bsrv, asrv, (v.id,), (jid,), t, what)
            rest = list(aq[v.cls])
            if rest.count(v.id) != 1:
                raise Bad("preempted-lost", f"{what}: interrupted job of class {v.cls} is in its queue {rest.count(v.id)} times")
            rest.remove(v.id)
            self._qeq({**aq, v.cls: rest}, bq, what, t)
            v.intervals.append(t - v.istart)
            if self.disc == "PR":
                v.rem = self.end_of(v) - t
            elif self.disc == "RS":
                mine = [d for d in draws if d[0] == self.skeys[v.cls]]
                if mine:
                    v.fresh = mine[0][1]
                    draws.remove(mine[0])
            v.wstart = t
            v.pre += 1
            self.interruptions += 1
            if v.pre > 1:
                self.repeat_interruptions += 1
            self._start(j, t, draws)
        else:
            self._same(bsrv, asrv, (), (), t, what)
            k = 0 if self.flat else cls
            if self.r is not None and total >= self.r:
                if present:
                    raise Bad("buffer", f"{what}: accepted with {total} waiting and buffer {self.r}")
                self._qeq(aq, bq, what, t)
                self.dropped[cls] += 1
            else:
                if not present:
                    raise Bad("lost", f"{what}: job not found, {total} waiting, buffer {self.r}")
                self._qeq(aq, {**bq, k: bq[k] + [jid]}, what, t)
                j.wstart = t
                self.queued += 1
        if draws:
            raise Bad("service-draw", f"{what}: unexpected service times drawn {draws}")

    def departure(self, t, jid, before, after, draws):
        bsrv, bq = before
        asrv, aq = after
        draws = list(draws)
        if jid not in self.jobs or jid not in bsrv:
            raise Bad("departure", f"t={t}: job {jid} left without being in service")
        j = self.jobs[jid]
        what = f"departure of class {j.cls} ({self.disc})"
        self._occ(j.cls, t)
        e = self.end_of(j)
        if not close(t, e):
            raise Bad("due-service", f"{what} at t={t}: due at {e} (drawn {j.work}, intervals {j.intervals}, interrupted {j.pre} times)")
        j.intervals.append(t - j.istart)
        total = sum(len(v) for v in bq.values())
        new = ()
        if total:
            cand = set(x for x in asrv if x is not None) - set(x for x in bsrv if x is not None)
            if len(cand) != 1:
                raise Bad("work-conservation", f"{what} at t={t}: {total} waiting and {len(cand)} of them started")
            sid = cand.pop()
            if sid not in self.jobs:
                raise Bad("job-identity", f"{what}: unknown job started")
            s = self.jobs[sid]
            new = (sid,)
            if self.flat:
                if bq[0][0] != sid:
                    raise Bad("fifo", f"{what}: job {sid} started before job {bq[0][0]} that came earlier")
                qk = 0
            else:
                qk = min(k for k in bq if bq[k])
                if s.cls != qk:
                    raise Bad("class-order", f"{what} at t={t}: class {s.cls} started while class {qk} waits")
                if not s.started:
                    if any(self.jobs[x].started for x in bq[qk]):
                        raise Bad("fifo", f"{what}: job {sid} of class {qk} started while an interrupted job of its class waits")
                    first = [x for x in bq[qk] if not self.jobs[x].started]
                    if first[0] != sid:
                        raise Bad("fifo", f"{what}: job {sid} of class {qk} started before job {first[0]} that came earlier")
            if sid not in bq[qk]:
                raise Bad("job-identity", f"{what}: started job was not waiting")
            s.wait += t - s.wstart
            self._qeq(aq, {**bq, qk: [x for x in bq[qk] if x != sid]}, what, t)
            self._start(s, t, draws)
            self.queue_starts += 1
        else:
            self._qeq(aq, bq, what, t)
        self._same(bsrv, asrv, (jid,), new, t, what)
        if draws:
            raise Bad("service-draw", f"{what}: unexpected service times drawn {draws}")
        self.in_sys[j.cls] -= 1
        self.served[j.cls] += 1
        self.soj[j.cls].append(t - j.arr)
        self.waits[j.cls].append(j.wait)
        del self.jobs[jid]
        return j

    def inversion(self, srv, q):
        """Preemptive: nobody waits while a strictly lower class is in service."""
        if not self.preemptive:
            return None
        worst = max((self.jobs[i].cls for i in srv if i is not None), default=-1)
        best = min((k for k in q if q[k]), default=self.K)
        return (best, worst) if best < worst else None
