"""Independent job-level reference models of the simulated queues, driven by tapes."""
INF = float("inf")


class Job:
    __slots__ = ("arr", "start", "end", "dead", "no")

    def __init__(self, arr, no):
        self.arr, self.start, self.end, self.dead, self.no = arr, None, None, INF, no


class RefQueue:
    """FIFO GI/G/n/r with optional warm-up, cooling, cooling delay, batches and patience."""

    def __init__(self, n, r, arr, svc, warm=None, cold=None, delay=None, patience=None, batch=None, first=None):
        self.n, self.r = n, r
        self.arr, self.svc, self.warm, self.cold, self.delay = arr, svc, warm, cold, delay
        self.patience, self.batch = patience, batch
        self.first = first      # law of a service that finds the system empty (servers that warm up with their job)
        self.t = 0.0
        self.next_arr = arr()
        self.busy = []          # (end, job)
        self.queue = []
        self.warm_end = self.cold_end = self.delay_end = INF
        self.phase_t = dict(warm=0.0, cold=0.0, delay=0.0)
        self.phase_start = {}
        self.phase_n = dict(warm=0, cold=0, delay=0)
        self.warm_after_cold = 0
        self.arrived = self.dropped = self.served = self.started = self.reneged = 0
        self.in_sys = 0
        self.occ = {}
        self.waits, self.soj = [], []
        self.lost_waits = []
        self.periods = []
        self.pstart = None
        self.zero_wait = 0
        self.kinds = {}
        self.log = []

    # -- helpers
    def _advance(self, t):
        assert t >= self.t
        self.occ[self.in_sys] = self.occ.get(self.in_sys, 0.0) + (t - self.t)
        self.t = t

    def _start(self, job, arriving=False):
        job.start = self.t
        self.started += 1
        w = self.t - job.arr
        self.waits.append(w)
        warm = arriving and self.first is not None and not self.busy
        job.end = self.t + (self.first if warm else self.svc)()
        self.busy.append(job)
        if len(self.busy) == self.n:
            self.pstart = self.t

    def _queue(self, job):
        if self.r is not None and len(self.queue) >= self.r:
            self.dropped += 1
            self.in_sys -= 1
            return False
        self.queue.append(job)
        return True

    def _begin(self, name, draw):
        self.phase_start[name] = self.t
        self.phase_n[name] += 1
        return self.t + draw()

    def _finish(self, name):
        self.phase_t[name] += self.t - self.phase_start.pop(name)

    # -- events
    def next_kind(self):
        c = [(min((j.end for j in self.busy), default=INF), "serve"), (self.next_arr, "arrive"),
             (self.warm_end, "warm"), (self.cold_end, "cold"), (self.delay_end, "delay")]
        if self.patience is not None:
            c.append((min((j.dead for j in self.queue), default=INF), "renege"))
        return min(c)

    def step(self):
        t, kind = self.next_kind()
        self._advance(t)
        getattr(self, "on_" + kind)()
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        return kind

    def _admit(self):
        self.arrived += 1
        self.in_sys += 1
        job = Job(self.t, self.arrived)
        if self.patience is not None:
            job.dead = self.t + self.patience()
        if len(self.busy) == self.n:
            self._queue(job)
        elif self.cold_end < INF:
            self._queue(job)
        elif self.delay_end < INF:
            self._finish("delay")
            self.delay_end = INF
            self.zero_wait += 1
            self._start(job)
        elif self.warm is not None and (self.warm_end < INF or not self.busy):
            if self.warm_end == INF:
                self.warm_end = self._begin("warm", self.warm)
            self._queue(job)
        else:
            self.zero_wait += 1
            self._start(job, True)

    def on_arrive(self):
        self.next_arr = self.t + self.arr()
        for _ in range(1 if self.batch is None else self.batch()):
            self._admit()

    def on_serve(self):
        job = min(self.busy, key=lambda j: j.end)
        was_full = len(self.busy) == self.n
        self.busy.remove(job)
        self.served += 1
        self.soj.append(self.t - job.arr)
        self.in_sys -= 1
        if self.queue:
            ps = self.pstart
            self._start(self.queue.pop(0))
            self.pstart = ps          # never became free: same period continues
        else:
            if was_full:
                self.periods.append(self.t - self.pstart)
                self.pstart = None
            if not self.busy and self.cold is not None:
                if self.delay is not None:
                    self.delay_end = self._begin("delay", self.delay)
                else:
                    self.cold_end = self._begin("cold", self.cold)

    def _fill(self):
        while self.queue and len(self.busy) < self.n:
            self._start(self.queue.pop(0))

    def on_warm(self):
        self._finish("warm")
        self.warm_end = INF
        self._fill()

    def on_cold(self):
        self._finish("cold")
        self.cold_end = INF
        if self.warm is not None:
            if self.queue:
                self.warm_after_cold += 1
                self.warm_end = self._begin("warm", self.warm)
        else:
            self._fill()

    def on_delay(self):
        self._finish("delay")
        self.delay_end = INF
        self.cold_end = self._begin("cold", self.cold)

    def on_renege(self):
        job = min(self.queue, key=lambda j: j.dead)
        self.queue.remove(job)
        self.in_sys -= 1
        self.dropped += 1
        self.reneged += 1
        self.lost_waits.append(self.t - job.arr)


class RefFinite:
    """m sources, n FIFO channels, r waiting places."""

    def __init__(self, n, m, r, think, svc, first=None):
        self.n, self.m, self.r, self.think, self.svc, self.first = n, m, r, think, svc, first
        self.t = 0.0
        self.thinking = sorted(think() for _ in range(m))
        self.busy, self.queue = [], []
        self.arrived = self.dropped = self.served = self.started = 0
        self.in_sys = 0
        self.occ, self.waits, self.soj, self.wserved, self.periods = {}, [], [], [], []
        self.pstart = None

    def _advance(self, t):
        self.occ[self.in_sys] = self.occ.get(self.in_sys, 0.0) + (t - self.t)
        self.t = t

    def _start(self, job, arriving=False):
        job.start = self.t
        self.started += 1
        self.waits.append(self.t - job.arr)
        warm = arriving and self.first is not None and not self.busy
        job.end = self.t + (self.first if warm else self.svc)()
        self.busy.append(job)
        if len(self.busy) == self.n:
            self.pstart = self.t

    def step(self):
        ta = self.thinking[0] if self.thinking else INF
        ts = min((j.end for j in self.busy), default=INF)
        if ta < ts:
            self._advance(ta)
            self.thinking.pop(0)
            self.arrived += 1
            self.in_sys += 1
            job = Job(self.t, self.arrived)
            if len(self.busy) < self.n:
                self._start(job, True)
            elif self.r is not None and len(self.queue) >= self.r:
                self.dropped += 1
                self.in_sys -= 1
                self._think()
            else:
                self.queue.append(job)
            return "arrive"
        self._advance(ts)
        job = min(self.busy, key=lambda j: j.end)
        was_full = len(self.busy) == self.n
        self.busy.remove(job)
        self.served += 1
        self.in_sys -= 1
        self.soj.append(self.t - job.arr)
        self.wserved.append(job.start - job.arr)
        self._think()
        if self.queue:
            ps = self.pstart
            self._start(self.queue.pop(0))
            self.pstart = ps
        elif was_full:
            self.periods.append(self.t - self.pstart)
        return "serve"

    def _think(self):
        self.thinking.append(self.t + self.think())
        self.thinking.sort()


def moments(xs, k=3):
    n = len(xs)
    if not n:
        return [0.0] * k
    return [sum(x ** i for x in xs) / n for i in range(1, k + 1)]


def occ_fraction(occ, t):
    return {j: v / t for j, v in occ.items() if v > 0} if t > 0 else {}
