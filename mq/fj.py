"""Reference fork-join / split-join / delayed-part system, compared with the simulator after every event.
Service times are taken from the simulator's own starts (and checked to be the times drawn), everything
else (who starts, where, when it ends, who completes, who is refused) is decided by the model."""
from mq.prio import Bad, close

INF = float("inf")


class FJModel:
    def __init__(self, n, parts, need, mode, purge=False, buffer=None, shared=False):
        # mode: "FJ" | "SJ"; shared: one common queue and any channel (delayed-part simulator)
        self.n, self.parts, self.need, self.mode, self.purge, self.buffer, self.shared = n, parts, need, mode, purge, buffer, shared
        self.srv = [None] * n            # (task, end)
        self.q = [[] for _ in range(n)]  # FJ: per channel
        self.sq = []                     # SJ / shared
        self.jobs = {}                   # task -> [arr, done, complete]
        self.pending = []                # delayed parts: (time, task)
        self.current = None              # SJ: job in service
        self.arrived = self.served = self.dropped = self.in_sys = self.purged = self.finished = 0
        self.starts = []
        self.soj, self.occ, self.last = [], {}, 0.0
        self.late_starts = self.out_of_order = 0

    def waiting(self):
        return len(self.sq) + sum(map(len, self.q))

    def free(self):
        return sum(1 for s in self.srv if s is None)

    def next_end(self):
        return min(((s[1], i) for i, s in enumerate(self.srv) if s is not None), default=(INF, None))

    def next_part(self):
        return min(self.pending, default=(INF, None))

    def tick(self, t):
        self.occ[self.in_sys] = self.occ.get(self.in_sys, 0.0) + t - self.last
        self.last = t

    def start(self, task, ch=None):
        """ch None: any free channel (decided by the simulator)."""
        if ch is not None:
            self.srv[ch] = (task, None)
        self.starts.append((task, ch))

    def will_accept(self):
        if self.buffer is None:
            return True
        if self.mode == "FJ":
            return self.waiting() + self.parts <= self.buffer + self.free()
        return self.current is None or self.waiting() + self.parts <= self.buffer

    def arrival(self, t, task, accepted, part_times=None):
        self.tick(t)
        self.arrived += 1
        if not accepted:
            self.dropped += 1
            return
        self.in_sys += 1
        self.jobs[task] = [t, 0, False]
        if part_times is not None:
            self.pending += [(x, task) for x in part_times]
            first = 1
        else:
            first = self.parts
        if self.mode == "FJ" and not self.shared:
            for i in range(self.n):
                if self.srv[i] is None:
                    self.start(task, i)
                else:
                    self.q[i].append(task)
        elif self.mode == "FJ":
            self._shared_part(task)
        elif self.current is None:
            self.current = task
            for _ in range(first):
                self.start(task)
        else:
            self.sq += [task] * first

    def _shared_part(self, task):
        if self.free() - sum(1 for s in self.starts if s[1] is None) > 0:
            self.start(task)
        else:
            self.sq.append(task)

    def part(self, t):
        self.tick(t)
        p = min(self.pending)
        self.pending.remove(p)
        task = p[1]
        self.late_starts += 1
        if self.mode == "FJ":
            self._shared_part(task)
        elif self.current == task and self.free() > 0:
            self.start(task)
        else:
            self.sq.append(task)

    def completion(self, t, ch):
        self.tick(t)
        task, end = self.srv[ch]
        self.srv[ch] = None
        self.finished += 1
        j = self.jobs[task]
        j[1] += 1
        if j[1] == self.need:
            j[2] = True
            self.served += 1
            self.in_sys -= 1
            self.soj.append(t - j[0])
            if self.purge:
                for i in range(self.n):
                    if self.srv[i] is not None and self.srv[i][0] == task:
                        self.srv[i] = None
                        self.purged += 1
                    k = len(self.q[i])
                    self.q[i] = [x for x in self.q[i] if x != task]
                    self.purged += k - len(self.q[i])
            if self.mode == "SJ":
                self.current = None
        if self.mode == "FJ" and not self.shared:
            for i in range(self.n):
                if self.srv[i] is None and self.q[i]:
                    self.start(self.q[i].pop(0), i)
        elif self.mode == "FJ":
            if self.sq:
                self.start(self.sq.pop(0))
        else:
            if self.current is None and self.sq:
                self.current = self.sq[0]
            if self.current is not None:
                fr = self.free()
                mine = [x for x in self.sq if x == self.current][:fr]
                for x in mine:
                    self.sq.remove(x)
                    self.start(x)

    # ---- comparison with the simulator
    def sync(self, t, sim, draws, what, ttol=1e-9):
        """Check channels, queues, start times against the model, adopt the drawn service times."""
        got = [None if s.is_free else (s.tsk_on_service.task_id, s.time_to_end_service) for s in sim.servers]
        anywhere = [s[0] for s in self.starts if s[1] is None]
        newt = []
        for i in range(self.n):
            m = self.srv[i]
            g = got[i]
            if m is None:
                if g is not None:
                    if g[0] in anywhere:
                        anywhere.remove(g[0])
                        self.srv[i] = g
                        newt.append(g[1] - t)
                    else:
                        raise Bad("service", f"{what}: channel {i} serves a part of job {g[0]}, expected idle")
            elif g is None:
                raise Bad("service", f"{what}: channel {i} idle, expected a part of job {m[0]}")
            elif m[1] is None:
                if g[0] != m[0]:
                    raise Bad("service", f"{what}: channel {i} took a part of job {g[0]}, expected job {m[0]}")
                self.srv[i] = g
                newt.append(g[1] - t)
            elif m[0] != g[0] or m[1] != g[1]:
                raise Bad("service", f"{what}: channel {i} has (job, end) {g}, expected {m}")
        if anywhere:
            raise Bad("service", f"{what}: parts of jobs {anywhere} should have started on free channels")
        if len(newt) != len(draws) or any(not (close(a, b, ttol) or abs(a - b) <= 1e-14 * t) for a, b in zip(sorted(newt), sorted(draws))):
            raise Bad("service-time", f"{what}: service times given {newt}, drawn {draws}")
        self.starts = []
        if self.mode == "FJ" and not self.shared:
            q = [[x.task_id for x in c] for c in sim.queues]
            if q != self.q:
                raise Bad("queue", f"{what}: channel queues {q}, expected {self.q}")
        else:
            q = [x.task_id for x in sim.queue.queue]
            if q != self.sq:
                raise Bad("queue", f"{what}: waiting parts {q}, expected {self.sq}")
        c = (sim.arrived, sim.served, sim.dropped, sim.in_sys)
        if c != (self.arrived, self.served, self.dropped, self.in_sys):
            raise Bad("counters", f"{what}: arrived/served/dropped/in system {c}, expected {(self.arrived, self.served, self.dropped, self.in_sys)}")
        if sim.free_channels != self.free():
            raise Bad("free-channels", f"{what}: free_channels {sim.free_channels}, idle channels {self.free()}")
        present = self.waiting() + self.n - self.free()
        if sim.sub_task_in_sys != present:
            raise Bad("parts-count", f"{what}: parts in system {sim.sub_task_in_sys}, present {present}")
        if sim.total != self.finished:
            raise Bad("parts-count", f"{what}: finished parts {sim.total}, expected {self.finished}")
        if not close(sim.ttek, t):
            raise Bad("clock", f"{what}: clock {sim.ttek}, event at {t}")
