From 39a7249fbb6eaa859231ffd27a3c4659b787bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 001/105] fix: do not restart the busy period of
 QueueingSystemSimulator at every start from the queue

---
 most_queue/sim/qs_sim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 12e3f1c..720be49 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -332,9 +332,6 @@ class QueueingSystemSimulator:
         """
         que_ts = self.queue.pop()
 
-        if self.free_channels == 1:
-            self.start_ppnz = self.ttek
-
         self.taked += 1
         que_ts.wait_time += self.ttek - que_ts.start_waiting_time
         self.refresh_w_stat(que_ts.wait_time)
@@ -359,6 +356,9 @@ class QueueingSystemSimulator:
             if self.queue.size() != 0:
                 self.send_head_of_queue_to_channel(i)
 
+        if self.free_channels == 0:
+            self.start_ppnz = self.ttek
+
     def on_end_cold(self):
         """
         Job that has to be done after Cold Period Ends
@@ -382,6 +382,9 @@ class QueueingSystemSimulator:
                 if self.queue.size() != 0:
                     self.send_head_of_queue_to_channel(i)
 
+            if self.free_channels == 0:
+                self.start_ppnz = self.ttek
+
     def on_end_cold_delay(self):
         """
         Job that has to be done after Cold Delay Period Ends
-- 
2.43.0


From 87ea7515d7c13617d8800ee23f1f2e8695cdc8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 002/105] fix: account the time before a batch, not the next
 interval, in the state probabilities of QueueingSystemBatchSim

---
 most_queue/sim/batch_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index ff7ceb4..0906236 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -47,6 +47,8 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 batch_size = i + 1
                 break
 
+        self.p[self.in_sys] += self.arrival_time - self.t_old
+
         self.ttek = self.arrival_time
         self.t_old = self.ttek
 
@@ -54,7 +56,6 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
 
         for tsk in range(batch_size):
             self.arrived += 1
-            self.p[self.in_sys] += self.arrival_time - self.t_old
 
             self.in_sys += 1
 
-- 
2.43.0


From ed8a55e354de15b53cbf5da6edf1662d59f2872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 003/105] fix: QueueingSystemBatchSim with a buffer took len()
 of the queue container

---
 most_queue/sim/batch_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 0906236..8ee69e0 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -65,7 +65,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
-                    if len(self.queue) < self.buffer:
+                    if self.queue.size() < self.buffer:
                         new_tsk = Task(self.ttek)
                         new_tsk.start_waiting_time = self.ttek
                         self.queue.append(new_tsk)
-- 
2.43.0


From 962fda2513b2231f8881ae3b561911b396cdf6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 004/105] fix: count jobs served without waiting in the wait
 moments of QueueingSystemBatchSim

---
 most_queue/sim/batch_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 8ee69e0..744822d 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -83,6 +83,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 for s in self.servers:
                     if s.is_free:
                         self.taked += 1
+                        self.refresh_w_stat(0)
                         s.start_service(Task(self.ttek),
                                         self.ttek, is_warm_start)
                         self.free_channels -= 1
-- 
2.43.0


From 7dd95b6f8a6d68ddaab2247653841df089725e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 005/105] fix: account the time before an impatient job leaves
 in the state probabilities of ImpatientQueueSim

---
 most_queue/sim/impatient_queue_sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index a92bc61..76bd138 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -91,7 +91,9 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                     break
 
     def drop_task(self, num_of_task_in_queue, moment_to_leave_earlier):
+        self.p[self.in_sys] += moment_to_leave_earlier - self.t_old
         self.ttek = moment_to_leave_earlier
+        self.t_old = self.ttek
         new_queue = []
         for i, tsk in enumerate(self.queue.queue):
             if i != num_of_task_in_queue:
-- 
2.43.0


From 28e6dcd4973c1fae4755b693f4bbb572a83c8e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 006/105] fix: weight every ended wait once in the wait moments
 of ImpatientQueueSim

---
 most_queue/sim/impatient_queue_sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index 76bd138..628b2b9 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -80,6 +80,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
                     s.start_service(ImpatientTask(
                         self.ttek, moment_to_leave), self.ttek, is_warm_start)
                     self.free_channels -= 1
@@ -105,6 +106,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
         self.in_sys -= 1
         self.dropped += 1
         self.served += 1
+        self.taked += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
         end_ts.wait_time = self.ttek - end_ts.arr_time
         self.refresh_w_stat(end_ts.wait_time)
-- 
2.43.0


From 4798e6bd9a4800bcafa645a0c91953fa2e04dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 007/105] fix: QueueingFiniteSourceSim took len() of the queue
 container and could not run

---
 most_queue/sim/queue_finite_source_sim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 5fa2e16..f56f8fe 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -77,7 +77,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 new_tsk.start_waiting_time = self.ttek
                 self.queue.append(new_tsk)
             else:
-                if len(self.queue) < self.buffer:
+                if self.queue.size() < self.buffer:
                     new_tsk = Task(self.ttek)
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
@@ -89,7 +89,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             # check if its a warm phase:
             is_warm_start = False
-            if len(self.queue) == 0 and self.free_channels == self.n and self.warm_phase.is_set:
+            if self.queue.size() == 0 and self.free_channels == self.n and self.warm_phase.is_set:
                 is_warm_start = True
 
             for s in self.servers:
@@ -131,13 +131,13 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
-        if len(self.queue) == 0 and self.free_channels == 1:
+        if self.queue.size() == 0 and self.free_channels == 1:
             if self.in_sys == self.n - 1:
                 # Конец ПНЗ
                 self.ppnz_moments += 1
                 self.refresh_ppnz_stat(self.ttek - self.start_ppnz)
 
-        if len(self.queue) != 0:
+        if self.queue.size() != 0:
 
             que_ts = self.queue.pop()
 
-- 
2.43.0


From 10e2c5e936d8d2901041d7dcfd91752794f5abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 008/105] fix: return the source of a dropped job in
 QueueingFiniteSourceSim

---
 most_queue/sim/queue_finite_source_sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index f56f8fe..77183c4 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -84,6 +84,9 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 else:
                     self.dropped += 1
                     self.in_sys -= 1
+                    # the source of the dropped job starts again
+                    self.sources_left += 1
+                    self.arrival_times[self.arrived_num] = self.ttek + self.source.generate()
 
         else:  # there are free channels:
 
-- 
2.43.0


From 95cb24adc020353d57ea0143a7c3245834e1f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 009/105] fix: weight every wait once in the wait moments of
 QueueingFiniteSourceSim

---
 most_queue/sim/queue_finite_source_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 77183c4..df98fe2 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -98,6 +98,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
                     s.start_service(Task(self.ttek), self.ttek, is_warm_start)
                     self.free_channels -= 1
 
@@ -131,7 +132,6 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.total += 1
         self.free_channels += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
-        self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
         if self.queue.size() == 0 and self.free_channels == 1:
@@ -149,6 +149,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             self.taked += 1
             que_ts.wait_time += self.ttek - que_ts.start_waiting_time
+            self.refresh_w_stat(que_ts.wait_time)
             self.servers[c].start_service(que_ts, self.ttek)
             self.free_channels -= 1
 
-- 
2.43.0


From 65714b35fcfc58192af70158286b71b7fff24466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 010/105] fix: do not restart the busy period of
 QueueingFiniteSourceSim at every start from the queue

---
 most_queue/sim/queue_finite_source_sim.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index df98fe2..2ef283e 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -144,9 +144,6 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             que_ts = self.queue.pop()
 
-            if self.free_channels == 1:
-                self.start_ppnz = self.ttek
-
             self.taked += 1
             que_ts.wait_time += self.ttek - que_ts.start_waiting_time
             self.refresh_w_stat(que_ts.wait_time)
-- 
2.43.0


From a88ac6774a13e298be21d4b50314f3295161c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 011/105] fix: PriorityQueueSimulator without priorities ('No')
 failed on its shared queue

---
 most_queue/sim/priority_queue_sim.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 3ded2e1..b9dcb73 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -441,7 +441,8 @@ class PriorityQueueSimulator:
         self.refresh_w_stat(k, end_ts.wait_time)
         self.in_sys[k] -= 1
 
-        if len(self.queue[k]) == 0 and self.free_channels == 1:
+        queue = self.queue if self.prty_type == "No" else self.queue[k]
+        if len(queue) == 0 and self.free_channels == 1:
             if self.in_sys[k] == self.n - 1 and self.class_ppnz_started != -1:
                 # Конец ПНЗ
                 self.ppnz_moments[k] += 1
@@ -479,14 +480,18 @@ class PriorityQueueSimulator:
             if len(self.queue) != 0:
 
                 que_ts = self.queue.pop(0)
+                kk = que_ts.in_node_class_num if is_network else que_ts.k
 
-                if self.free_channels == 1 and k != end_ts.k:
-                    self.start_ppnz[k] = self.ttek
-                    self.class_ppnz_started = k
+                if self.free_channels == 1 and kk != k:
+                    self.start_ppnz = self.ttek
+                    self.class_ppnz_started = kk
 
-                self.taked[k] += 1
+                self.taked[kk] += 1
                 que_ts.wait_time += self.ttek - que_ts.start_waiting_time
-                self.servers[c].start_service(que_ts, self.ttek)
+                if is_network:
+                    que_ts.wait_network += self.ttek - que_ts.start_waiting_time
+                self.servers[c].start_service(
+                    que_ts, self.ttek, is_network=is_network)
                 self.free_channels -= 1
         if is_network:
             return end_ts
@@ -668,6 +673,9 @@ class PriorityQueueSimulator:
                 res += "Server " + str(c + 1) + ": Free\n"
             else:
                 res += str(self.servers[c]) + "\n"
+                if self.prty_type == "No":
+                    res += "Queue count " + str(len(self.queue)) + "\n"
+                    continue
                 for kk in range(self.k):
                     res += "Queue # " + \
                         str(kk + 1) + " count " + \
-- 
2.43.0


From bef16932418d1d481c7a5549fac151bf2ec6cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 012/105] fix: resample the interrupted job from its own class
 under RS in PriorityQueueSimulator

---
 most_queue/sim/priority_queue_sim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index b9dcb73..ee17b2e 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -353,7 +353,11 @@ class PriorityQueueSimulator:
                             if self.prty_type == 'PR':
                                 dropped_tsk.time_to_end_service = time_to_end - self.ttek
                             elif self.prty_type == "RS":
-                                dropped_tsk.time_to_end_service = c.dist[k].generate(
+                                if moment:
+                                    dropped_class = dropped_tsk.in_node_class_num
+                                else:
+                                    dropped_class = dropped_tsk.k
+                                dropped_tsk.time_to_end_service = c.dist[dropped_class].generate(
                                 )
                             elif self.prty_type == "RW":
                                 dropped_tsk.time_to_end_service = total_time
-- 
2.43.0


From 2c7034ef52e0d3ad7624b1e17860c2827c9a2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 013/105] fix: keep the service time of a job interrupted more
 than once under RW in PriorityQueueSimulator

---
 most_queue/sim/priority_queue_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index ee17b2e..4f9270a 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -768,6 +768,7 @@ class Server:
             self.tsk_on_service.time_to_end_service = self.time_to_end_service
         else:
             if ts.is_pr:
+                self.total_time_to_serve = ts.time_to_end_service
                 self.time_to_end_service = ttek + ts.time_to_end_service
                 self.tsk_on_service.time_to_end_service = self.time_to_end_service
             else:
-- 
2.43.0


From 01050ab648312a83b47086a6c1fe5fca4817859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 014/105] fix: honour a finite buffer under NP and a buffer of
 0 in PriorityQueueSimulator

---
 most_queue/sim/priority_queue_sim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 4f9270a..911561e 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -310,7 +310,7 @@ class PriorityQueueSimulator:
 
             if self.prty_type == 'No':
 
-                if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
@@ -374,7 +374,7 @@ class PriorityQueueSimulator:
 
                             break
                     if not is_found_weekier:
-                        if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                        if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                             new_tsk.start_waiting_time = self.ttek
                             self.queue[k].append(new_tsk)
                         else:
@@ -390,9 +390,12 @@ class PriorityQueueSimulator:
                                 self.in_sys[k] -= 1
 
             elif self.prty_type == "NP":
-                if self.free_channels == 0:
+                if self.buffer is None or sum(len(q) for q in self.queue) < self.buffer:
                     new_tsk.start_waiting_time = self.ttek
                     self.queue[k].append(new_tsk)
+                else:
+                    self.dropped[k] += 1
+                    self.in_sys[k] -= 1
 
         else:  # there are free channels:
             if self.free_channels == self.n and self.is_warm_up_set == True:
-- 
2.43.0


From 06fa044d9a670ab5ad75e794f7694e28b4846494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 015/105] fix: preempt the lowest class in service, not the
 first weaker one, in PriorityQueueSimulator

---
 most_queue/sim/priority_queue_sim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 911561e..10f2a83 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -327,7 +327,10 @@ class PriorityQueueSimulator:
                 if self.free_channels == 0:
                     # смотрим, есть ли на обслуживании заявки младшего класса
                     is_found_weekier = False
-                    for c in self.servers:
+                    # прерывается заявка самого младшего из обслуживаемых классов
+                    for c in sorted(self.servers, reverse=True,
+                                    key=lambda s: s.tsk_on_service.in_node_class_num if moment
+                                    else s.tsk_on_service.k):
                         if moment:
                             class_on_service = c.tsk_on_service.in_node_class_num
                         else:
-- 
2.43.0


From c658ad3d18a3334f795809e6cffceb4500ad01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 016/105] fix: give each node rank the service law of the class
 that has it in PriorityNetwork

---
 most_queue/sim/priority_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 891cace..601ca4e 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -39,7 +39,7 @@ class PriorityNetwork:
             param_serv_reset = []  # из-за смены порядка приоритетов в узле
             # для расчета необходимо преобразовать список с параметрами вр обслуживания в узле
             for k in range(k_num):
-                param_serv_reset.append(serv_params[m][nodes_prty[m][k]])
+                param_serv_reset.append(serv_params[m][list(nodes_prty[m]).index(k)])
 
             self.smos[m].set_servers(param_serv_reset)
             time.sleep(0.1)
-- 
2.43.0


From 7bab400291c01525f269f905ae84d53df66e2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 017/105] fix: purge the rest of a completed job in ForkJoinSim
 instead of failing on idle channels

---
 most_queue/sim/fj_sim.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index c6b372f..483b188 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -117,21 +117,25 @@ class ForkJoinSim(QueueingSystemSimulator):
                     # найти все остальные подзадачи в СМО и выкинуть
                     task_id = end_ts.task_id
                     for i in range(self.n):
-                        if self.servers[i].tsk_on_service.task_id == task_id:
-                            self.servers[c].end_service()
-                    for i in range(self.n):
-                        for j in range(len(self.queues[i])):
-                            if self.queues[i][j].task_id == task_id:
-                                self.queues[i].pop(j)
+                        num_waiting = len(self.queues[i])
+                        self.queues[i] = [ts for ts in self.queues[i]
+                                          if ts.task_id != task_id]
+                        self.sub_task_in_sys -= num_waiting - \
+                            len(self.queues[i])
+                        if not self.servers[i].is_free and self.servers[i].tsk_on_service.task_id == task_id:
+                            self.servers[i].end_service()
+                            self.free_channels += 1
+                            self.sub_task_in_sys -= 1
 
                 self.served += 1
                 self.refresh_v_stat(self.ttek - end_ts.arr_time)
                 self.in_sys -= 1
 
-            if len(self.queues[c]) != 0:
-                que_ts = self.queues[c].pop(0)
-                self.servers[c].start_service(que_ts, self.ttek)
-                self.free_channels -= 1
+            for i in range(self.n):
+                if self.servers[i].is_free and len(self.queues[i]) != 0:
+                    que_ts = self.queues[i].pop(0)
+                    self.servers[i].start_service(que_ts, self.ttek)
+                    self.free_channels -= 1
 
         else:
             if self.served_subtask_in_task[end_ts.task_id] == self.n:
-- 
2.43.0


From a70c1123cd9d2dc445caebcd9a528fd41469f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 018/105] fix: ForkJoinSim with a finite buffer counted an
 unused queue and never refused a job

---
 most_queue/sim/fj_sim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index 483b188..a0cb6f8 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -54,14 +54,14 @@ class ForkJoinSim(QueueingSystemSimulator):
 
         is_dropped = False
 
-        if self.buffer:  # ограниченная длина очереди
+        if self.buffer is not None:  # ограниченная длина очереди
             if not self.is_SJ:
 
-                if self.queue.size() + self.k - 1 > self.buffer + self.free_channels:
+                if sum(len(q) for q in self.queues) + self.n > self.buffer + self.free_channels:
                     self.dropped += 1
                     is_dropped = True
             else:
-                if self.free_channels == 0 and self.queue.size() + self.k - 1 > self.buffer:
+                if self.free_channels < self.n and self.queue.size() + self.n > self.buffer:
                     self.dropped += 1
                     is_dropped = True
 
-- 
2.43.0


From df6c05c2022ad7ccbda1a3ecc55906c03d0c45ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 019/105] fix: delayed parts of ForkJoinSimDelta in fork-join
 mode were started without the current time

---
 most_queue/sim/fj_delta_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 14c114c..83a329d 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -106,7 +106,7 @@ class ForkJoinSimDelta(ForkJoinSim):
                 else:  # there are free channels:
                     for s in self.servers:
                         if s.is_free:
-                            s.start_service(subtsk)
+                            s.start_service(subtsk, self.ttek)
                             self.free_channels -= 1
                             break
 
-- 
2.43.0


From 1ce0ac43df199deaf539dcb16cffcf97f19f6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 020/105] fix: split-join ForkJoinSimDelta started a job before
 the previous one was complete and held back late parts

---
 most_queue/sim/fj_delta_sim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 83a329d..9df0e91 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -67,7 +67,7 @@ class ForkJoinSimDelta(ForkJoinSim):
 
             else:  # Split-Join discipline
 
-                if self.free_channels < self.k:
+                if self.serv_task_id != -1:  # предыдущее задание еще не завершено
                     self.queue.append(t.subtasks[0])
                 else:
                     self.servers[0].start_service(t.subtasks[0], self.ttek)
@@ -129,7 +129,6 @@ class ForkJoinSimDelta(ForkJoinSim):
         time_to_end = self.servers[c].time_to_end_service
         self.p[self.in_sys] += time_to_end - self.t_old
         end_ts = self.servers[c].end_service()
-        self.serv_task_id = end_ts.task_id
         self.ttek = time_to_end
         self.t_old = self.ttek
         self.served_subtask_in_task[end_ts.task_id] += 1
@@ -155,10 +154,12 @@ class ForkJoinSimDelta(ForkJoinSim):
                 self.served += 1
                 self.refresh_v_stat(self.ttek - end_ts.arr_time)
                 self.in_sys -= 1
+                self.serv_task_id = -1
 
                 if self.queue.size() != 0:
 
                     new_task_id = self.queue.queue[0].task_id
+                    self.serv_task_id = new_task_id
 
                     brothers = [q for q in range(
                         self.queue.size()) if self.queue.queue[q].task_id == new_task_id]
-- 
2.43.0


From cf85a0b9bd43004c603af0f5d1ffe5e017037da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 021/105] fix: ForkJoinSimDelta passed its buffer as the purge
 flag and did not limit the queue

---
 most_queue/sim/fj_delta_sim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 9df0e91..7ee05f5 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -18,7 +18,7 @@ class ForkJoinSimDelta(ForkJoinSim):
         buffer - максимальная длина очереди
         """
         ForkJoinSim.__init__(self, num_of_channels,
-                             num_of_parts, is_SJ, buffer)
+                             num_of_parts, is_SJ, buffer=buffer)
         self.delta = delta
         self.subtask_arr_queue = []
         self.serv_task_id = -1
@@ -36,13 +36,13 @@ class ForkJoinSimDelta(ForkJoinSim):
         self.arrival_time = self.ttek + self.source.generate()
         is_dropped = False
 
-        if self.buffer:  # ограниченная длина очереди
+        if self.buffer is not None:  # ограниченная длина очереди
             if not self.is_SJ:
-                if self.queue.size() + self.k - 1 > self.buffer + self.free_channels:
+                if self.queue.size() + self.k > self.buffer + self.free_channels:
                     self.dropped += 1
                     is_dropped = True
             else:
-                if self.free_channels == 0 and self.queue.size() + self.k - 1 > self.buffer:
+                if self.serv_task_id != -1 and self.queue.size() + self.k > self.buffer:
                     self.dropped += 1
                     is_dropped = True
 
-- 
2.43.0


From d5d8027837b1f6d9566083e9a5962799a061cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 022/105] fix: count finished parts out of the system in
 ForkJoinSimDelta

---
 most_queue/sim/fj_delta_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 7ee05f5..68a3511 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -134,6 +134,7 @@ class ForkJoinSimDelta(ForkJoinSim):
         self.served_subtask_in_task[end_ts.task_id] += 1
         self.total += 1
         self.free_channels += 1
+        self.sub_task_in_sys -= 1
 
         if not self.is_SJ:
 
-- 
2.43.0


From ea5831b2d71f1442a0cede5e977d1e7439464943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:02 +0000
Subject: [PATCH 023/105] fix: H2_dist.get_params lost the first two moments
 when the third is below the H2 minimum

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 47a0ce4..bb3bdaa 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -234,7 +234,7 @@ class H2_dist:
         if t_min > moments[2]:
             # one phase distibution
             q_new = q_max
-            mu1 = (1.0 - math.sqrt(q_new * (v * v - 1.0) / (2 * (1.0 - q_new)))) * moments[0]
+            mu1 = (1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0]
             if math.isclose(mu1, 0):
                 mu1 = 1e10
             else:
-- 
2.43.0


From dc1328bdc4e215e614be8ee133a94821e07b6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:02 +0000
Subject: [PATCH 024/105] fix: H2_dist.get_params stopped by an absolute
 tolerance and returned a probability of another iteration

---
 most_queue/rand_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index bb3bdaa..44aec44 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -248,7 +248,7 @@ class H2_dist:
             tec = 0
             t1 = 0
             t2 = 0
-            while abs(tn - moments[2]) > 1e-8 and tec < max_iteration:
+            while abs(tn - moments[2]) > 1e-9 * moments[2] and tec < max_iteration:
                 tec += 1
                 q_new = (q_max + q_min) / 2.0
                 t1 = (1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0]
@@ -260,7 +260,7 @@ class H2_dist:
                     q_min = q_new
                 else:
                     q_max = q_new
-            res[0] = q_max
+            res[0] = q_new
             res[1] = 1.0 / t1
             res[2] = 1.0 / t2
             return res
-- 
2.43.0


From 6fca5eb17f95ad5625861dd8f75ded6addfe9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:02 +0000
Subject: [PATCH 025/105] fix: H2_dist.get_params returned zeros for a
 coefficient of variation of 1 up to rounding

---
 most_queue/rand_distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 44aec44..ec5cf30 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -223,6 +223,8 @@ class H2_dist:
         v = moments[1] - moments[0] * moments[0]
         v = math.sqrt(v) / moments[0]
         res = [0.0] * 3
+        if math.isclose(v, 1.0):
+            v = 1.0
         if v < 1.0:
             return res
 
-- 
2.43.0


From e6386fec8f8b51ed9da6c2b31c2caa27c37716c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:02 +0000
Subject: [PATCH 026/105] fix: Cox_dist.get_params looked for its special cases
 in unreduced moments with an absolute tolerance

---
 most_queue/rand_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index ec5cf30..d94d3d3 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -446,7 +446,7 @@ class Cox_dist:
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-            if abs(moments[1] - moments[0] * moments[0]) < ee:
+            if abs(moments[1] / 2.0 - moments[0] * moments[0]) < ee * abs(moments[0] * moments[0]):
                 if verbose:
                     print("Cox special 1. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
@@ -460,7 +460,7 @@ class Cox_dist:
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
 
             # проверка на близость распределения к Эрланга 2-го порядка
-            if abs(moments[1] - (3.0 / 4) * moments[0] * moments[0]) < ee:
+            if abs(moments[1] / 2.0 - (3.0 / 4) * moments[0] * moments[0]) < ee * abs(moments[0] * moments[0]):
                 if verbose:
                     print("Cox special 2. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
-- 
2.43.0


From 4013f267c118a112a86c10de876e86d9bab5eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:02 +0000
Subject: [PATCH 027/105] fix: Exp_dist.get_params missed the mean when the
 moments are not exponential

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index d94d3d3..061296d 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -740,7 +740,7 @@ class Exp_dist:
 
     @staticmethod
     def get_params(moments):
-        return Erlang_dist.get_params(moments)[1]
+        return 1.0 / moments[0]
 
 
 class Gamma:
-- 
2.43.0


From 5cc21c7f3be63b407b6acf9039f6e051eae27192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:02 +0000
Subject: [PATCH 028/105] fix: Pareto density and tail below the smallest value

---
 most_queue/rand_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 061296d..4e8761f 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -548,7 +548,7 @@ class Pareto_dist:
         """
         Возвращает значение функции плотности распределения вероятностей СВ
         """
-        if t < 0:
+        if t < k:
             return 0
         return a * math.pow(k, a) / math.pow(t, a + 1)
 
@@ -566,10 +566,10 @@ class Pareto_dist:
         Возвращает значение ДФР
         params = [a, K]
         """
-        if t < 0:
-            return 0
         a = params[0]
         k = params[1]
+        if t < k:
+            return 1.0
         return math.pow(k / t, a)
 
     @staticmethod
-- 
2.43.0


From 4b44d67f1a7e1cccde720050c72633c37338b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:02 +0000
Subject: [PATCH 029/105] fix: Gamma density of a negative argument is 0, not
 an error

---
 most_queue/rand_distribution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 4e8761f..0f3c699 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -849,6 +849,8 @@ class Gamma:
         :param t: время
         :return: значение плотности Гамма-распределения
         """
+        if t < 0:
+            return 0
         fract = sp.gamma(alpha)
         if math.fabs(fract) > 1e-12:
             if math.fabs(mu * t) > 1e-12:
@@ -868,6 +870,8 @@ class Gamma:
         g - массив поправочных коэффициентов
         t: время
         """
+        if t < 0:
+            return 0
         fract = sp.gamma(alpha)
         if math.fabs(fract) > 1e-12:
             if math.fabs(mu * t) > 1e-12:
-- 
2.43.0


From fb04b1d5e9f0679e7318081ea9c70a5b40d6b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:02 +0000
Subject: [PATCH 030/105] fix: get_moments_minus did not invert get_moments

---
 most_queue/general_utils/conv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/general_utils/conv.py b/most_queue/general_utils/conv.py
index 076ba21..421f201 100644
--- a/most_queue/general_utils/conv.py
+++ b/most_queue/general_utils/conv.py
@@ -19,6 +19,6 @@ def get_moments_minus(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] - b[0]
-    res[1] = a[1] - b[1] - 2 * a[0] * b[0]
-    res[2] = a[2] - b[2] - 3 * a[1] * b[0] - 3 * a[0] * b[1]
+    res[1] = a[1] - b[1] - 2 * res[0] * b[0]
+    res[2] = a[2] - b[2] - 3 * res[1] * b[0] - 3 * res[0] * b[1]
     return res
-- 
2.43.0


From 08fb2dd745b3fba96cf7064014ca0893180a1ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:02 +0000
Subject: [PATCH 031/105] fix: get_q_uniform held for unit intensity only

---
 most_queue/theory/utils/q_poisson_arrival_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 0cace10..5cdde05 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -30,10 +30,10 @@ def get_q_uniform(l, mean, half_interval, num=100):
     for j in range(num):
         summ1 = 0
         for i in range(j + 1):
-            summ1 += l * pow(mean - half_interval, i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
+            summ1 += pow(l * (mean - half_interval), i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
         summ2 = 0
         for i in range(j + 1):
-            summ2 += l * pow(mean + half_interval, i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
+            summ2 += pow(l * (mean + half_interval), i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
         q[j] = (1.0 / (2 * l * half_interval)) * (summ1 - summ2)
 
     return q
-- 
2.43.0


From 48d3f793baedd7bbd7e3f9f7aebd60880595cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 032/105] fix: H2_dist.get_params_clx divided by zero for
 exactly exponential moments before handling them

---
 most_queue/rand_distribution.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 0f3c699..e7128f5 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -278,15 +278,6 @@ class H2_dist:
         Возвращает список с параметрами [y1, mu1, mu2]
         """
 
-        f = [0.0] * 3
-        for i in range(3):
-            f[i] = complex(moments[i] / math.factorial(i + 1))
-        znam = (f[1] - pow(f[0], 2))
-        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
-        c1 = (f[0] * f[1] - f[2]) / znam
-
-        d = pow(c1 / 2.0, 2.0) - c0
-
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
@@ -317,6 +308,15 @@ class H2_dist:
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
 
+        f = [0.0] * 3
+        for i in range(3):
+            f[i] = complex(moments[i] / math.factorial(i + 1))
+        znam = (f[1] - pow(f[0], 2))
+        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
+        c1 = (f[0] * f[1] - f[2]) / znam
+
+        d = pow(c1 / 2.0, 2.0) - c0
+
         res = [0, 0, 0]  # y1, mu1, mu2
         c1 = complex(c1)
         x1 = -c1 / 2 + cmath.sqrt(d)
-- 
2.43.0


From 29816342cac8b8c6f9148f1ae77ec6205c7f47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 033/105] fix: H2_dist.get_params used a rate of 1e6 for a zero
 phase whatever the unit of time

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index e7128f5..93d08f9 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -243,7 +243,7 @@ class H2_dist:
                 mu1 = 1.0 / mu1
             res[0] = q_max
             res[1] = mu1
-            res[2] = 1e6
+            res[2] = 1e6 / moments[0]
             return res
         else:
             max_iteration = 10000
-- 
2.43.0


From 579837c7dc25fb9744e62d9e663a458c27d74cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 034/105] fix: Exp_dist.generate did not use the generator it
 was given

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 93d08f9..bbd5d6b 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -722,7 +722,7 @@ class Exp_dist:
     """
 
     def __init__(self, mu, generator=None):
-        self.erl = Erlang_dist([1, mu])
+        self.erl = Erlang_dist([1, mu], generator)
         self.params = mu
         self.type = 'M'
         self.generator = generator
-- 
2.43.0


From 8fad683f691ac7fadf38c68396b4bdb4bae9dad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 035/105] fix: SummatorNumeric.get_k_by_v divided the fourth
 term instead of multiplying it

---
 most_queue/theory/utils/flow_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/utils/flow_sum.py b/most_queue/theory/utils/flow_sum.py
index d1c9d3a..534e46d 100755
--- a/most_queue/theory/utils/flow_sum.py
+++ b/most_queue/theory/utils/flow_sum.py
@@ -112,7 +112,7 @@ class SummatorNumeric:
         if len(v) > 2:
             k.append((3 * pow(v[1], 2) - v[0] * v[2]) / pow(v[0], 5))
         if len(v) > 3:
-            k4 = v[3] / pow(v[0], 2) + 5 * v[1] * \
+            k4 = v[3] * pow(v[0], 2) + 5 * v[1] * \
                 (3 * pow(v[1], 2) - 2 * v[0] * v[2])
             k4 = k4 / pow(v[0], 7)
             k.append(k4)
-- 
2.43.0


From 3253fe25810c3767a208894483b81c625dee0cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 036/105] fix: conv.get_moments and get_moments_minus failed
 for fewer than three moments

---
 most_queue/general_utils/conv.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/most_queue/general_utils/conv.py b/most_queue/general_utils/conv.py
index 421f201..0d32ed9 100644
--- a/most_queue/general_utils/conv.py
+++ b/most_queue/general_utils/conv.py
@@ -2,8 +2,10 @@ def get_moments(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] + b[0]
-    res[1] = a[1] + b[1] + 2 * a[0] * b[0]
-    res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
+    if num > 1:
+        res[1] = a[1] + b[1] + 2 * a[0] * b[0]
+    if num > 2:
+        res[2] = a[2] + b[2] + 3 * a[1] * b[0] + 3 * a[0] * b[1]
     return res
 
 
@@ -19,6 +21,8 @@ def get_moments_minus(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] - b[0]
-    res[1] = a[1] - b[1] - 2 * res[0] * b[0]
-    res[2] = a[2] - b[2] - 3 * res[1] * b[0] - 3 * res[0] * b[1]
+    if num > 1:
+        res[1] = a[1] - b[1] - 2 * res[0] * b[0]
+    if num > 2:
+        res[2] = a[2] - b[2] - 3 * res[1] * b[0] - 3 * res[0] * b[1]
     return res
-- 
2.43.0


From bd2f45c38d35967364d4e9857852fb19e112e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 037/105] fix: get_ty read the next row of the Student table
 for n from 20 to 65 and had 1.001 for 1.991

---
 most_queue/theory/utils/student_stat.py | 30 ++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/most_queue/theory/utils/student_stat.py b/most_queue/theory/utils/student_stat.py
index d9ec551..b0b77db 100755
--- a/most_queue/theory/utils/student_stat.py
+++ b/most_queue/theory/utils/student_stat.py
@@ -22,7 +22,7 @@ def get_ty(gamma, n):
                  2.26, 2.23, 2.20, 2.18, 2.16,
                  2.15, 2.13, 2.12, 2.11, 2.10,
                  2.093, 2.064, 2.045, 2.032, 2.023,
-                 2.016, 2.009, 2.001, 1.996, 1.001,
+                 2.016, 2.009, 2.001, 1.996, 1.991,
                  1.987, 1.984, 1.980, 1.960]
     gamma_099 = [4.60, 4.03, 3.71, 3.50, 3.36,
                  3.25, 3.17, 3.11, 3.06, 3.01,
@@ -46,6 +46,14 @@ def get_ty(gamma, n):
             return gamma_0999[n - 5]
 
     elif n >= 20 and n < 23:
+        if gamma == 0.95:
+            return gamma_095[15]
+        if gamma == 0.99:
+            return gamma_099[15]
+        if gamma == 0.999:
+            return gamma_0999[15]
+
+    elif n >= 23 and n < 28:
         if gamma == 0.95:
             return gamma_095[16]
         if gamma == 0.99:
@@ -53,7 +61,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[16]
 
-    elif n >= 23 and n < 28:
+    elif n >= 28 and n < 33:
         if gamma == 0.95:
             return gamma_095[17]
         if gamma == 0.99:
@@ -61,7 +69,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[17]
 
-    elif n >= 28 and n < 33:
+    elif n >= 33 and n < 38:
         if gamma == 0.95:
             return gamma_095[18]
         if gamma == 0.99:
@@ -69,7 +77,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[18]
 
-    elif n >= 33 and n < 38:
+    elif n >= 38 and n < 43:
         if gamma == 0.95:
             return gamma_095[19]
         if gamma == 0.99:
@@ -77,7 +85,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[19]
 
-    elif n >= 38 and n < 43:
+    elif n >= 43 and n < 48:
         if gamma == 0.95:
             return gamma_095[20]
         if gamma == 0.99:
@@ -85,7 +93,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[20]
 
-    elif n >= 43 and n < 48:
+    elif n >= 48 and n < 56:
         if gamma == 0.95:
             return gamma_095[21]
         if gamma == 0.99:
@@ -93,7 +101,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[21]
 
-    elif n >= 48 and n < 56:
+    elif n >= 56 and n < 66:
         if gamma == 0.95:
             return gamma_095[22]
         if gamma == 0.99:
@@ -101,14 +109,6 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[22]
 
-    elif n >= 56 and n < 66:
-        if gamma == 0.95:
-            return gamma_095[23]
-        if gamma == 0.99:
-            return gamma_099[23]
-        if gamma == 0.999:
-            return gamma_0999[23]
-
     elif n >= 66 and n < 76:
         if gamma == 0.95:
             return gamma_095[23]
-- 
2.43.0


From 581793cc2a9d82939d3deef92cfa394c21942c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 038/105] fix: get_q_Pareto failed for a whole alpha and lost
 precision near one

---
 most_queue/theory/utils/q_poisson_arrival_calc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 5cdde05..eec5c33 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -1,6 +1,6 @@
 import math
 
-from most_queue.rand_distribution import Gamma
+from scipy import integrate
 
 
 def get_q_Gamma(l, mu, alpha, num=100):
@@ -49,7 +49,9 @@ def get_q_Pareto(l, alpha, K, num=100):
     q = [0.0] * num
     gammas = [0.0] * num
     z = l * K
-    gammas[0] = Gamma.get_minus_gamma(alpha) - Gamma.get_gamma_small(-alpha, z)
+    # incomplete gamma function of -alpha: the integral of t^(-alpha-1) * exp(-t) from z, with t = z * exp(u)
+    gammas[0] = pow(z, -alpha) * integrate.quad(lambda u: math.exp(-alpha * u - z * math.exp(u)),
+                                                0, min(36.0 / alpha, 700.0), epsabs=0, epsrel=1e-12)[0]
 
     for j in range(1, num):
         gammas[j] = (j - alpha - 1) * gammas[j - 1] + pow(z, j - alpha - 1) * math.exp(-z)
-- 
2.43.0


From ea686590907c23d721f325fa54bb5df114ba7f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 039/105] fix: calc_qs_load reported no load for normal
 interarrival or service times

---
 most_queue/sim/utils/distribution_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/utils/distribution_utils.py b/most_queue/sim/utils/distribution_utils.py
index 0f86658..ce899bd 100644
--- a/most_queue/sim/utils/distribution_utils.py
+++ b/most_queue/sim/utils/distribution_utils.py
@@ -91,7 +91,7 @@ def calc_qs_load(source_types: str, source_params,
         l = source_params
     elif source_types == "D":
         l = 1.00 / source_params
-    elif source_types == "Uniform":
+    elif source_types in ("Uniform", "Norm"):
         l = 1.00 / source_params[0]
     elif source_types == "H":
         y1 = source_params[0]
@@ -135,7 +135,7 @@ def calc_qs_load(source_types: str, source_params,
         b1 = 1.0 / mu
     elif server_types == "D":
         b1 = server_params
-    elif server_types == "Uniform":
+    elif server_types in ("Uniform", "Norm"):
         b1 = server_params[0]
 
     elif server_types == "H":
-- 
2.43.0


From 5609e3a158bcd308c096bda35c899fbf668d2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 040/105] fix: calc_qs_load divided by zero for a Pareto law
 with alpha 1, whose mean is infinite

---
 most_queue/sim/utils/distribution_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/utils/distribution_utils.py b/most_queue/sim/utils/distribution_utils.py
index ce899bd..063ba75 100644
--- a/most_queue/sim/utils/distribution_utils.py
+++ b/most_queue/sim/utils/distribution_utils.py
@@ -121,7 +121,7 @@ def calc_qs_load(source_types: str, source_params,
         f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
         l = 1.0 / f1
     elif source_types == "Pa":
-        if source_params[0] < 1:
+        if source_params[0] <= 1:
             return None
         else:
             a = source_params[0]
@@ -164,7 +164,7 @@ def calc_qs_load(source_types: str, source_params,
 
         b1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
     elif server_types == "Pa":
-        if server_params[0] < 1:
+        if server_params[0] <= 1:
             return math.inf
         else:
             a = server_params[0]
-- 
2.43.0


From af5671dbad1aadbd8007d6f35f6c48998a86f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 041/105] fix: PriorityQueueSimulator.calc_load is the sum of
 the class loads

---
 most_queue/sim/priority_queue_sim.py | 102 +++------------------------
 1 file changed, 8 insertions(+), 94 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 10f2a83..cd14996 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -6,7 +6,7 @@ import numpy as np
 from colorama import Fore, Style, init
 from tqdm import tqdm
 
-from most_queue.sim.utils.distribution_utils import create_distribution
+from most_queue.sim.utils.distribution_utils import calc_qs_load, create_distribution
 
 init()
 
@@ -179,102 +179,16 @@ class PriorityQueueSimulator:
         """
         Вычисляет коэффициент загрузки СМО
         """
-        l_sum = 0
-        b1_sr = 0
+        load = 0
 
         for i in range(self.k):
+            class_load = calc_qs_load(self.sources_params[i]['type'], self.sources_params[i]['params'],
+                                      self.servers_params[i]['type'], self.servers_params[i]['params'], self.n)
+            if class_load is None:
+                return None
+            load += class_load
 
-            if self.sources_params[i]['type'] == "M":
-                l_sum += self.sources_params[i]['params']
-            elif self.sources_params[i]['type'] == "H":
-                y1 = self.sources_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['type'][1]
-                mu2 = self.sources_params[i]['type'][2]
-
-                f1 = y1 / mu1 + y2 / mu2
-                l_sum += 1.0 / f1
-
-            elif self.sources_params[i]['type'] == "E":
-                r = self.sources_params[i]['params'][0]
-                mu = self.sources_params[i]['params'][1]
-                l_sum += mu / r
-
-            elif self.sources_params[i]['type'] == "Gamma":
-                mu = self.sources_params[i]['params'][0]
-                alpha = self.sources_params[i]['params'][1]
-                l_sum += mu / alpha
-
-            elif self.sources_params[i]['type'] == "C":
-                y1 = self.sources_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['params'][1]
-                mu2 = self.sources_params[i]['params'][2]
-
-                f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
-                l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Pa":
-                if self.sources_params[i]['params'][0] < 1:
-                    return None
-                else:
-                    a = self.sources_params[i]['params'][0]
-                    k = self.sources_params[i]['params'][1]
-                    f1 = a * k / (a - 1)
-                    l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Uniform":
-                f1 = self.sources_params[i]['type'][0]
-                l_sum += 1.0 / f1
-
-            elif self.sources_params[i]['type'] == "D":
-                f1 = self.sources_params[i]['type']
-                l_sum += 1.0 / f1
-
-            if self.servers_params[i]['type'] == "M":
-                mu = self.servers_params[i]['params']
-                b1_sr += 1.0 / mu
-
-            elif self.servers_params[i]['type'] == "H":
-                y1 = self.servers_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.servers_params[i]['params'][1]
-                mu2 = self.servers_params[i]['params'][2]
-
-                b1_sr += y1 / mu1 + y2 / mu2
-
-            elif self.servers_params[i]['type'] == "Gamma":
-                mu = self.servers_params[i]['params'][0]
-                alpha = self.servers_params[i]['params'][1]
-                b1_sr += alpha / mu
-
-            elif self.servers_params[i]['type'] == "E":
-                r = self.servers_params[i]['params'][0]
-                mu = self.servers_params[i]['params'][1]
-                b1_sr += r / mu
-
-            elif self.servers_params[i]['type'] == "Uniform":
-                f1 = self.servers_params[i]['params'][0]
-                b1_sr += 1.0 / f1
-
-            elif self.servers_params[i]['type'] == "D":
-                f1 = self.servers_params[i]['type']
-                b1_sr += 1.0 / f1
-
-            elif self.servers_params[i]['type'] == "C":
-                y1 = self.servers_params[i]['params'][0]
-                y2 = 1.0 - y1
-                mu1 = self.servers_params[i]['params'][1]
-                mu2 = self.servers_params[i]['params'][2]
-
-                b1_sr += y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
-            elif self.servers_params[i]['type'] == "Pa":
-                if self.servers_params[i]['params'][0] < 1:
-                    return math.inf
-                else:
-                    a = self.servers_params[i]['params'][0]
-                    k = self.servers_params[i]['params'][1]
-                    b1_sr += a * k / (a - 1)
-
-        return l_sum * b1_sr / (self.n * self.k)
+        return load
 
     def arrival(self, k, moment=None, ts=None):
         """
-- 
2.43.0


From 935758285862aebdae57b7d4ea4428cebd969794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 042/105] fix: MMnr_calc.get_p divided by zero for a load of
 one

---
 most_queue/theory/mmnr_calc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index db2aeb4..e484045 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -61,11 +61,12 @@ class MMnr_calc:
         for i in range(n):
             summ1 += pow(ro, i) / math.factorial(i)
 
-        chisl = 1 - pow(ro / n, r + 1)
         coef = pow(ro, n) / math.factorial(n)
-        znam = 1 - (ro / n)
+        summ2 = 0
+        for i in range(r + 1):
+            summ2 += pow(ro / n, i)
 
-        p[0] = 1.0 / (summ1 + coef * chisl / znam)
+        p[0] = 1.0 / (summ1 + coef * summ2)
 
         for i in range(n):
             p[i] = pow(ro, i) * p[0] / math.factorial(i)
-- 
2.43.0


From 044156551de2ddbff1335bdc8639e0bf6e0e23bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 043/105] fix: MMnr_calc.get_w ignored that dropped jobs do not
 wait

---
 most_queue/theory/mmnr_calc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index e484045..3160ee7 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -38,10 +38,14 @@ class MMnr_calc:
 
     @staticmethod
     def get_w(l, mu, n, r, num=3):
-        qs = MMnr_calc.get_qs(l, mu, n, r, q_num=num)
+        # an accepted job that finds i jobs waiting waits for i + 1 departures
+        p = MMnr_calc.get_p(l, mu, n, r)
+        accepted = sum(p[:n + r])
         w = [0] * num
         for k in range(num):
-            w[k] = qs[k] / pow(l, k + 1)
+            for i in range(r):
+                w[k] += p[n + i] * math.prod(range(i + 1, i + k + 2))
+            w[k] /= accepted * pow(n * mu, k + 1)
         return w
 
     @staticmethod
-- 
2.43.0


From 82aabe9abe602961bca284f3c3b582b3e21e51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 044/105] fix: mg1_calc.get_v returned three moments when more
 were asked for

---
 most_queue/theory/mg1_calc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/most_queue/theory/mg1_calc.py b/most_queue/theory/mg1_calc.py
index 248451f..43c8384 100755
--- a/most_queue/theory/mg1_calc.py
+++ b/most_queue/theory/mg1_calc.py
@@ -34,12 +34,13 @@ def get_v(l, b, num=3):
     num_of_mom = min(len(b) - 1, num)
 
     w = get_w(l, b, num_of_mom)
+    w.insert(0, 1)
     v = []
-    v.append(w[0] + b[0])
-    if num_of_mom > 1:
-        v.append(w[1] + 2 * w[0] * b[0] + b[1])
-    if num_of_mom > 2:
-        v.append(w[2] + 3 * w[1] * b[0] + 3 * b[1] * w[0] + b[2])
+    for k in range(1, num_of_mom + 1):
+        summ = w[k]
+        for j in range(k):
+            summ += math.comb(k, j) * w[j] * b[k - j - 1]
+        v.append(summ)
 
     return v
 
-- 
2.43.0


From 0dc4a2d75d735b92b72a44e8dc2453e68cbf1c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 045/105] fix: mg1_warm_calc.get_v differentiated numerically
 away from zero and lost the higher moments

---
 most_queue/theory/mg1_warm_calc.py | 36 ++++++++++++++++++------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/most_queue/theory/mg1_warm_calc.py b/most_queue/theory/mg1_warm_calc.py
index ec1ad83..9f9b014 100755
--- a/most_queue/theory/mg1_warm_calc.py
+++ b/most_queue/theory/mg1_warm_calc.py
@@ -1,4 +1,5 @@
-from most_queue.theory.utils.diff5dots import diff5dots
+import math
+
 from most_queue.rand_distribution import Gamma
 
 
@@ -9,21 +10,28 @@ def get_v(l, b, b_warm):
     b_param = Gamma.get_mu_alpha(b)
     b_warm_param = Gamma.get_mu_alpha(b_warm)
 
-    h = 0.0001
-    steps = 5
-
-    v_pls = []
+    # moments of the M/G/1 transform with an exceptional first service
+    # p0_star * ((1 - s / l) * B_warm(s) - B(s)) / (1 - s / l - B(s)), as a quotient of power series of s
+    num = 4
+    b_ser = get_series(Gamma.calc_theory_moments(*b_param, num))
+    warm_ser = get_series(Gamma.calc_theory_moments(*b_warm_param, num))
 
-    for c in range(1, steps):
-        s = h * c
-        chisl = p0_star * ((1 - s / l) * Gamma.get_pls(*b_warm_param, s) - Gamma.get_pls(*b_param, s))
-        znam = 1 - s / l - Gamma.get_pls(*b_param, s)
-        v_pls.append(chisl / znam)
+    chisl = [warm_ser[k] - warm_ser[k - 1] / l - b_ser[k] for k in range(1, num + 1)]
+    znam = [-b_ser[k] for k in range(1, num + 1)]
+    znam[0] -= 1 / l
 
-    v = diff5dots(v_pls, h)
-    v[0] = -v[0]
-    v[2] = -v[2]
+    v_ser = []
+    for k in range(num):
+        summ = p0_star * chisl[k]
+        for j in range(k):
+            summ -= v_ser[j] * znam[k - j]
+        v_ser.append(summ / znam[0])
 
-    return v
+    return [math.factorial(k) * pow(-1, k) * v_ser[k] for k in range(1, num)]
 
 
+def get_series(moments):
+    """
+    Coefficients of the Laplace transform as a power series of s, given the initial moments
+    """
+    return [1.0] + [pow(-1, k) * m / math.factorial(k) for k, m in enumerate(moments, 1)]
-- 
2.43.0


From 7745636810072401c375b0cba654877377c968ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 046/105] fix: Gamma.get_gamma_incomplete failed for whole
 negative arguments and cancelled for large z

---
 most_queue/rand_distribution.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index bbd5d6b..ec44916 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -3,7 +3,7 @@ import math
 
 import numpy as np
 import scipy.special as sp
-from scipy import stats
+from scipy import integrate, stats
 
 
 class Normal_dist:
@@ -907,7 +907,11 @@ class Gamma:
     @staticmethod
     def get_gamma_incomplete(x, z, e=1e-12):
 
-        return Gamma.get_gamma(x) - Gamma.get_gamma_small(x, z, e)
+        if x > 0:
+            return sp.gammaincc(x, z) * sp.gamma(x)
+        # the integral of t^(x-1) * exp(-t) from z, with t = z * exp(u)
+        upper = max(math.log(750.0 / z), 1.0)
+        return pow(z, x) * integrate.quad(lambda u: math.exp(x * u - z * math.exp(u)), 0, upper, epsabs=0, epsrel=e)[0]
 
     @staticmethod
     def get_gamma_small(x, z, e=1e-12):
-- 
2.43.0


From fc3fe103f6533c874dbfbd1fa900564a88f14cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 047/105] fix: gi_m_1_calc.get_pi took the empty probability
 from a two-moment Gamma law whatever the input

---
 most_queue/theory/gi_m_1_calc.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/most_queue/theory/gi_m_1_calc.py b/most_queue/theory/gi_m_1_calc.py
index f4d0566..7994236 100755
--- a/most_queue/theory/gi_m_1_calc.py
+++ b/most_queue/theory/gi_m_1_calc.py
@@ -2,7 +2,6 @@ import math
 
 from most_queue.general_utils.conv import get_moments_minus
 from most_queue.rand_distribution import Gamma, Pareto_dist
-from most_queue.theory.utils.q_poisson_arrival_calc import get_q_Gamma
 
 
 def get_pi(a, mu, num=100, e=1e-10, approx_distr="Gamma"):
@@ -14,15 +13,8 @@ def get_pi(a, mu, num=100, e=1e-10, approx_distr="Gamma"):
     """
     pi = [0.0] * num
 
-    v, alpha = Gamma.get_mu_alpha(a)
-
-    q = get_q_Gamma(mu, v, alpha)
-    summ = 0
     w = get_w_param(a, mu, e, approx_distr)
-    for i in range(len(q)):
-        summ += q[i] * pow(w, i)
-    pi[0] = 1.0 - summ
-    for k in range(1, num):
+    for k in range(num):
         pi[k] = (1.0 - w) * pow(w, k)
     return pi
 
-- 
2.43.0


From 24f0d682284f6eac77d8f4e5c152948244f01da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 048/105] fix: gi_m_n_calc.get_w differentiated numerically
 with a step that ignored the unit of time

---
 most_queue/theory/gi_m_n_calc.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/most_queue/theory/gi_m_n_calc.py b/most_queue/theory/gi_m_n_calc.py
index d422802..9c9bd75 100755
--- a/most_queue/theory/gi_m_n_calc.py
+++ b/most_queue/theory/gi_m_n_calc.py
@@ -3,7 +3,6 @@ import math
 import numpy as np
 
 from most_queue.general_utils.conv import get_moments
-from most_queue.theory.utils.diff5dots import diff5dots
 from most_queue.rand_distribution import Gamma, Pareto_dist
 
 
@@ -83,17 +82,9 @@ def get_w_pls(n, mu, pn, w, s):
 def get_w(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
     pi = get_pi(a, mu, n, num, e, approx_distr)
     pn = pi[n]
-    pls = []
     w_param = get_w_param(a, mu, n, e, approx_distr)
-    h = 0.001
-    s = 0
-    for i in range(5):
-        pls.append(get_w_pls(n, mu, pn, w_param, s))
-        s += h
-    w = diff5dots(pls, h)
-    w[0] = - w[0]
-    w[2] = - w[2]
-    return w
+    # derivatives of get_w_pls at zero
+    return [math.factorial(k) * pn / ((1.0 - w_param) * pow(n * mu * (1.0 - w_param), k)) for k in range(1, 4)]
 
 
 def get_p(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
-- 
2.43.0


From 7b1e09664160e6f72c308d028abbf766c7996944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 049/105] fix: Engset.get_w differentiated numerically with a
 step that ignored the unit of time

---
 most_queue/theory/engset_model.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/most_queue/theory/engset_model.py b/most_queue/theory/engset_model.py
index 7f6e3e4..121c4a3 100755
--- a/most_queue/theory/engset_model.py
+++ b/most_queue/theory/engset_model.py
@@ -1,4 +1,5 @@
-from most_queue.theory.utils.diff5dots import diff5dots
+import math
+
 from most_queue.general_utils.conv import get_moments
 
 
@@ -93,15 +94,17 @@ class Engset:
         """
         Начальные моменты времени ожидания через дифф ПЛС
         """
-        h = 0.01
-        ss = [x * h for x in range(5)]
         p0 = self.get_p()[0]
         N = self.get_N()
 
-        ws_dots = [self.ws(s, p0, N) for s in ss]
-        w_diff = diff5dots(ws_dots, h)
+        # derivatives of ws at zero
+        w = [0.0] * 3
+        for k in range(3):
+            for i in range(1, self.m):
+                w[k] += pow(self.ro, i) * self.m_i[i + 1] * math.prod(range(i, i + k + 1))
+            w[k] *= p0 / ((self.m - N) * pow(self.mu, k + 1))
 
-        return [-w_diff[0], w_diff[1], -w_diff[2]]
+        return w
 
     def ws(self, s, p0, N):
         """
-- 
2.43.0


From 71bfa4bfe8b80dc0f0dffa84b5e5755971948469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 050/105] fix: BatchMM1.calc_l returned the mean probability
 instead of the mean batch size

---
 most_queue/theory/batch_mm1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/batch_mm1.py b/most_queue/theory/batch_mm1.py
index 816054b..b8b00c8 100755
--- a/most_queue/theory/batch_mm1.py
+++ b/most_queue/theory/batch_mm1.py
@@ -30,7 +30,7 @@ class BatchMM1:
         """
         Mean batch size
         """
-        return sum(self.ls) / len(self.ls)
+        return self.calc_l_moments()[0]
 
     def calc_l_moments(self):
         """
-- 
2.43.0


From 18ee352f84aab76ce6441fff5853be96b80601f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 051/105] fix: impatience_calc.get_p0 stopped at two equal
 terms of its series

---
 most_queue/theory/impatience_calc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/impatience_calc.py b/most_queue/theory/impatience_calc.py
index 545b8dc..7f97e51 100755
--- a/most_queue/theory/impatience_calc.py
+++ b/most_queue/theory/impatience_calc.py
@@ -10,11 +10,11 @@ def get_p0(l, mu, gamma, tol=1e-12):
     Вероятность нулевого состояния системы
     """
     summ = 0
-    elem_old = l
-    elem_new = 0
+    elem_old = 0
+    elem_new = 1
 
     i = 1
-    while math.fabs(elem_new - elem_old) > tol:
+    while elem_new > tol or elem_new >= elem_old:
         chisl = math.pow(l, i)
         znam = mu
         j = 1
-- 
2.43.0


From fce7549eb7346583ee86f15b14d7f49cb96624ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 052/105] fix: impatience_calc.get_p stopped before the most
 probable states under overload

---
 most_queue/theory/impatience_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/impatience_calc.py b/most_queue/theory/impatience_calc.py
index 7f97e51..3a3771f 100755
--- a/most_queue/theory/impatience_calc.py
+++ b/most_queue/theory/impatience_calc.py
@@ -49,7 +49,7 @@ def get_p(l, mu, gamma, tol=1e-12, max_num=100000):
 
         pi = p0 * chisl / znam
         ps.append(pi)
-        if pi < tol:
+        if pi < tol and pi < ps[-2]:
             break
 
     return ps
-- 
2.43.0


From d279cfe7e43c703b240fd67b1cc43e9a576b6f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 053/105] fix: M_D_n.calc_p amplified rounding errors and cut
 the distribution off at a negative value

---
 most_queue/theory/m_d_n_calc.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/most_queue/theory/m_d_n_calc.py b/most_queue/theory/m_d_n_calc.py
index 6400af2..3245677 100755
--- a/most_queue/theory/m_d_n_calc.py
+++ b/most_queue/theory/m_d_n_calc.py
@@ -53,27 +53,20 @@ class M_D_n:
 
     def calc_p(self):
         p_up_to_n = self.calc_p_up_to_n()
-        self.calc_q()
-        summ = 0
+
+        # the generating function follows from p[0], ..., p[n-1]. Its coefficients are found by FFT on the unit
+        # circle, because the recursion for them amplifies rounding errors
+        num = max(8192, 4 * self.p_num)
+        z = np.exp(2j * np.pi * np.arange(1, num) / num)
+        q = np.exp(-self.l * self.b * (1.0 - z))
+        chisl = 0
         for i in range(len(p_up_to_n)):
-            self.p[i] = p_up_to_n[i]
-            summ += self.p[i]
-
-        self.p[self.n] = self.p[0] / self.q_[0] - summ
-        u = summ + self.p[self.n]
-
-        is_negative = False
-        for k in range(self.n + 1, self.p_num):
-            if is_negative:
-                break
-            summ = 0
-            for j in range(1, k - self.n):
-                summ += self.q_[j] * self.p[k - j]
-            value = (self.p[k - self.n] - u * self.q_[k - self.n] - summ) / self.q_[0]
-            if value < 0:
-                is_negative = True
-            else:
-                self.p[k] = value
+            chisl = chisl + p_up_to_n[i] * (np.power(z, self.n) - np.power(z, i))
+        pgf = np.concatenate(([1.0], q * chisl / (np.power(z, self.n) - q)))
+        p = np.fft.fft(pgf).real / num
+
+        for i in range(self.p_num):
+            self.p[i] = max(float(p[i]), 0.0)
 
         return self.p
 
-- 
2.43.0


From 5a6c04220833c315e39af9a7c2207c81a7a7b816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 054/105] fix: Ek_D_n.calc_w_up_to_nk dropped small singular
 values and returned wrong probabilities

---
 most_queue/theory/ek_d_n_calc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/ek_d_n_calc.py b/most_queue/theory/ek_d_n_calc.py
index 0914680..9114f47 100755
--- a/most_queue/theory/ek_d_n_calc.py
+++ b/most_queue/theory/ek_d_n_calc.py
@@ -93,10 +93,14 @@ class Ek_D_n:
                 A[self.n * self.k - 1, i] = coef
 
         B[self.n * self.k - 1] = self.n - self.l * self.b / self.k
-        w = np.linalg.lstsq(A, B, rcond=1e-8)
+        # the powers of z differ by many orders of magnitude, so the rows and columns are scaled
+        rows = np.max(np.abs(A), axis=1)
+        A = A / rows[:, np.newaxis]
+        columns = np.max(np.abs(A), axis=0)
+        w = np.linalg.solve(A / columns, B / rows) / columns
         w_real = []
-        for i in range(len(w[0])):
-            w_real.append(w[0][i].real)
+        for i in range(len(w)):
+            w_real.append(w[i].real)
         return w_real
 
     def calc_p(self):
-- 
2.43.0


From 603e487a96d1afc23b15700c90eed482718ce38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 055/105] fix: Ek_D_n.calc_w amplified rounding errors and
 calc_p left out most of the states

---
 most_queue/theory/ek_d_n_calc.py | 60 +++++++++-----------------------
 1 file changed, 17 insertions(+), 43 deletions(-)

diff --git a/most_queue/theory/ek_d_n_calc.py b/most_queue/theory/ek_d_n_calc.py
index 9114f47..9e7f95e 100755
--- a/most_queue/theory/ek_d_n_calc.py
+++ b/most_queue/theory/ek_d_n_calc.py
@@ -23,41 +23,24 @@ class Ek_D_n:
         self.e = e
         self.p = [0.0] * p_num
         self.p_num = p_num
-        self.w = [0.0] * (2 * p_num)
+        self.w = [0.0] * (k * p_num)
 
     def calc_w(self):
-        self.calc_q()
         w_up_to_nk = self.calc_w_up_to_nk()
-        self.w[:len(w_up_to_nk)] = w_up_to_nk[:]
-        for i in range(self.k):
-            summ1 = 0
-            for m in range(i + 1):
-                q = self.q_[i - m]
-                summ2 = 0
-                for j in range(self.n):
-                    summ2 += self.w[j * self.k + m]
-                summ1 += q * summ2
-            summ3 = 0
-            for m in range(i):
-                summ3 += self.q_[i - m] * self.w[self.n * self.k + m]
-            self.w[self.n * self.k + i] = (self.w[i] - summ1 - summ3) / self.q_[0]
-
-        is_negative = False
-
-        for i in range(self.k, self.p_num):
-            if is_negative:
-                break
-            summ1 = 0
-            for m in range(self.k):
-                summ1 += self.get_W(self.n, m) * self.q_[i - m]
-            summ2 = 0
-            for m in range(1, i - self.k + 1):
-                summ2 += self.q_[m] * self.w[self.n * self.k + i - m]
-            value = (self.w[i] - summ1 - summ2) / self.q_[0]
-            if value < 0:
-                is_negative = True
-            else:
-                self.w[self.n * self.k + i] = value
+
+        # the generating function follows from w[0], ..., w[n*k-1]. Its coefficients are found by FFT on the unit
+        # circle, because the recursion for them amplifies rounding errors
+        num = max(8192, 4 * len(self.w))
+        nk = self.n * self.k
+        z = np.exp(2j * np.pi * np.arange(1, num) / num)
+        q = np.exp(-self.l * self.b * (1.0 - z))
+        chisl = 0
+        for i in range(len(w_up_to_nk)):
+            chisl = chisl + w_up_to_nk[i] * (np.power(z, nk + i % self.k) - np.power(z, i))
+        pgf = np.concatenate(([1.0], q * chisl / (np.power(z, nk) - q)))
+        w = np.fft.fft(pgf).real / num
+
+        self.w = [max(float(x), 0.0) for x in w[:len(self.w)]]
 
         return self.w
 
@@ -105,17 +88,8 @@ class Ek_D_n:
 
     def calc_p(self):
         w = self.calc_w()
-        is_zero = False
-        for j in range(len(self.w)):
-            if is_zero:
-                break
-            summ = 0
-            for m in range(j * self.k, (j + 1) * self.k):
-                summ += w[m]
-            if math.fabs(summ) < 1e-12 or summ > 1:
-                is_zero = True
-            else:
-                self.p[j] = summ
+        for j in range(min(self.p_num, len(self.w) // self.k)):
+            self.p[j] = sum(w[j * self.k:(j + 1) * self.k])
 
         return self.p
 
-- 
2.43.0


From 63383ae536db9522476f1567ccaafbefb7bb6a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:37 +0000
Subject: [PATCH 056/105] fix: MGnCalc with a finite buffer let arrivals in at
 the full state and ignored buffer=0

---
 most_queue/theory/mgn_tt.py | 54 +++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 334a872..0fd02ca 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -22,9 +22,10 @@ class MGnCalc:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = self.N
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -184,22 +185,19 @@ class MGnCalc:
 
         # version 2
 
-        f1 = self.y[0] / self.mu[0] + self.y[1] / self.mu[1]
-        znam = self.n
-
-        for j in range(1, self.n):
-            prod1 = 1
-            for i in range(j):
-                prod1 = np.dot(prod1, self.x[i])
-            znam += np.dot((self.n - j), prod1)
+        if self.R is not None:
+            self.p[0] = 1.0 + 0.0j  # нормировка ниже
+        else:
+            f1 = self.y[0] / self.mu[0] + self.y[1] / self.mu[1]
+            znam = self.n
 
-        if self.R:
-            prod2 = 1
-            for i in range(0, self.N):
-                prod2 *= self.x[i]
-            znam -= f1 * self.l * prod2
+            for j in range(1, self.n):
+                prod1 = 1
+                for i in range(j):
+                    prod1 = np.dot(prod1, self.x[i])
+                znam += np.dot((self.n - j), prod1)
 
-        self.p[0] = (self.n - self.l * f1) / znam
+            self.p[0] = (self.n - self.l * f1) / znam
 
         summ_p = self.p[0]
 
@@ -241,7 +239,7 @@ class MGnCalc:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -272,6 +270,15 @@ class MGnCalc:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    # последний ярус системы с буфером: новые заявки не принимаются
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    full = self.D[j] - self.C[j] - self.l * np.eye(self.cols[j])
+                    tag = np.dot(tA, np.linalg.inv(full))
+                    self.z[j] = 1.0 / np.sum(tag)
+                    self.t[j] = self.z[j] * tag
+                    break
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -290,19 +297,8 @@ class MGnCalc:
 
                 self.x[j] = (1.0 + 0.0j) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             self.x[0] = (1.0 + 0.0j) / self.z[1]
 
-- 
2.43.0


From 2ea1da84b563baac4f5c2931f9656829195dee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:37 +0000
Subject: [PATCH 057/105] fix: MGnCalc.get_w counted the refused jobs of a
 finite buffer in the mean wait

---
 most_queue/theory/mgn_tt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 0fd02ca..528bac5 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -96,8 +96,13 @@ class MGnCalc:
         for j in range(3, len(self.p) - self.n):
             w[2] += j * (j - 1) * (j - 2) * self.p[self.n + j]
 
+        # интенсивность принятых заявок
+        l = self.l
+        if self.R is not None:
+            l = self.l * (1.0 - self.p[self.R])
+
         for j in range(3):
-            w[j] /= math.pow(self.l, j + 1)
+            w[j] /= np.power(l, j + 1)
             w[j] = w[j].real
 
         return w
-- 
2.43.0


From 51835e0f9d4ab0ba2b6fb06d6b36262e92787975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:11 +0000
Subject: [PATCH 058/105] fix: MGnCalc.run stopped while the state
 probabilities were still changing

---
 most_queue/theory/mgn_tt.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 528bac5..892ba49 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -167,6 +167,13 @@ class MGnCalc:
                 sum += self.p[i]
             print("Summ of probs = {0:.5f}".format(sum))
 
+    def calc_p_by_x(self):
+        """
+        Вероятности состояний для текущих значений x
+        """
+        p = np.cumprod([1.0] + [self.x[j] for j in range(self.N - 1)])
+        return p / np.sum(p)
+
     def calculate_p(self):
         """
         После окончания итераций находим значения вероятностей p по найденным х
@@ -258,19 +265,16 @@ class MGnCalc:
         """
         self.b1[0][0, 0] = 0.0 + 0.0j
         self.b2[0][0, 0] = 0.0 + 0.0j
-        x_max1 = 0.0 + 0.0j
-        x_max2 = 0.0 + 0.0j
 
         self.calc_support_matrices()
 
 
         self.num_of_iter_ = 0  # кол-во итераций алгоритма
-        for i in range(self.N):
-            if self.x[i].real > x_max1.real:
-                x_max1 = self.x[i]
+        # одного максимального x для остановки мало: остальные могут еще меняться
+        p_old = self.calc_p_by_x()
+        delta = math.inf
 
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        while delta >= self.e1:
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -311,11 +315,9 @@ class MGnCalc:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], self.G[0])
 
-            x_max1 = 0.0 + 0.0j
-
-            for i in range(self.N):
-                if self.x[i].real > x_max1.real:
-                    x_max1 = self.x[i]
+            p_new = self.calc_p_by_x()
+            delta = np.max(np.abs(p_new - p_old))
+            p_old = p_new
 
             if self.verbose:
                 print("End iter # {0:d}".format(self.num_of_iter_))
-- 
2.43.0


From 961a71ea5f1415aa66e050236907e875230d0520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:23 +0000
Subject: [PATCH 059/105] fix: solvers with warm-up and cooling stopped while
 the state probabilities were still changing

---
 most_queue/theory/m_h2_h2warm.py              | 31 ++++++++---------
 .../theory/mgn_with_h2_delay_cold_warm.py     | 31 ++++++++---------
 .../theory/mmn_with_h2_cold_and_h2_warmup.py  | 33 +++++++++----------
 3 files changed, 43 insertions(+), 52 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 366db25..83c05eb 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -302,6 +302,13 @@ class Mh2h2Warm:
                 summ += self.p[i]
             print("Summ of probs = {0:.5f}".format(summ))
 
+    def calc_p_by_x(self):
+        """
+        Вероятности состояний для текущих значений x
+        """
+        p = np.cumprod([1.0] + [self.x[j] for j in range(self.N - 1)])
+        return p / np.sum(p)
+
     def calculate_p(self):
         """
         После окончания итераций находим значения вероятностей p по найденным х
@@ -370,23 +377,18 @@ class Mh2h2Warm:
         if self.dt == 'c16':
             self.b1[0][0, 0] = 0.0 + 0.0j
             self.b2[0][0, 0] = 0.0 + 0.0j
-            x_max1 = 0.0 + 0.0j
-            x_max2 = 0.0 + 0.0j
         else:
             self.b1[0][0, 0] = 0.0
             self.b2[0][0, 0] = 0.0
-            x_max1 = 0.0
-            x_max2 = 0.0
 
         self.calc_support_matrices()
 
         self.num_of_iter_ = 0  # кол-во итераций алгоритма
-        for i in range(self.N):
-            if self.x[i].real > x_max1.real:
-                x_max1 = self.x[i]
+        # одного максимального x для остановки мало: остальные могут еще меняться
+        p_old = self.calc_p_by_x()
+        delta = math.inf
 
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        while delta >= self.e1:
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -438,14 +440,9 @@ class Mh2h2Warm:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], self.G[0])
 
-            if self.dt == 'c16':
-                x_max1 = 0.0 + 0.0j
-            else:
-                x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i].real > x_max1.real:
-                    x_max1 = self.x[i]
+            p_new = self.calc_p_by_x()
+            delta = np.max(np.abs(p_new - p_old))
+            p_old = p_new
 
             if self.verbose:
                 print("End iter # {0:d}".format(self.num_of_iter_))
diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index af5dc87..72ed7c2 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -389,6 +389,13 @@ class MGnH2ServingColdWarmDelay:
                 summ += self.p[i]
             print("Summ of probs = {0:.5f}".format(summ))
 
+    def calc_p_by_x(self):
+        """
+        Вероятности состояний для текущих значений x
+        """
+        p = np.cumprod([1.0] + [self.x[j] for j in range(self.N - 1)])
+        return p / np.sum(p)
+
     def calculate_p(self):
         """
         После окончания итераций находим значения вероятностей p по найденным х
@@ -457,23 +464,18 @@ class MGnH2ServingColdWarmDelay:
         if self.dt == 'c16':
             self.b1[0][0, 0] = 0.0 + 0.0j
             self.b2[0][0, 0] = 0.0 + 0.0j
-            x_max1 = 0.0 + 0.0j
-            x_max2 = 0.0 + 0.0j
         else:
             self.b1[0][0, 0] = 0.0
             self.b2[0][0, 0] = 0.0
-            x_max1 = 0.0
-            x_max2 = 0.0
 
         self.calc_support_matrices()
 
         self.num_of_iter_ = 0  # кол-во итераций алгоритма
-        for i in range(self.N):
-            if self.x[i].real > x_max1.real:
-                x_max1 = self.x[i]
+        # одного максимального x для остановки мало: остальные могут еще меняться
+        p_old = self.calc_p_by_x()
+        delta = math.inf
 
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        while delta >= self.e1:
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -525,14 +527,9 @@ class MGnH2ServingColdWarmDelay:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], self.G[0])
 
-            if self.dt == 'c16':
-                x_max1 = 0.0 + 0.0j
-            else:
-                x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i].real > x_max1.real:
-                    x_max1 = self.x[i]
+            p_new = self.calc_p_by_x()
+            delta = np.max(np.abs(p_new - p_old))
+            p_old = p_new
 
             if self.verbose:
                 print("End iter # {0:d}".format(self.num_of_iter_))
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index 758b12b..4f1f1bf 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -273,6 +273,13 @@ class MMn_H2warm_H2cold:
                 summ += self.p[i]
             print("Summ of probs = {0:.5f}".format(summ))
 
+    def calc_p_by_x(self):
+        """
+        Вероятности состояний для текущих значений x
+        """
+        p = np.cumprod([1.0] + [self.x[j] for j in range(self.N - 1)])
+        return p / np.sum(p)
+
     def calculate_p(self):
         """
         После окончания итераций находим значения вероятностей p по найденным х
@@ -344,23 +351,18 @@ class MMn_H2warm_H2cold:
         if self.dt == 'c16':
             self.b1[0][0, 0] = 0.0 + 0.0j
             self.b2[0][0, 0] = 0.0 + 0.0j
-            x_max1 = 0.0 + 0.0j
-            x_max2 = 0.0 + 0.0j
         else:
             self.b1[0][0, 0] = 0.0
             self.b2[0][0, 0] = 0.0
-            x_max1 = 0.0
-            x_max2 = 0.0
 
         self.calc_support_matrices()
 
         self.num_of_iter_ = 0  # кол-во итераций алгоритма
-        for i in range(self.N):
-            if self.x[i].real > x_max1.real:
-                x_max1 = self.x[i]
+        # одного максимального x для остановки мало: остальные могут еще меняться
+        p_old = self.calc_p_by_x()
+        delta = math.inf
 
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        while delta >= self.e1:
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -412,17 +414,12 @@ class MMn_H2warm_H2cold:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], self.G[0])
 
-            if self.dt == 'c16':
-                x_max1 = 0.0 + 0.0j
-            else:
-                x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i].real > x_max1.real:
-                    x_max1 = self.x[i]
+            p_new = self.calc_p_by_x()
+            delta = np.max(np.abs(p_new - p_old))
+            p_old = p_new
 
             if self.verbose:
-                print(f"End iter # {self.num_of_iter_:d}, x_max: {x_max1}")
+                print(f"End iter # {self.num_of_iter_:d}, delta: {delta}")
 
         self.calculate_p()
         self.calculate_y()
-- 
2.43.0


From 321704015a3778996fa201a5e8fdbc107e1cffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 060/105] fix: Mh2h2Warm.get_w missed the warm-up of the first
 job and the queue ahead

---
 most_queue/theory/m_h2_h2warm.py | 33 ++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 83c05eb..51574b8 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -178,37 +178,42 @@ class Mh2h2Warm:
         # вероятности попадания в состояния обслуживания, вычисляются с помощью биноминального распределения
         probs = calc_binom_probs(self.n + 1, self.y[0])
 
+        # Если заявка застала систему выключенной, ей придется подождать весь разогрев
+        for i in range(2):
+            w += self.Y[0][0, 0] * self.y_w[i] * self.pls(self.mu_w[i], s)
+
         # Если заявка попала в фазу разогрева, хотя каналы свободны,
         # ей придется подождать окончание разогрева
         for k in range(1, self.n):
             for i in range(2):
                 w += self.Y[k][0, i] * self.pls(self.mu_w[i], s)
 
-        for k in range(self.n, self.N):
+        key_numbers = self.get_key_numbers(self.n)  # ключи яруса n, для n=3 [(3,0) (2,1) (1,2) (0,3)]
 
-            # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
-            # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
-            key_numbers = self.get_key_numbers(self.n)  # ключи яруса n, для n=3 [(3,0) (2,1) (1,2) (0,3)]
+        a = np.array(
+            [self.pls(key_numbers[j][0] * self.mu[0] + key_numbers[j][1] * self.mu[1], s) for j in
+             range(self.n + 1)])
 
-            a = np.array(
-                [self.pls(key_numbers[j][0] * self.mu[0] + key_numbers[j][1] * self.mu[1], s) for j in
-                 range(self.n + 1)])
+        P = self.calc_down_probs(self.n + 1)
 
-            P = self.calc_down_probs(k)
-            Pa = np.transpose(self.matrix_pow(P * a, k - self.n))  # n+1 x n+1
+        # waits_service[i] - ожидание заявки, заставшей i-й ключ на ярусе k
+        waits_service = a
 
-            aP_tilda = a * probs
+        for k in range(self.n, self.N):
+
+            # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
+            # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
+            if k > self.n:
+                waits_service = a * np.dot(P, waits_service)
 
-            pls_service_total = sum(np.dot(aP_tilda, Pa))
+            pls_service_total = np.dot(waits_service, probs)
 
             for i in range(2):
                 w += self.Y[k][0, i] * self.pls(self.mu_w[i], s) * pls_service_total
 
             # попала в фазу обслуживания
-            Ys = [self.Y[k][0, i + 2] for i in range(len(probs))]
-            aPa = np.dot(a, Pa)
             for i in range(self.n + 1):
-                w += Ys[i] * aPa[i]
+                w += self.Y[k][0, i + 2] * waits_service[i]
 
         return w
 
-- 
2.43.0


From f1edd4970a4e9ebc8baa44ddc3533bea6b99cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 061/105] fix: Mh2h2Warm.get_v ignored the warm-up of the first
 job with is_only_first

---
 most_queue/theory/m_h2_h2warm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 51574b8..05a212e 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -258,6 +258,12 @@ class Mh2h2Warm:
         v[1] = w[1] + 2 * w[0] * b[0] + b[1]
         v[2] = w[2] + 3 * w[1] * b[0] + 3 * w[0] * b[1] + b[2]
 
+        if self.is_only_first:
+            # заявка, заставшая систему пустой, не ждет, но обслуживается с разогревом
+            p0 = self.p[0].real
+            for i in range(3):
+                v[i] += p0 * (self.b_warm[i] - b[i])
+
         return v
 
     def print_mrx(self, mrx):
-- 
2.43.0


From f0823459f6a5a85e221c3843ac0041520cf8ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 062/105] fix: MMn_H2warm_H2cold.get_w differentiated with a
 step of the wrong dimension

---
 most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index 4f1f1bf..aef2c3c 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -177,7 +177,7 @@ class MMn_H2warm_H2cold:
 
         for i in range(3):
             min_mu = min(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'), [self.mu]))
-            w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 / min_mu, n=i + 1, order=9)
+            w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 * min_mu, n=i + 1, order=9)
         return [-w[0], w[1], -w[2]]
 
     def get_b(self):
-- 
2.43.0


From 49394cf61f34ebd24dde6334e3bb9382907fa942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 063/105] fix: MGnH2ServingColdWarmDelay.get_w with
 stable_w_pls differentiated with a step of the wrong dimension

---
 most_queue/theory/mgn_with_h2_delay_cold_warm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index 72ed7c2..a1e4ff5 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -306,10 +306,10 @@ class MGnH2ServingColdWarmDelay:
 
         for i in range(3):
             if self.stable_w_pls:
-                max_mu = np.max(list(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'),
-                                   np.array(self.mu).astype('float'))))
+                min_mu = min(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'),
+                                   np.array(self.mu).astype('float')))
 
-                dx = self.w_pls_dt / max_mu
+                dx = self.w_pls_dt * min_mu
             else:
                 dx = self.w_pls_dt
             w[i] = derivative(self.calc_w_pls, 0, dx=dx, n=i + 1, order=9)
-- 
2.43.0


From 5099c473ddcc0229bc9fd68b986a6782baec4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 064/105] fix: ppnz_calc crashed on five moments

---
 most_queue/theory/priority_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3f9813d..5d905f2 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -89,7 +89,7 @@ def ppnz_calc(l, b, num=5):
         pnz.append(chisl / (1 - ro))
     if num > 4:
         chisl = b[4] * math.pow(z, 5) + 10 * b[3] * l * pnz[1] * math.pow(z, 3) + \
-                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2 * z * z]) + b[1] * (
+                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) + b[1] * (
                         5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2])
         pnz.append(chisl / (1 - ro))
 
-- 
2.43.0


From 621af1c21f54b5d78ed0253fe17093afa30c0230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 065/105] fix: ppnz_calc_warm_up multiplied unrelated terms in
 the fifth moment

---
 most_queue/theory/priority_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 5d905f2..e226647 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -148,8 +148,8 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
                            + 6 * f[2] * l * pnz[1] * z * z + f[3] * math.pow(z, 4))
     if num > 4:
         pnz_warm_up.append(f[0] * l * pnz[4] + f[1] * (5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2]) +
-                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[
-            4] * math.pow(z, 5)))
+                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) +
+                           10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[4] * math.pow(z, 5))
 
     return pnz_warm_up
 
-- 
2.43.0


From 2d5d34b263786006ac9f644209034d09a3fc8cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 066/105] fix: climov_w_pr_calc returned wrong second moments
 of the wait

---
 most_queue/theory/priority_calc.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index e226647..1444922 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -113,15 +113,13 @@ def climov_w_pr_calc(l, b):
         w.append([0.0] * 2)
         if k != 0:
             w[k][0] = ro_k_j[k][1] / (2 * ro_k[k - 1] * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + (ro_k_j[k][2]) / (
-                    2 * math.pow(ro_k[k], 2)) + \
-                      (ro_k_j[k][1]) / (2 * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 2) * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (
+                    2 * math.pow(ro_k[k - 1], 2) * math.pow(ro_k[k], 2)) + \
+                      (ro_k_j[k][1] * ro_k_j[k - 1][1]) / (2 * math.pow(ro_k[k - 1], 3) * ro_k[k])
 
         else:
             w[k][0] = ro_k_j[k][1] / (2 * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 3) * ro_k[k]) + (ro_k_j[k][2] * ro_k_j[k - 1][1]) / (
-                    2 * math.pow(ro_k[k - 1], 2) * math.pow(ro_k[k], 2)) + \
-                      (ro_k_j[k][1] * ro_k_j[k - 1][1]) / (2 * math.pow(ro_k[k - 1], 3) * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (2 * math.pow(ro_k[k], 2))
 
     return w
 
-- 
2.43.0


From 96d18dc4df50812b7a6c836d3eb5bad457126e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 067/105] fix: calc_pr1 used the wrong moments of the wait of
 the first class in its own recursion

---
 most_queue/theory/priority_calc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 1444922..c19ae3e 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -188,7 +188,8 @@ def calc_pr1(l, b, num=3):
     for i in range(num):
         summ = b[0][i + 1] / (i + 2)
         for s in range(1, i + 1):
-            summ += b[0][i + 1 - s] * w[0][s] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
+            summ += b[0][i + 1 - s] * w[0][s - 1] * math.factorial(i + 1) / (
+                    math.factorial(s) * math.factorial(i + 2 - s))
         w[0][i] = summ * l[0] / (1 - l[0] * b[0][0])
 
     v.append([0.0] * num)
-- 
2.43.0


From 86889896159c764cdb27cb51f2d92d55d7274ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 068/105] fix: calc_pr1 took the interruptions of a job as
 independent of its service time

---
 most_queue/theory/priority_calc.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index c19ae3e..abf01c2 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -246,10 +246,19 @@ def calc_pr1(l, b, num=3):
     w_with_pr = []
     for j in range(num_of_cl):
         w_with_pr.append([0.0] * 3)
-        w_with_pr[j][0] = v[j][0] - b[j][0]
-        w_with_pr[j][1] = v[j][1] - 2 * w_with_pr[j][0] * b[j][0] - b[j][1]
+        # прерывания: их число зависит от длительности обслуживания,
+        # поэтому вычитать моменты обслуживания из моментов пребывания нельзя
+        if j == 0:
+            y = [0.0] * 3
+        else:
+            lp = [L[j - 1] * pi_j[j - 1][m] for m in range(num)]
+            y = [lp[0] * b[j][0], lp[1] * b[j][0] + math.pow(lp[0], 2) * b[j][1]]
+            if num > 2:
+                y.append(lp[2] * b[j][0] + 3 * lp[0] * lp[1] * b[j][1] + math.pow(lp[0], 3) * b[j][2])
+        w_with_pr[j][0] = w[j][0] + y[0]
+        w_with_pr[j][1] = w[j][1] + 2 * w[j][0] * y[0] + y[1]
         if num > 2:
-            w_with_pr[j][2] = v[j][2] - 3 * w_with_pr[j][1] * b[j][0] - 3 * w_with_pr[j][0] * b[j][1] - b[j][2]
+            w_with_pr[j][2] = w[j][2] + 3 * w[j][1] * y[0] + 3 * w[j][0] * y[1] + y[2]
     res['w_with_pr'] = w_with_pr
     res['pnz'] = pi_j
 
-- 
2.43.0


From 3e315c4fce67880d3d46e01caa2be028e4f53841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 069/105] fix: get_w_np differentiated its transform with a
 step that made the moments noise

---
 most_queue/theory/priority_calc.py | 111 +++++++----------------------
 1 file changed, 26 insertions(+), 85 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index abf01c2..f3acccb 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -1,8 +1,5 @@
 import math
 
-from most_queue.rand_distribution import Gamma
-from most_queue.theory.utils.diff5dots import diff5dots
-
 from most_queue.theory.mg1_calc import get_p, get_w
 from most_queue.theory.mgn_tt import MGnCalc
 
@@ -340,97 +337,41 @@ def get_w_np(l, b, num=3):
     :param l: [] - список интенсивностей для каждого класса заявок
     :param b: [k][j] - список начальных моментов для каждого класса
     """
-    # a - lower pr
-    # j - the same
-    # e - higher pr
-
     num_of_cl = len(l)
     w = []
-    ro = 0
-    L = []
-    for i in range(num_of_cl):
-        ro += l[i] * b[i][0]
-        summ = 0
-        for s in range(i + 1):
-            summ += l[s]
-        L.append(summ)
 
     for j in range(num_of_cl):
-        w.append([])
-        w[j] = [0.0] * (len(b[j]) - 1)
-
-        la = 0
-        for i in range(j):
-            la += l[i]
-
-        lb = 0
-        for i in range(j + 1, num_of_cl):
-            lb += l[i]
-
-        b_i = b[j]
-        num_of_mom = len(b_i)
-
-        b_a = [0.0] * num_of_mom
-        for m in range(num_of_mom):
-            if j == 0:
-                b_a[m] = 0
-            else:
-                summ = 0
-                for i in range(j):
-                    summ += l[i] * b[i][m]
-                b_a[m] = summ / la
-
-        b_b = [0.0] * num_of_mom
-        for m in range(num_of_mom):
-            if j == num_of_cl - 1:
-                b_b[m] = 0
-            else:
-                summ = 0
-                for i in range(j + 1, num_of_cl):
-                    summ += l[i] * b[i][m]
-                b_b[m] = summ / lb
-
-        h = 0.0001
-        steps = 5
+        num_of_mom = min(num, len(b[j]) - 1)
 
-        if j != num_of_cl - 1:
-            b_b_param = Gamma.get_mu_alpha(b_b)
-        else:
-            b_b_param = 0
-
-        b_k_param = Gamma.get_mu_alpha(b[j])
-
-        nu_a_PNZ = ppnz_calc(la, b_a)
-
-        if j != 0:
-            nu_a_param = Gamma.get_mu_alpha(nu_a_PNZ)
-        else:
-            nu_a_param = 0
-
-        w_pls = []
-
-        for c in range(1, steps):
-            s = h * c
-
-            if j != 0:
-                nu_a = Gamma.get_pls(*nu_a_param, s)
-                summ = s + la - la * nu_a
-            else:
-                summ = s
-
-            chisl = (1 - ro) * summ
+        ro = 0  # загрузка заявками класса j и выше
+        for i in range(j + 1):
+            ro += l[i] * b[i][0]
 
-            if j != len(l) - 1:
-                chisl += lb * (1 - Gamma.get_pls(*b_b_param, summ))
+        # u - моменты работы, которую заявка застает перед собой: остаток обслуживания
+        # заявки младшего класса и вся работа классов не ниже j
+        u = [1.0]
+        for k in range(1, num_of_mom + 1):
+            summ = 0
+            for i in range(j + 1, num_of_cl):
+                summ += l[i] * b[i][k] / (k + 1)
+            for m in range(k):
+                for i in range(j + 1):
+                    summ += math.comb(k, m) * u[m] * l[i] * b[i][k - m] / (k - m + 1)
+            u.append(summ / (1 - ro))
+        u = u[1:]
 
-            znam = l[j] * Gamma.get_pls(*b_k_param, summ) - l[j] + s
+        if j == 0:
+            w.append(u)
+            continue
 
-            w_pls.append(chisl / znam)
+        # за это время приходят заявки старших классов
+        la = sum(l[:j])
+        b_a = [0.0] * len(b[j])
+        for m in range(len(b[j])):
+            for i in range(j):
+                b_a[m] += l[i] * b[i][m] / la
 
-            w[j] = diff5dots(w_pls, h)
-            w[j][0] = -w[j][0]
-            if len(b[j]) > 2:
-                w[j][2] = -w[j][2]
+        w.append(ppnz_calc_warm_up(la, u, ppnz_calc(la, b_a), num_of_mom))
 
     return w
 
-- 
2.43.0


From 59c65930252fb3a08a9966838e2d8681e6c4d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 070/105] fix: priority_calc mixed the service moments of the
 classes without their rates

---
 most_queue/theory/priority_calc.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index f3acccb..f08ec5c 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -285,8 +285,8 @@ def get_w_mg1_bp(l, b):
     for i in range(num_of_moment):
         b_sr.append(0)
         for k in range(num_of_classes):
-            b_sr[i] += b[k][i]
-        b_sr[i] /= num_of_classes
+            b_sr[i] += l[k] * b[k][i]
+        b_sr[i] /= l_sum
 
     w_k = get_w(l_sum, b_sr)
 
@@ -415,13 +415,11 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
     # M/G/1 calculation:
 
     b_sr = [0.0] * j_num
-    l_sum = 0
+    l_sum = sum(l)
     for j in range(j_num):
         for k in range(k_num):
-            b_sr[j] += b1[k][j]
-        b_sr[j] /= k_num
-    for k in range(k_num):
-        l_sum += l[k]
+            b_sr[j] += l[k] * b1[k][j]
+        b_sr[j] /= l_sum
 
     p1 = get_p(l_sum, b_sr, N)
     q1 = 0
@@ -431,13 +429,10 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
     # M/G/n calculation:
 
     b_sr = [0.0] * j_num
-    l_sum = 0
     for j in range(j_num):
         for k in range(k_num):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= k_num
-    for k in range(k_num):
-        l_sum += l[k]
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt_n = MGnCalc(n, l_sum, b_sr)
     tt_n.run()
@@ -474,8 +469,8 @@ def get_w_MxGn_no_pr(l, b, n):
     for j in range(num_of_mom):
         b_sr.append(0)
         for k in range(len(b)):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= num_of_mom
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt = MGnCalc(n, l_sum, b_sr)
     tt.run()
-- 
2.43.0


From 3a0349c095e1a7836031c25e887b8ce4b54726e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:08 +0000
Subject: [PATCH 071/105] fix: calc_pr1 counted a class among the interruptions
 of its own wait

---
 most_queue/theory/priority_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index f08ec5c..d62d289 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -229,7 +229,7 @@ def calc_pr1(l, b, num=3):
             for m in range(i):
                 summ += w[j][m] * h[j][i - m] * math.factorial(i) / (math.factorial(m) * math.factorial(i + 1 - m))
 
-            w[j][i] = (c * L[j] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
+            w[j][i] = (c * L[j - 1] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
         w[j] = w[j][1:]
         v[j][0] = w[j][0] + h[j][0]
         v[j][1] = w[j][1] + 2 * w[j][0] * h[j][0] + h[j][1]
-- 
2.43.0


From 57f4b52446dc1a1ed64aa4d5550f00925b95d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 072/105] fix: calc_pr1 failed when given more service moments
 than needed

---
 most_queue/theory/priority_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index d62d289..3649bdd 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -176,7 +176,7 @@ def calc_pr1(l, b, num=3):
     v = []
     h = []
 
-    pi_j.append(ppnz_calc(l[0], b[0]))
+    pi_j.append(ppnz_calc(l[0], b[0], num + 1))
 
     # Формула Полячека - Хинчина. Заявки первого
     # класса не прерываются
@@ -199,7 +199,7 @@ def calc_pr1(l, b, num=3):
 
     for j in range(1, num_of_cl):
         pi_j.append([0.0] * (num + 1))
-        h.append(ppnz_calc_warm_up(L[j - 1], b[j], pi_j[j - 1]))
+        h.append(ppnz_calc_warm_up(L[j - 1], b[j], pi_j[j - 1], num + 1))
 
         pi_j_i.append([])
         for k in range(j + 1):
-- 
2.43.0


From b8fe3d3b0b6187b04c7c9793f7ab319b210c7207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:41 +0000
Subject: [PATCH 073/105] fix: getMaxMoments integrated on a fixed grid, right
 only for times near one, and zero delay gave zeros

---
 most_queue/theory/fj_calc.py | 88 ++++++++++--------------------------
 1 file changed, 25 insertions(+), 63 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 02f97ec..c287afc 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -1,6 +1,7 @@
 import math
 
 import numpy as np
+from scipy.integrate import quad
 
 from most_queue.general_utils.conv import get_moments, get_self_conv_moments
 from most_queue.rand_distribution import Erlang_dist, Gamma, H2_dist
@@ -39,53 +40,20 @@ def getMaxMoments(n, b, num=None):
     else:
         num = len(b)
 
-    f = [0] * num
     variance = b[1] - b[0] * b[0]
     coev = math.sqrt(variance) / b[0]
-    a_big = [1.37793470540E-1, 7.29454549503E-1, 1.808342901740E0,
-             3.401433697855E0, 5.552496140064E0, 8.330152746764E0,
-             1.1843785837900E1, 1.6279257831378E1, 2.1996585811981E1,
-             2.9920697012274E1]
-    g = [3.08441115765E-1, 4.01119929155E-1, 2.18068287612E-1,
-         6.20874560987E-2, 9.50151697518E-3, 7.53008388588E-4,
-         2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
-         9.91182721961E-13]
 
     if len(b) >= 3:
 
         if coev < 1:
             params = Erlang_dist.get_params(b)
+            return calc_moments_by_dfr(lambda t: dfr_Erl_Mult(params, t, n), b[0], num)
 
-            for j in range(10):
-                p = g[j] * dfr_Erl_Mult(params, a_big[j],
-                                        n) * math.exp(a_big[j])
-                f[0] += p
-                for i in range(1, num):
-                    p = p * a_big[j]
-                    f[i] += p
-        else:
-            params = H2_dist.get_params(b)
-
-            for j in range(10):
-                p = g[j] * dfr_H2_Mult(params, a_big[j],
-                                       n) * math.exp(a_big[j])
-                f[0] += p
-                for i in range(1, num):
-                    p = p * a_big[j]
-                    f[i] += p
-    else:
-        params = Gamma.get_mu_alpha(b)
-
-        for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j], n) * math.exp(a_big[j])
-            f[0] += p
-            for i in range(1, num):
-                p = p * a_big[j]
-                f[i] += p
+        params = H2_dist.get_params(b)
+        return calc_moments_by_dfr(lambda t: dfr_H2_Mult(params, t, n), b[0], num)
 
-    for i in range(num - 1):
-        f[i + 1] *= (i + 2)
-    return f
+    params = Gamma.get_mu_alpha(b)
+    return calc_moments_by_dfr(lambda t: dfr_Gamma_Mult(params, t, n), b[0], num)
 
 
 def getMaxMomentsDelta(n, b, num=3, delta=0):
@@ -96,35 +64,29 @@ def getMaxMomentsDelta(n, b, num=3, delta=0):
         :param num: число нач. моментов СВ
         :return: начальные моменты максимума СВ.
         """
-    f = [0] * num
-    a_big = [1.37793470540E-1, 7.29454549503E-1, 1.808342901740E0,
-             3.401433697855E0, 5.552496140064E0, 8.330152746764E0,
-             1.1843785837900E1, 1.6279257831378E1, 2.1996585811981E1,
-             2.9920697012274E1]
-    g = [3.08441115765E-1, 4.01119929155E-1, 2.18068287612E-1,
-         6.20874560987E-2, 9.50151697518E-3, 7.53008388588E-4,
-         2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
-         9.91182721961E-13]
-
-    if delta:
-        params = Gamma.get_mu_alpha(b)
-
-        for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j],
-                                      n, delta) * math.exp(a_big[j])
-            f[0] += p
-            for i in range(1, num):
-                p = p * a_big[j]
-                f[i] += p
-
-        for i in range(num - 1):
-            f[i + 1] *= (i + 2)
-
-    return f
+    params = Gamma.get_mu_alpha(b)
+    return calc_moments_by_dfr(lambda t: dfr_Gamma_Mult(params, t, n, delta), b[0], num)
 
 
 # вспомогательные функции:
 
+def calc_moments_by_dfr(dfr, scale, num):
+    """
+    Начальные моменты неотрицательной СВ по ее ДФР: интеграл k * t^(k-1) * dfr(t)
+    :param dfr: дополнительная функция распределения
+    :param scale: характерный размер СВ
+    :param num: число моментов
+    """
+    f = [0.0] * num
+    left, right = 0.0, scale
+    while dfr(left) > 1e-12:
+        for k in range(num):
+            f[k] += quad(lambda t: (k + 1) * math.pow(t, k) * dfr(t), left, right,
+                         epsabs=1e-10 * math.pow(right, k + 1))[0]
+        left, right = right, 2 * right
+    return f
+
+
 def dfr_H2_Mult(params, t, n, delta=None):
     res = 1.0
     if not delta:
-- 
2.43.0


From 8cd140ff6b002aa29f64aa55fc40c951f139c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:41 +0000
Subject: [PATCH 074/105] fix: get_v1_varma_nk returned negative times

---
 most_queue/theory/fj_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index c287afc..9a5d0f4 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -205,7 +205,7 @@ def get_v1_varma_nk(l, mu, n, k):
 
     for i in range(k, n + 1):
         summ += get_W(n, k, i) * (get_Hn(i) +
-                                  (get_V(i) - get_Hn(i) * ro)) / (l - mu)
+                                  (get_V(i) - get_Hn(i)) * ro) / (mu - l)
 
     return summ
 
-- 
2.43.0


From 3b428fcab3d8cccba9c4be34b3267f25fff47d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:41 +0000
Subject: [PATCH 075/105] fix: get_v_fj_invar_tt compared a queue with itself

---
 most_queue/theory/fj_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 9a5d0f4..414e14b 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -313,7 +313,7 @@ def get_v_fj_invar_tt(l, b, n):
 
     v1_fj2 = get_v1_fj2(l, 1.0 / b[0])
 
-    tt2 = MGnCalc(n, l, b2)
+    tt2 = MGnCalc(2, l, b2)
     tt2.run()
     w_tt2 = tt2.get_w()
 
@@ -326,7 +326,7 @@ def get_v_fj_invar_tt(l, b, n):
 
     ttn = MGnCalc(n, l, bn)
     ttn.run()
-    w_ttn = tt2.get_w()
+    w_ttn = ttn.get_w()
 
     for i in range(3):
         v.append(v1_fj2 * w_ttn[i] / w_tt2[i])
-- 
2.43.0


From 3cbbba511dfbb275cf98b32619f7a68dafe78a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 076/105] fix: get_v1_fj_invar_sj took n parts in the two-part
 reference queue

---
 most_queue/theory/fj_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 414e14b..8077dd9 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -284,7 +284,7 @@ def get_v1_fj_invar_sj(l, mu, n):
 
     v1_fj2 = get_v1_fj2(l, mu)
     b1_sjn = getMaxMoments(n, [1 / mu_n, 2 / pow(mu_n, 2), 6 / pow(mu_n, 3)])
-    b1_sj2 = getMaxMoments(n, [1 / mu2, 2 / pow(mu2, 2), 6 / pow(mu2, 3)])
+    b1_sj2 = getMaxMoments(2, [1 / mu2, 2 / pow(mu2, 2), 6 / pow(mu2, 3)])
 
     w_sjn = get_w(l, b1_sjn)
     w_sj2 = get_w(l, b1_sj2)
-- 
2.43.0


From 2099884e9085b86b31c14586042259c755e98716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 077/105] fix: network_prty_calc mixed up classes and their
 priorities in the nodes

---
 most_queue/theory/network_calc.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index d91ab1d..f092870 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -121,10 +121,10 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
     for m in range(nodes):
         b_order.append([])
         l_order.append([])
-        for k in range(k_num):
-            order = nodes_prty[m][k]
-            b_order[m].append(b[order][m])
-            l_order[m].append(intensities[order][m])
+        # nodes_prty[m][k] - приоритет k-го класса в узле m, здесь нужны классы в порядке приоритета
+        for k in np.argsort(nodes_prty[m]):
+            b_order[m].append(b[k][m])
+            l_order[m].append(intensities[k][m])
 
     res['v_node'] = []
     for i in range(nodes):
@@ -140,9 +140,8 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
             b_sr[j] /= k_num
 
         res['loads'][i] = l_sum * b_sr[0] / n[i]
-        res['v_node'].append(get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i]))
-        for k in range(k_num):
-            res['v_node'][i][nodes_prty[i][k]] = res['v_node'][i][k]
+        v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
+        res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
     h = 0.0001
     s = [0.0] * 4
-- 
2.43.0


From 983ebdeaf5ce6914e7ce682f59c9385555bae2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 078/105] fix: network_prty_calc averaged the service times of
 the classes without their rates in the loads

---
 most_queue/theory/network_calc.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index f092870..dae69da 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -128,18 +128,9 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
 
     res['v_node'] = []
     for i in range(nodes):
-        l_sum = 0
         for k in range(k_num):
-            l_sum += l_order[i][k]
+            res['loads'][i] += l_order[i][k] * b_order[i][k][0] / n[i]
 
-        b_sr = [0.0] * 4
-
-        for j in range(4):
-            for k in range(k_num):
-                b_sr[j] += b_order[i][k][j]
-            b_sr[j] /= k_num
-
-        res['loads'][i] = l_sum * b_sr[0] / n[i]
         v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
         res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
-- 
2.43.0


From 965faa9f776c6eb7c9906468e4e202c53232908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 079/105] fix: network_prty_calc differentiated its transform
 with a fixed step whatever the unit of time

---
 most_queue/theory/network_calc.py | 57 ++++++++-----------------------
 1 file changed, 14 insertions(+), 43 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index dae69da..444b6be 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -2,9 +2,7 @@ import math
 
 import numpy as np
 
-from most_queue.theory.utils.diff5dots import diff5dots
 from most_queue.theory.priority_calc import get_v_prty_invar
-from most_queue.rand_distribution import Gamma
 
 
 def balance_equation(L, R):
@@ -134,47 +132,20 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
         v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
         res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
-    h = 0.0001
-    s = [0.0] * 4
-    for i in range(4):
-        s[i] = h * (i + 1)
-
     for k in range(k_num):
-        I = np.zeros((nodes, nodes))
-        for i in range(nodes):
-            for j in range(nodes):
-                if i == j:
-                    I[i, j] = 1
-        N = np.zeros((nodes, nodes))
-        P = np.zeros((1, nodes))
-        for i in range(nodes):
-            P[0, i] = R[k][0, i]
-        T = np.zeros((nodes, 1))
-        for i in range(nodes):
-            T[i, 0] = R[k][i + 1, nodes]
-        Q = np.zeros((nodes, nodes))
-
-        for i in range(nodes):
-            for j in range(nodes):
-                Q[i, j] = R[k][i + 1, j]
-
-        gamma_mu_alpha = []
-        for i in range(nodes):
-            gamma_mu_alpha.append(Gamma.get_mu_alpha([res['v_node'][i][k][0], res['v_node'][i][k][1]]))
-
-        g_PLS = []
-        for i in range(4):
-            for j in range(nodes):
-                N[j, j] = Gamma.get_pls(*gamma_mu_alpha[j], s[i])
-            G = np.dot(N, Q)
-            FF = I - G
-            F = np.linalg.inv(FF)
-            F = np.dot(P, np.dot(F, np.dot(N, T)))
-            g_PLS.append(F[0, 0])
-
-        res['v'].append([])
-        res['v'][k] = diff5dots(g_PLS, h)
-        res['v'][k][0] = -res['v'][k][0]
-        res['v'][k][2] = -res['v'][k][2]
+        P = np.array([R[k][0, i] for i in range(nodes)])
+        Q = np.array([[R[k][i + 1, j] for j in range(nodes)] for i in range(nodes)])
+
+        v1, v2, v3 = (np.array([res['v_node'][i][k][m] for i in range(nodes)]) for m in range(3))
+
+        # моменты времени от прихода в узел до выхода из сети: пребывание в узле + остаток пути
+        I = np.eye(nodes)
+        u1 = np.linalg.solve(I - Q, v1)
+        q1 = np.dot(Q, u1)
+        u2 = np.linalg.solve(I - Q, v2 + 2 * v1 * q1)
+        q2 = np.dot(Q, u2)
+        u3 = np.linalg.solve(I - Q, v3 + 3 * v2 * q1 + 3 * v1 * q2)
+
+        res['v'].append([np.dot(P, u1), np.dot(P, u2), np.dot(P, u3)])
 
     return res
-- 
2.43.0


From 2a7b8da63af3c507b32b5f786b793b9a47e39ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 080/105] fix: priority_calc failed when the higher classes
 have no arrivals

---
 most_queue/theory/priority_calc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3649bdd..8fcf668 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -217,7 +217,7 @@ def calc_pr1(l, b, num=3):
             summ = 0
             for i in range(j + 1):
                 summ += l[i] * pi_j_i[j][i][moment]
-            pi_j[j][moment] = summ / L[j]
+            pi_j[j][moment] = summ / L[j] if L[j] > 0 else 0.0
 
         w.append([0.0] * (num + 1))
         w[j][0] = 1
@@ -366,6 +366,10 @@ def get_w_np(l, b, num=3):
 
         # за это время приходят заявки старших классов
         la = sum(l[:j])
+        if la == 0:
+            w.append(u)
+            continue
+
         b_a = [0.0] * len(b[j])
         for m in range(len(b[j])):
             for i in range(j):
@@ -395,6 +399,9 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
     for k in range(k_num):
         w.append([0.0] * num)
 
+    if sum(l) == 0:
+        return w
+
     # M*/G*/1 PRTY calculation:
     b1 = [] * k_num
     for k in range(k_num):
-- 
2.43.0


From ccb3a3c31ec936f4f73a0e8515e436a14d3a1f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 081/105] fix: H2_dist.get_params_clx replaced exponential and
 Erlang-2 laws by ones whose queues wait up to 15% less

---
 most_queue/rand_distribution.py | 42 ++++++++++-----------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index ec44916..634fa9f 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -273,40 +273,24 @@ class H2_dist:
         Метод подбора параметров H2 распределения по заданным начальным моментам.
         Допускает комплексные значения параметров при коэффициенте вариации <1
         ee - точность проверки близости распределения к E1 и E2
-        e - множитель моментов
-        e_percent - процент повышения множителя e
+        e, e_percent - не используются, оставлены для совместимости
         Возвращает список с параметрами [y1, mu1, mu2]
         """
 
         if is_fitting:
-            # проверка на близость распределения к экспоненциальному
-            coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-            if math.fabs(coev.real - 1.0) < ee:
-                if verbose:
-                    print("H2 is close to Exp. Multiply moments to (1+je), coev = {0:5.3f},"
-                          " e = {1:5.3f}.".format(coev, e))
-                f = []
-                for i in range(len(moments)):
-                    f.append(moments[i] * complex(1, (i + 1) * e))
-
-                return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
-                                              is_fitting=is_fitting)
-
+            # у экспоненциального распределения и распределения Эрланга 2-го порядка фазы совпадают.
+            # Берем близкое распределение с тем же средним и коэффициентом вариации, отличным на 2 * ee
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-
-            # проверка на близость распределения к Эрланга 2-го порядка
-            if math.fabs(coev.real - 1.0 / math.sqrt(2.0)) < ee:
-                if verbose:
-                    print("H2 is close to E2. Multiply moments to (1+je), coev = {0:5.3f},"
-                          " e = {1:5.3f}.".format(coev, e))
-                f = []
-                for i in range(len(moments)):
-                    # if i == 0:
-                    #     f.append(moments[0])
-                    # else:
-                    f.append(moments[i] * complex(1, (i + 1) * e))
-                return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
-                                              is_fitting=is_fitting)
+            for name, special in (('Exp', 1.0), ('E2', 1.0 / math.sqrt(2.0))):
+                if math.fabs(coev.real - special) < ee:
+                    cv2 = math.pow(special + (2 * ee if coev.real >= special else -2 * ee), 2)
+                    if verbose:
+                        print("H2 is close to {0:s}. Coev = {1:5.3f} replaced by {2:5.3f}.".format(
+                            name, coev, math.sqrt(cv2)))
+                    moments = [moments[0],
+                               pow(moments[0], 2) * (1.0 + cv2),
+                               pow(moments[0], 3) * (1.0 + cv2) * (1.0 + 2.0 * cv2)]
+                    break
 
         f = [0.0] * 3
         for i in range(3):
-- 
2.43.0


From 87e13ccfde67ec52452d3afeb3f249e6f24a4807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 082/105] fix: GI/M/n boundary equations at a removable
 singularity (n * (1 - w) equal to an integer, e.g. M/M/5 with load 0.6)

---
 most_queue/theory/gi_m_n_calc.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/gi_m_n_calc.py b/most_queue/theory/gi_m_n_calc.py
index 9c9bd75..a68f556 100755
--- a/most_queue/theory/gi_m_n_calc.py
+++ b/most_queue/theory/gi_m_n_calc.py
@@ -33,8 +33,8 @@ def get_pi(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
 
         A[k, n] = 0
         for i in range(n - k + 1):
-            A[k, n] += pow(-1, i) * math.factorial(n) * (get_b0(a, k + i, mu, approx_distr) - w) / (
-                    math.factorial(k) * math.factorial(i) * math.factorial(n - k - i) * (n * (1 - w) - (k + i)))
+            A[k, n] += pow(-1, i) * math.factorial(n) * get_b0_ratio(a, k + i, mu, n, w, approx_distr) / (
+                    math.factorial(k) * math.factorial(i) * math.factorial(n - k - i))
         A[k, n] = n * A[k, n]
         A[k, k] = A[k, k] - 1
     pi_to_n = np.linalg.solve(A, B)
@@ -68,6 +68,18 @@ def get_b0(a, j, mu, approx_distr="Gamma"):
     return 0
 
 
+def get_b0_ratio(a, j, mu, n, w, approx_distr="Gamma"):
+    """
+    (b0(j) - w) / (n * (1 - w) - j), where w = b0(n * (1 - w)). The limit at j = n * (1 - w) is minus derivative of b0
+    """
+    delta = n * (1 - w) - j
+    if math.fabs(delta) > 1e-3:
+        return (get_b0(a, j, mu, approx_distr) - w) / delta
+    h = 1e-4
+    mid = j + delta / 2
+    return (get_b0(a, mid - h, mu, approx_distr) - get_b0(a, mid + h, mu, approx_distr)) / (2 * h)
+
+
 def get_v(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
     w = get_w(a, mu, n, num, e, approx_distr)
     b = [1 / mu, 2 / pow(mu, 2), 6 / pow(mu, 3), 24 / pow(mu, 4)]
-- 
2.43.0


From 0e8a06eefab7f77305500280f1c0c1db6a669025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 083/105] fix: impatience_calc overflowed for systems with
 several hundred jobs (powers replaced by ratios)

---
 most_queue/theory/impatience_calc.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/most_queue/theory/impatience_calc.py b/most_queue/theory/impatience_calc.py
index 3a3771f..8b3260d 100755
--- a/most_queue/theory/impatience_calc.py
+++ b/most_queue/theory/impatience_calc.py
@@ -1,5 +1,3 @@
-import math
-
 """
 Расчет М/M/1 с экспоненциальным нетерпением
 """
@@ -15,15 +13,8 @@ def get_p0(l, mu, gamma, tol=1e-12):
 
     i = 1
     while elem_new > tol or elem_new >= elem_old:
-        chisl = math.pow(l, i)
-        znam = mu
-        j = 1
-        while j < i:
-            znam *= (mu + j * gamma)
-            j += 1
-
         elem_old = elem_new
-        elem_new = chisl / znam
+        elem_new *= l / (mu + (i - 1) * gamma)
         summ += elem_new
 
         i += 1
@@ -40,14 +31,7 @@ def get_p(l, mu, gamma, tol=1e-12, max_num=100000):
     ps.append(p0)
 
     for i in range(1, max_num):
-        chisl = math.pow(l, i)
-        znam = mu
-        j = 1
-        while j < i:
-            znam *= (mu + j * gamma)
-            j += 1
-
-        pi = p0 * chisl / znam
+        pi = ps[-1] * l / (mu + (i - 1) * gamma)
         ps.append(pi)
         if pi < tol and pi < ps[-2]:
             break
-- 
2.43.0


From 0e40470b814862400ca326fd41bcfd12d4ab23b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 084/105] fix: Engset overflowed for more than 170 sources

---
 most_queue/theory/engset_model.py | 35 ++++++++++++++-----------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/most_queue/theory/engset_model.py b/most_queue/theory/engset_model.py
index 121c4a3..9ab72d6 100755
--- a/most_queue/theory/engset_model.py
+++ b/most_queue/theory/engset_model.py
@@ -33,27 +33,23 @@ class Engset:
         """
         Вероятности состояний системы
         """
-        summ = 0
-        for i, mm in enumerate(self.m_i):
-            summ += mm * pow(self.ro, i)
-
-        ps = []
-        ps.append(1.0 / summ)
-
-        for i in range(1, self.m + 1):
-            ps.append(ps[0] * self.m_i[i] * pow(self.ro, i))
+        # m_i[i] * ro^i does not fit into float for large m, so the weights are scaled
+        ps = [1.0]
+        for i in range(self.m):
+            ps.append(ps[-1] * (self.m - i) * self.ro)
+            if ps[-1] > 1e100:
+                ps = [p * 1e-100 for p in ps]
 
-        return ps
+        summ = sum(ps)
+        return [p / summ for p in ps]
 
     def get_N(self):
         """
         Средние число заявок в системе
         """
-        p0 = self.get_p()[0]
         N = 0
-        for i, mm in enumerate(self.m_i):
-            N += i * mm * pow(self.ro, i)
-        N *= p0
+        for i, p in enumerate(self.get_p()):
+            N += i * p
 
         return N
 
@@ -94,15 +90,15 @@ class Engset:
         """
         Начальные моменты времени ожидания через дифф ПЛС
         """
-        p0 = self.get_p()[0]
+        ps = self.get_p()
         N = self.get_N()
 
         # derivatives of ws at zero
         w = [0.0] * 3
         for k in range(3):
             for i in range(1, self.m):
-                w[k] += pow(self.ro, i) * self.m_i[i + 1] * math.prod(range(i, i + k + 1))
-            w[k] *= p0 / ((self.m - N) * pow(self.mu, k + 1))
+                w[k] += ps[i + 1] / self.ro * math.prod(range(i, i + k + 1))
+            w[k] /= (self.m - N) * pow(self.mu, k + 1)
 
         return w
 
@@ -111,10 +107,11 @@ class Engset:
         ПЛС времени ожидания
         """
         summ = 0
+        ps = self.get_p()  # p0 may be too small for float
         for i in range(self.m):
-            summ += pow(self.lam, i) * self.m_i[i + 1] / pow(self.mu + s, i)
+            summ += ps[i + 1] / self.ro * pow(self.mu / (self.mu + s), i)
 
-        return summ * p0 / (self.m - N)
+        return summ / (self.m - N)
 
     def get_v(self):
         """
-- 
2.43.0


From ff6d4b0d23d230f48b1637a162567b3e3900251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 085/105] fix: passage times stop iterating when every element
 has settled relatively, whatever the time unit

---
 most_queue/theory/utils/passage_time.py | 70 +++++++++++--------------
 1 file changed, 30 insertions(+), 40 deletions(-)

diff --git a/most_queue/theory/utils/passage_time.py b/most_queue/theory/utils/passage_time.py
index 4060e3b..586148e 100755
--- a/most_queue/theory/utils/passage_time.py
+++ b/most_queue/theory/utils/passage_time.py
@@ -133,21 +133,25 @@ class passage_time_calc:
                                     dtype='complex64')  # присвоить первоначальное значение G = B не работает !!!
         else:
             self.G_l_tilda = np.eye(b_rows, b_cols)
-        max_elem = self.G_l_tilda.max()
-        max_elem_pr = 0
+        G_old = np.zeros_like(self.G_l_tilda)
 
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while self.is_changed(self.G_l_tilda, G_old):
+            G_old = self.G_l_tilda
             self.G_l_tilda = self.B[self.l_tilda] + np.dot(self.L[self.l_tilda], self.G_l_tilda) + \
                              np.dot(self.F[self.l_tilda], np.dot(self.G_l_tilda, self.G_l_tilda))
-            max_elem_pr = max_elem
-            max_elem = self.G_l_tilda.max()
             n_iter += 1
 
         if self.is_verbose:
             print("Количество итераций вычисления матрицы G_l_tilda = {0:d}".format(n_iter))
 
+    def is_changed(self, mrx, mrx_old):
+        """
+        Не установились ли еще элементы матрицы (относительно наибольшего из них)
+        """
+        return np.max(np.abs(mrx - mrx_old)) > self.e * np.max(np.abs(mrx))
+
     def norm_mrx(self, mrx, is_max=True):
         rows = mrx.shape[0]
         cols = mrx.shape[1]
@@ -184,15 +188,13 @@ class passage_time_calc:
         #     G1 = np.array(np.eye(B1.shape[0], B1.shape[1]))
 
         # вычисляем первый момент
-        max_elem = self.norm_mrx(G1)
-        max_elem_pr = 0
+        G1_old = np.zeros_like(G1)
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while self.is_changed(G1, G1_old):
+            G1_old = G1
             G1 = B1 + np.dot(L1, G) + np.dot(L, G1) + np.dot(F1, np.dot(G, G)) + np.dot(F, np.dot(G1, G)) \
                  + np.dot(F, np.dot(G, G1))
-            max_elem_pr = max_elem
-            max_elem = self.norm_mrx(G1)
             n_iter += 1
 
         if self.is_verbose:
@@ -214,18 +216,16 @@ class passage_time_calc:
         # else:
         #     G2 = np.array(np.eye(B2.shape[0], B2.shape[1]))
         #
-        max_elem = self.norm_mrx(G2)
-        max_elem_pr = 0
+        G2_old = np.zeros_like(G2)
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while self.is_changed(G2, G2_old):
+            G2_old = G2
             G2 = B2 + np.dot(L2, G) + 2 * np.dot(L1, G1) + np.dot(L, G2) \
                  + np.dot(F2, np.dot(G, G)) + \
                  2 * np.dot(F1, (np.dot(G1, G) + np.dot(G, G1))) \
                  + np.dot(F, (np.dot(G2, G) + 2 * np.dot(G1, G1) + np.dot(G, G2)))
 
-            max_elem_pr = max_elem
-            max_elem = self.norm_mrx(G2)
             n_iter += 1
 
         if self.is_verbose:
@@ -242,19 +242,17 @@ class passage_time_calc:
              3.0 * np.dot(F2, (np.dot(G1, G) + np.dot(G, G1))) + \
              3.0 * np.dot(F1, (np.dot(G2, G1) + 2 * np.dot(G1, G1) + np.dot(G, G2)))
 
-        max_elem = self.norm_mrx(G3)
-        max_elem_pr = 0
+        G3_old = np.zeros_like(G3)
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while self.is_changed(G3, G3_old):
+            G3_old = G3
             G3 = B3 + np.dot(L3, G) + 3 * np.dot(L2, G1) + 3 * np.dot(L1, G2) \
                  + np.dot(L, G3) + np.dot(F3, np.dot(G, G)) \
                  + 3 * np.dot(F2, (np.dot(G1, G) + np.dot(G, G1))) + \
                  3 * np.dot(F1, (np.dot(G2, G) + 2 * np.dot(G1, G1) + np.dot(G, G2))) \
                  + np.dot(F, (np.dot(G3, G) + 3 * np.dot(G2, G1) + 3 * np.dot(G1, G2) + np.dot(G, G3)))
 
-            max_elem_pr = max_elem
-            max_elem = self.norm_mrx(G3)
             n_iter += 1
 
         if self.is_verbose:
@@ -283,13 +281,11 @@ class passage_time_calc:
             # b_cols = B.shape[1]
             # G = (np.array(np.eye(b_rows, b_cols)) - L - F*G_plus_one).I()*B
 
-            max_elem = self.norm_mrx(G)
-            max_elem_pr = 0
+            G_old = np.zeros_like(G)
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while self.is_changed(G, G_old):
+                G_old = G
                 G = B + np.dot(L, G) + np.dot(F, np.dot(G_plus_one, G))
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G)
                 n_iter += 1
 
             if self.is_verbose:
@@ -325,14 +321,12 @@ class passage_time_calc:
             #     else:
             #         G1 = np.array(np.eye(B1.shape[0], B1.shape[1]))
 
-            max_elem = self.norm_mrx(G1)
-            max_elem_pr = 0
+            G1_old = np.zeros_like(G1)
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while self.is_changed(G1, G1_old):
+                G1_old = G1
                 G1 = B1 + np.dot(L1, G) + np.dot(L, G1) + np.dot(F1, np.dot(Gplus_one, G)) \
                      + np.dot(F, np.dot(G1plus_one, G)) + np.dot(F, np.dot(Gplus_one, G1))
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G1)
                 n_iter += 1
             self.Gr[self.l_tilda - i - 1].append(G1)
 
@@ -348,16 +342,14 @@ class passage_time_calc:
             G2 = B2 + np.dot(L2, G) + 2 * np.dot(L1, G1) + np.dot(F2, np.dot(Gplus_one, G)) + \
                  2 * np.dot(F1, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1)))
 
-            max_elem = self.norm_mrx(G2)
-            max_elem_pr = 0
+            G2_old = np.zeros_like(G2)
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while self.is_changed(G2, G2_old):
+                G2_old = G2
                 G2 = B2 + np.dot(L2, G) + 2.0 * np.dot(L1, G1) + np.dot(L, G2) \
                      + np.dot(F2, np.dot(Gplus_one, G)) + 2.0 * np.dot(F1,
                                                                        (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
                      + np.dot(F, (np.dot(G2plus_one, G) + 2.0 * np.dot(G1plus_one, G1) + np.dot(Gplus_one, G2)))
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G2)
                 n_iter += 1
             self.Gr[self.l_tilda - i - 1].append(G2)
             if self.is_verbose:
@@ -374,10 +366,10 @@ class passage_time_calc:
                  + 3.0 * np.dot(F2, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
                  + 3.0 * np.dot(F1, (np.dot(G2plus_one, G) + 2.0 * np.dot(G1plus_one, G1) + np.dot(Gplus_one, G2)))
 
-            max_elem = self.norm_mrx(G3)
-            max_elem_pr = 0
+            G3_old = np.zeros_like(G3)
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while self.is_changed(G3, G3_old):
+                G3_old = G3
                 G3 = B3 + np.dot(L3, G) + 3.0 * np.dot(L2, G1) + 3.0 * np.dot(L1, G2) + np.dot(L, G3) \
                      + np.dot(F3, np.dot(Gplus_one, G)) \
                      + 3.0 * np.dot(F2, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
@@ -386,8 +378,6 @@ class passage_time_calc:
                             np.dot(G3plus_one, G) + 3 * np.dot(G2plus_one, G1) + 3.0 * np.dot(G1plus_one, G2) + np.dot(
                         Gplus_one, G3)))
 
-                max_elem_pr = max_elem
-                max_elem = self.norm_mrx(G3)
                 n_iter += 1
             self.Gr[self.l_tilda - i - 1].append(G3)
             if self.is_verbose:
-- 
2.43.0


From c3a02633089d7f9e98373ec01c35b09267ca0e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 086/105] fix: passage times are computed in double precision,
 also for integer and single-precision rates

---
 most_queue/theory/utils/passage_time.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/most_queue/theory/utils/passage_time.py b/most_queue/theory/utils/passage_time.py
index 586148e..9a38c9d 100755
--- a/most_queue/theory/utils/passage_time.py
+++ b/most_queue/theory/utils/passage_time.py
@@ -6,10 +6,10 @@ import numpy as np
 
 class passage_time_calc:
     def __init__(self, A, B, C, D, is_clx=True, is_verbose=False, l_tilda=None):
-        self.A_input = A
-        self.B_input = B
-        self.C_input = C
-        self.D_input = D
+        self.A_input = self.to_double(A)
+        self.B_input = self.to_double(B)
+        self.C_input = self.to_double(C)
+        self.D_input = self.to_double(D)
         if not l_tilda:
             self.l_tilda = len(D) - 1  # номер яруса, с которого все матрицы одинаковые
         else:
@@ -25,7 +25,7 @@ class passage_time_calc:
         self.is_clx = is_clx
         n_l_max = D[self.l_tilda].shape[0]
         if is_clx:
-            self.G_l_tilda = np.zeros((n_l_max, n_l_max), dtype='complex64')
+            self.G_l_tilda = np.zeros((n_l_max, n_l_max), dtype='complex128')
         else:
             self.G_l_tilda = np.zeros((n_l_max, n_l_max))
         self.Gr_tilda = []
@@ -33,6 +33,10 @@ class passage_time_calc:
         self.Z = []
         self.is_verbose = is_verbose
 
+    @staticmethod
+    def to_double(matrices):
+        return [np.array(mrx, dtype=np.result_type(mrx, float)) for mrx in matrices]
+
     def calc(self):
         self.calc_FBL_matrices()
         self.G_tilda_calc()
@@ -130,7 +134,7 @@ class passage_time_calc:
         b_cols = self.B[self.l_tilda].shape[1]
         if self.is_clx:
             self.G_l_tilda = np.eye(b_rows, b_cols,
-                                    dtype='complex64')  # присвоить первоначальное значение G = B не работает !!!
+                                    dtype='complex128')  # присвоить первоначальное значение G = B не работает !!!
         else:
             self.G_l_tilda = np.eye(b_rows, b_cols)
         G_old = np.zeros_like(self.G_l_tilda)
@@ -390,7 +394,7 @@ class passage_time_calc:
             self.Z.append([])
             for r in range(3):
                 if self.is_clx:
-                    self.Z[i].append(np.zeros((rows, cols), dtype='complex64'))
+                    self.Z[i].append(np.zeros((rows, cols), dtype='complex128'))
                 else:
                     self.Z[i].append(np.zeros((rows, cols)))
                 for j in range(rows):
@@ -409,7 +413,7 @@ class passage_time_calc:
         Z = []
         for r in range(3):
             if self.is_clx:
-                Z.append(np.zeros((rows, cols), dtype='complex64'))
+                Z.append(np.zeros((rows, cols), dtype='complex128'))
             else:
                 Z.append(np.zeros((rows, cols)))
             for j in range(rows):
-- 
2.43.0


From 952528d1f19f8ed9463b5ef37dece0165ddad477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 087/105] fix: second and third passage-time moments over
 several levels

---
 most_queue/theory/utils/passage_time.py | 87 +++----------------------
 1 file changed, 9 insertions(+), 78 deletions(-)

diff --git a/most_queue/theory/utils/passage_time.py b/most_queue/theory/utils/passage_time.py
index 9a38c9d..16ff966 100755
--- a/most_queue/theory/utils/passage_time.py
+++ b/most_queue/theory/utils/passage_time.py
@@ -474,84 +474,15 @@ class passage_time_calc:
             return -1
 
         for i in range(l_end + 2, l_start + 1):
-
-            # первый момент
-            Ggap_minus_one = self.G_gap_calc(i - 1, l_end)
-
-            # B1G-section
-
-            if i >= self.l_tilda:
-                B1G = np.dot(self.Br[self.l_tilda][0], Ggap_minus_one)
-            else:
-                B1G = np.dot(self.Br[i][0], Ggap_minus_one)
-
-            # BG1 section
-            if i >= self.l_tilda:
-                BG1 = np.dot(self.B[self.l_tilda], Gr_gap[0])
-            else:
-                BG1 = np.dot(self.B[i], Gr_gap[0])
-
-            # L1GG-section
-            if i >= self.l_tilda:
-                L1GG = np.dot(self.Lr[self.l_tilda][0], np.dot(self.G[self.l_tilda], Ggap_minus_one))
-            else:
-                L1GG = np.dot(self.Lr[i][0], np.dot(self.G[i], Ggap_minus_one))
-
-            # LG1G section
-            if i >= self.l_tilda:
-                LG1G = np.dot(self.L[self.l_tilda], np.dot(self.Gr[self.l_tilda][0], Ggap_minus_one))
-            else:
-                LG1G = np.dot(self.L[i], np.dot(self.Gr[i][0], Ggap_minus_one))
-
-            # LGG1 section
-            if i >= self.l_tilda:
-                LGG1 = np.dot(self.L[self.l_tilda], np.dot(self.G[self.l_tilda], Gr_gap[0]))
-            else:
-                LGG1 = np.dot(self.L[i], np.dot(self.G[i], Gr_gap[0]))
-
-            # F1GGG-section
-            if i >= self.l_tilda:
-                F1GGG = np.dot(self.Fr[self.l_tilda][0],
-                               np.dot(self.G[self.l_tilda], np.dot(self.G[self.l_tilda], Ggap_minus_one)))
-            elif i == self.l_tilda - 1:
-                F1GGG = np.dot(self.Fr[i][0], np.dot(self.G[self.l_tilda], np.dot(self.G[i], Ggap_minus_one)))
-            else:
-                F1GGG = np.dot(self.Fr[i][0], np.dot(self.G[i + 1], np.dot(self.G[i], Ggap_minus_one)))
-
-            # FG1GG-section
-            if i >= self.l_tilda:
-                FG1GG = np.dot(self.F[self.l_tilda],
-                               np.dot(self.Gr[self.l_tilda][0], np.dot(self.G[self.l_tilda], Ggap_minus_one)))
-            elif i == self.l_tilda - 1:
-                FG1GG = np.dot(self.F[i], np.dot(self.Gr[self.l_tilda][0], np.dot(self.G[i], Ggap_minus_one)))
-            else:
-                FG1GG = np.dot(self.F[i], np.dot(self.Gr[i + 1][0], np.dot(self.G[i], Ggap_minus_one)))
-
-            # FGG1G-section
-            if i >= self.l_tilda:
-                FGG1G = np.dot(self.F[self.l_tilda],
-                               np.dot(self.G[self.l_tilda], np.dot(self.Gr[self.l_tilda][0], Ggap_minus_one)))
-            elif i == self.l_tilda - 1:
-                FGG1G = np.dot(self.F[i], np.dot(self.G[self.l_tilda], np.dot(self.Gr[i][0], Ggap_minus_one)))
-            else:
-                FGG1G = np.dot(self.F[i], np.dot(self.G[i + 1], np.dot(self.Gr[i][0], Ggap_minus_one)))
-
-            # FGGG1-section
-            if i >= self.l_tilda:
-                FGGG1 = np.dot(self.F[self.l_tilda],
-                               np.dot(self.G[self.l_tilda], np.dot(self.G[self.l_tilda], Gr_gap[0])))
-            elif i == self.l_tilda - 1:
-                FGGG1 = np.dot(self.F[i], np.dot(self.G[self.l_tilda], np.dot(self.G[i], Gr_gap[0])))
-            else:
-                FGGG1 = np.dot(self.F[i], np.dot(self.G[i + 1], np.dot(self.G[i], Gr_gap[0])))
-
-            Gr_gap[0] = B1G + BG1 + L1GG + LG1G + LGG1 + F1GGG + FG1GG + FGG1G + FGGG1
-            Gr_gap[1] = Gr_gap[0]
-            Gr_gap[2] = Gr_gap[0]
-            # while (abs(max_elem - max_elem_pr) > self.e):
-            #     Gr_gap[0] = B1G + BG1 + L1G + L*Gr_gap[0] + F1GG + FG1G + FG1*Gr_gap[0]
-            #     max_elem_pr = max_elem
-            #     max_elem = self.norm_mrx(Gr_gap[0])
+            # переход i -> l_end: независимые переходы i -> i - 1 и i - 1 -> l_end
+            l_i = min(i, self.l_tilda)
+            step = [self.G[l_i]] + self.Gr[l_i]
+            rest = [self.G_gap_calc(i - 1, l_end)] + Gr_gap
+            for r in range(3):
+                summ = 0
+                for k in range(r + 2):
+                    summ = summ + math.comb(r + 1, k) * np.dot(step[k], rest[r + 1 - k])
+                Gr_gap[r] = summ
 
         return Gr_gap
 
-- 
2.43.0


From 1b4f801b7c3a3a10b1aa6ce6710cf94bd483e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 088/105] fix: events that never happen are at infinity in the
 simulators, so that long time scales work

---
 most_queue/sim/fj_delta_sim.py            |  6 ++++--
 most_queue/sim/fj_sim.py                  |  2 +-
 most_queue/sim/impatient_queue_sim.py     |  8 +++++---
 most_queue/sim/priority_network.py        |  4 ++--
 most_queue/sim/priority_queue_sim.py      | 12 ++++++------
 most_queue/sim/qs_sim.py                  |  4 ++--
 most_queue/sim/queue_finite_source_sim.py | 14 ++++++++------
 most_queue/sim/utils/phase.py             |  5 +++--
 most_queue/sim/utils/servers.py           |  6 ++++--
 9 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 68a3511..061ce77 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -1,6 +1,8 @@
 """
 ForkJoin Queue with delta
 """
+import math
+
 from most_queue.general_utils.conv import get_self_conv_moments
 from most_queue.rand_distribution import Gamma
 from most_queue.sim.fj_sim import ForkJoinSim
@@ -190,14 +192,14 @@ class ForkJoinSimDelta(ForkJoinSim):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = math.inf
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
                 serv_earl = self.servers[c].time_to_end_service
                 num_of_server_earlier = c
 
-        subtask_arr_time_earl = 1e10
+        subtask_arr_time_earl = math.inf
         num_of_subtask_earl = -1
 
         for c in range(len(self.subtask_arr_queue)):
diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index a0cb6f8..566942d 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -153,7 +153,7 @@ class ForkJoinSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = math.inf
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index 628b2b9..435898f 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -1,3 +1,5 @@
+import math
+
 from most_queue.sim.utils.distribution_utils import create_distribution
 from most_queue.sim.qs_sim import QueueingSystemSimulator, Task
 
@@ -114,7 +116,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = math.inf
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
@@ -122,7 +124,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                 num_of_server_earlier = c
 
         num_of_task_earlier = -1
-        moment_to_leave_earlier = 1e10
+        moment_to_leave_earlier = math.inf
         for i, tsk in enumerate(self.queue.queue):
             if tsk.moment_to_leave < moment_to_leave_earlier:
                 moment_to_leave_earlier = tsk.moment_to_leave
@@ -144,7 +146,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
     def __str__(self, is_short=False):
         super().__str__(is_short)
         num_of_task_earlier = -1
-        moment_to_leave_earlier = 1e10
+        moment_to_leave_earlier = math.inf
         for i, tsk in enumerate(self.queue.queue):
             if tsk.moment_to_leave < moment_to_leave_earlier:
                 moment_to_leave_earlier = tsk.moment_to_leave
diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 601ca4e..5fd5852 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -85,8 +85,8 @@ class PriorityNetwork:
         num_of_serv_ch_earlier = -1  # номер канала узла, мин время до окончания обслуживания
         num_of_k_earlier = -1  # номер класса, прибывающего через мин время
         num_of_node_earlier = -1  # номер узла, в котором раньше всех закончится обслуживание
-        arrival_earlier = 1e10  # момент прибытия ближайшего
-        serving_earlier = 1e10  # момент ближайшего обслуживания
+        arrival_earlier = math.inf  # момент прибытия ближайшего
+        serving_earlier = math.inf  # момент ближайшего обслуживания
 
         for k in range(self.k_num):
             if self.arrival_time[k] < arrival_earlier:
diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index cd14996..92bd22c 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -426,8 +426,8 @@ class PriorityQueueSimulator:
         self.queue[new_class] = buf
 
     def calc_time_to_next_event(self):
-        serv_earl = 1e10
-        arrival_earlier = 1e10
+        serv_earl = math.inf
+        arrival_earlier = math.inf
 
         for kk in range(self.k):
             if self.arrival_time[kk] < arrival_earlier:
@@ -448,10 +448,10 @@ class PriorityQueueSimulator:
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = math.inf
 
         k_earlier = -1
-        arrival_earlier = 1e10
+        arrival_earlier = math.inf
 
         for kk in range(self.k):
             if self.arrival_time[kk] < arrival_earlier:
@@ -664,7 +664,7 @@ class Server:
             self.dist.append(create_distribution(
                 params, dist_type, self.generator))
 
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = math.inf
         self.total_time_to_serve = 0
         # Сохранение типа дисциплины обслуживания необходимо для
         # корректного назначения времени обслуживания после прерывания
@@ -699,7 +699,7 @@ class Server:
         self.is_free = False
 
     def end_service(self):
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = math.inf
         self.is_free = True
         ts = self.tsk_on_service
         self.tsk_on_service = None
diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 720be49..8953444 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -256,7 +256,7 @@ class QueueingSystemSimulator:
                 if self.cold_delay_phase.is_start:
                     # The job was received before the end of the cooling start delay time
                     self.cold_delay_phase.is_start = False
-                    self.cold_delay_phase.end_time = 1e16
+                    self.cold_delay_phase.end_time = math.inf
                     self.cold_delay_phase.prob += self.ttek - self.cold_delay_phase.start_mom
                     self.send_task_to_channel()
                     return
@@ -405,7 +405,7 @@ class QueueingSystemSimulator:
         """
 
         num_of_server_earlier = -1
-        serv_earl = 1e16
+        serv_earl = math.inf
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 2ef283e..d813123 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -1,3 +1,5 @@
+import math
+
 from most_queue.sim.utils.distribution_utils import create_distribution
 from most_queue.sim.qs_sim import QueueingSystemSimulator, Task
 
@@ -69,7 +71,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.in_sys += 1
         self.ttek = self.arrival_times[self.arrived_num]
         self.t_old = self.ttek
-        self.arrival_times[self.arrived_num] = 1e10
+        self.arrival_times[self.arrived_num] = math.inf
 
         if self.free_channels == 0:
             if self.buffer == None:  # не задана длина очереди, т.е бесконечная очередь
@@ -123,7 +125,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.ttek = time_to_end
 
         for i, a in enumerate(self.arrival_times):
-            if a > 9.9e9:
+            if math.isinf(a):
                 self.arrival_times[i] = self.ttek + self.source.generate()
                 break
 
@@ -152,8 +154,8 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
     def calc_next_event_time(self):
 
-        serv_earl = 1e10
-        arr_earl = 1e10
+        serv_earl = math.inf
+        arr_earl = math.inf
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
@@ -171,8 +173,8 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
-        arr_earl = 1e10
+        serv_earl = math.inf
+        arr_earl = math.inf
         self.arrived_num = -1
 
         if self.sources_left != 0:
diff --git a/most_queue/sim/utils/phase.py b/most_queue/sim/utils/phase.py
index b5e4cf4..6e3f14a 100644
--- a/most_queue/sim/utils/phase.py
+++ b/most_queue/sim/utils/phase.py
@@ -1,6 +1,7 @@
 """
 Simulation period
 """
+import math
 
 
 class QsPhase:
@@ -18,7 +19,7 @@ class QsPhase:
         self.name = name
         self.is_set = False
         self.is_start = False
-        self.end_time = 1e16
+        self.end_time = math.inf
         self.prob = 0
         self.start_mom = 0
         self.starts_times = 0
@@ -53,7 +54,7 @@ class QsPhase:
         self.prob += ttek - self.start_mom
 
         self.is_start = False
-        self.end_time = 1e16
+        self.end_time = math.inf
 
     def get_prob(self, ttek):
         """
diff --git a/most_queue/sim/utils/servers.py b/most_queue/sim/utils/servers.py
index 848a8d4..88d94e6 100644
--- a/most_queue/sim/utils/servers.py
+++ b/most_queue/sim/utils/servers.py
@@ -1,6 +1,8 @@
 """
 QS channels or servers
 """
+import math
+
 from most_queue.general_utils.conv import get_moments
 from most_queue.rand_distribution import Cox_dist, Exp_dist, Gamma, H2_dist, Pareto_dist
 from most_queue.sim.utils.distribution_utils import create_distribution
@@ -20,7 +22,7 @@ class Server:
         types -  тип распределения
         """
         self.dist = create_distribution(params, types, generator)
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = math.inf
         self.is_free = True
         self.tsk_on_service = None
         Server.id += 1
@@ -55,7 +57,7 @@ class Server:
         """
         End service
         """
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = math.inf
         self.is_free = True
         ts = self.tsk_on_service
         self.tsk_on_service = None
-- 
2.43.0


From 3a88137b2d581f3262c1a336f79a3027ca4bbb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 089/105] fix: the derivative step of the delay, cooling and
 warm-up solver is relative to the service time

---
 most_queue/theory/mgn_with_h2_delay_cold_warm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index a1e4ff5..969f544 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -311,7 +311,8 @@ class MGnH2ServingColdWarmDelay:
 
                 dx = self.w_pls_dt * min_mu
             else:
-                dx = self.w_pls_dt
+                # шаг в единицах 1/b[0]
+                dx = self.w_pls_dt / self.b[0]
             w[i] = derivative(self.calc_w_pls, 0, dx=dx, n=i + 1, order=9)
 
         w = [w_moment.real if isinstance(w_moment, complex) else w_moment for w_moment in w]
-- 
2.43.0


From ef03415061018ed20244103368d4c485c2d882a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 090/105] fix: printing a finite-source simulator with fewer
 than nine sources failed

---
 most_queue/sim/queue_finite_source_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index d813123..27859b7 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -230,7 +230,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         if not is_short:
             res += "Stationary prob:\n"
             res += "\t"
-            for i in range(10):
+            for i in range(min(10, len(self.p))):
                 res += "{0:6.5f}".format(self.p[i] / self.ttek) + "   "
             res += "\n"
             res += "Arrived: " + str(self.arrived) + "\n"
-- 
2.43.0


From 4fc370432d1c91e5179ff6cf860d6d0706991ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 091/105] fix: Mmn3_pnz_cox did not serve the low class beside
 a single high class job

---
 most_queue/theory/mmn3_pnz_cox_approx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index 4f2909b..a2890b2 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -335,9 +335,10 @@ class Mmn3_pnz_cox:
             output = self.B[2]
             return output
 
-        # Матрица B - диагональная. Количество ненулевых элементов = 2. Остальные 13 - нулевые
+        # Матрица B - диагональная. Количество ненулевых элементов = 3. Остальные 12 - нулевые
         output[0, 0] = min(2, num) * self.mu_L
         output[1, 1] = self.mu_L
+        output[2, 2] = self.mu_L
 
         return output
 
-- 
2.43.0


From d5a7e77a961b83177b25c03f914f5c4f12e1a0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 092/105] fix: Mmn3_pnz_cox multiplied the busy-period moments
 by their probabilities twice

---
 most_queue/theory/mmn3_pnz_cox_approx.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index a2890b2..7150561 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -143,12 +143,12 @@ class Mmn3_pnz_cox:
         for j in range(6):
             self.busy_periods.append([0, 0, 0])
         for r in range(3):
-            self.busy_periods[0][r] = pass_time.Gr[2][r][3, 1]
-            self.busy_periods[1][r] = pass_time.Gr[2][r][3, 0]
-            self.busy_periods[2][r] = pass_time.Gr[2][r][2, 1]
-            self.busy_periods[3][r] = pass_time.Gr[2][r][2, 0]
-            self.busy_periods[4][r] = pass_time.Gr[2][r][0, 1]
-            self.busy_periods[5][r] = pass_time.Gr[2][r][0, 0]
+            self.busy_periods[0][r] = pass_time.Z[2][r][3, 1]
+            self.busy_periods[1][r] = pass_time.Z[2][r][3, 0]
+            self.busy_periods[2][r] = pass_time.Z[2][r][2, 1]
+            self.busy_periods[3][r] = pass_time.Z[2][r][2, 0]
+            self.busy_periods[4][r] = pass_time.Z[2][r][0, 1]
+            self.busy_periods[5][r] = pass_time.Z[2][r][0, 0]
 
         for j in range(6):
             coev = math.sqrt(self.busy_periods[j][1].real - pow(self.busy_periods[j][0].real, 2)) / \
@@ -156,7 +156,7 @@ class Mmn3_pnz_cox:
             self.busy_periods_coevs.append(coev.real)
 
         # pp - список из шести вероятностей p2mm, p2mh, phmm, phmh, p2hm, p2hh
-        # берем моменты Gr, поскольку моменты Z - условные, с учетом pp
+        # моменты Z - условные (при данном переходе), вероятности переходов учитываются в pp
         self.pp.append(pass_time.G[2][3, 1])
         self.pp.append(pass_time.G[2][3, 0])
         self.pp.append(pass_time.G[2][2, 1])
-- 
2.43.0


From fc50fd550e9a1d71b96a4213db2f5465e20ac3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 093/105] fix: priority solvers with busy periods stopped while
 the state probabilities were still changing

---
 most_queue/theory/m_ph_n_prty.py         | 46 ++++++++----------------
 most_queue/theory/mmn3_pnz_cox_approx.py | 26 +++++++-------
 most_queue/theory/mmn_prty_pnz_approx.py | 26 +++++++-------
 3 files changed, 42 insertions(+), 56 deletions(-)

diff --git a/most_queue/theory/m_ph_n_prty.py b/most_queue/theory/m_ph_n_prty.py
index 674e1c8..76c6fc1 100755
--- a/most_queue/theory/m_ph_n_prty.py
+++ b/most_queue/theory/m_ph_n_prty.py
@@ -293,6 +293,13 @@ class m_ph_n_prty:
                 self.t[i][0, j] = 1.0 / self.cols_length_
         self.x[0] = 0.4
 
+    def calc_p_by_x(self):
+        """
+        Вероятности состояний для текущих значений x
+        """
+        p = np.cumprod([1.0] + [self.x[j] for j in range(self.N - 1)])
+        return p / np.sum(p)
+
     def calculate_p(self):
         """
         После окончания итераций находим значения вероятностей p по найденным х
@@ -337,32 +344,17 @@ class m_ph_n_prty:
         """
         self.b1[0][0, 0] = 0.0 + 0.0j
         self.b2[0][0, 0] = 0.0 + 0.0j
-        
-        is_ave = False
-
-
 
         iter = 0
         self.run_iterations_num_ = 0
-        if is_ave:
-            x_ave1 = 0.0 + 0.0j
-            x_ave2 = 0.0 + 0.0j
-            for i in range(self.N):
-                x_ave1 += self.x[i]
-            x_ave1 /= self.N
-        else:
+        # одного максимального x для остановки мало: остальные могут еще меняться
+        p_old = self.calc_p_by_x()
+        delta = math.inf
 
-            x_ave1 = 0.0
-            x_ave2 = 0.0
-            for i in range(self.N):
-                if self.x[i].real > x_ave1 :
-                    x_ave1 = self.x[i].real
-
-        while math.fabs(x_ave2.real - x_ave1.real) >= self.e1 and iter < self.max_iter:
+        while delta >= self.e1 and iter < self.max_iter:
             if self.verbose:
                 print("Start numeric iteration {0:d}".format(iter))
             iter += 1
-            x_ave2 = x_ave1
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
                 G = np.linalg.inv(self.D[j] - self.C[j])
@@ -393,19 +385,9 @@ class m_ph_n_prty:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], np.linalg.inv(self.D[0] - self.C[0]))
 
-
-
-            if is_ave:
-                x_ave1 = 0.0 + 0.0j
-                for i in range(self.N):
-                    x_ave1 += self.x[i]
-                x_ave1 /= self.N
-
-            else:
-                x_ave1 = 0.0
-                for i in range(self.N):
-                    if self.x[i].real > x_ave1:
-                        x_ave1 = self.x[i].real
+            p_new = self.calc_p_by_x()
+            delta = np.max(np.abs(p_new - p_old))
+            p_old = p_new
 
         self.run_iterations_num_ = iter
         self.calculate_p()
diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index 7150561..a611280 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -194,6 +194,13 @@ class Mmn3_pnz_cox:
                 self.t[i][0, j] = 1.0 / self.cols[i]
         self.x[0] = 0.4
 
+    def calc_p_by_x(self):
+        """
+        Вероятности состояний для текущих значений x
+        """
+        p = np.cumprod([1.0] + [self.x[j] for j in range(self.N - 1)])
+        return p / np.sum(p)
+
     def calculate_p(self):
         """
         После окончания итераций находим значения вероятностей p по найденным х
@@ -234,14 +241,11 @@ class Mmn3_pnz_cox:
         """
         self.b1[0][0, 0] = 0
         self.b2[0][0, 0] = 0
-        x_max1 = 0
-        x_max2 = 0
         self.iter_num_ = 0
-        for i in range(self.N):
-            if self.x[i] > x_max1:
-                x_max1 = self.x[i]
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        # одного максимального x для остановки мало: остальные могут еще меняться
+        p_old = self.calc_p_by_x()
+        delta = math.inf
+        while delta >= self.e1:
             self.iter_num_ += 1
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
@@ -275,11 +279,9 @@ class Mmn3_pnz_cox:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], np.linalg.inv(self.D[0] - self.C[0]))
 
-            x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i] > x_max1:
-                    x_max1 = self.x[i]
+            p_new = self.calc_p_by_x()
+            delta = np.max(np.abs(p_new - p_old))
+            p_old = p_new
 
         self.calculate_p()
         self.calculate_y()
diff --git a/most_queue/theory/mmn_prty_pnz_approx.py b/most_queue/theory/mmn_prty_pnz_approx.py
index 4dece6b..4a92f1a 100755
--- a/most_queue/theory/mmn_prty_pnz_approx.py
+++ b/most_queue/theory/mmn_prty_pnz_approx.py
@@ -119,6 +119,13 @@ class MMn_PRTY_PNZ_Cox_approx:
                 self.t[i][0, j] = 1.0 / self.cols[i]
         self.x[0] = 0.4
 
+    def calc_p_by_x(self):
+        """
+        Вероятности состояний для текущих значений x
+        """
+        p = np.cumprod([1.0] + [self.x[j] for j in range(self.N - 1)])
+        return p / np.sum(p)
+
     def calculate_p(self):
         """
         После окончания итераций находим значения вероятностей p по найденным х
@@ -159,14 +166,11 @@ class MMn_PRTY_PNZ_Cox_approx:
         """
         self.b1[0][0, 0] = 0
         self.b2[0][0, 0] = 0
-        x_max1 = 0
-        x_max2 = 0
         self.n_iter_ = 0
-        for i in range(self.N):
-            if self.x[i] > x_max1:
-                x_max1 = self.x[i]
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        # одного максимального x для остановки мало: остальные могут еще меняться
+        p_old = self.calc_p_by_x()
+        delta = math.inf
+        while delta >= self.e1:
             self.n_iter_ += 1
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
@@ -198,11 +202,9 @@ class MMn_PRTY_PNZ_Cox_approx:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], np.linalg.inv(self.D[0] - self.C[0]))
 
-            x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i] > x_max1:
-                    x_max1 = self.x[i]
+            p_new = self.calc_p_by_x()
+            delta = np.max(np.abs(p_new - p_old))
+            p_old = p_new
 
         self.calculate_p()
         self.calculate_y()
-- 
2.43.0


From 94c7dc99148d7c1c73e503eb7609dc8fba5449bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 094/105] fix: set_warm of the batch, impatient and
 finite-source simulators did not reach the channels (AttributeError at the
 first arrival)

---
 most_queue/sim/qs_sim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 8953444..ad532ea 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -129,6 +129,8 @@ class QueueingSystemSimulator:
         """
         dist = create_distribution(params, kendall_notation, self.generator)
         self.warm_phase.set_dist(dist)
+        for server in self.servers:
+            server.warm_phase.set_dist(dist)
 
     def set_cold(self, params, kendall_notation):
         """
@@ -178,6 +180,10 @@ class QueueingSystemSimulator:
         self.servers = [Server(self.server_params, self.server_types,
                                generator=self.generator) for i in range(self.n)]
 
+        if self.warm_phase.is_set:
+            for server in self.servers:
+                server.warm_phase.set_dist(self.warm_phase.dist)
+
     def calc_load(self):
         """
         Calculates the load factor of the QS
-- 
2.43.0


From 5ee90f7d4776f83e0d354918e5c5b159121aa10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 095/105] fix: solvers with warm-up and cooling let arrivals in
 at the full state of a finite buffer, ignored buffer=0 and counted refused
 jobs in the wait

---
 most_queue/theory/m_h2_h2warm.py              | 46 +++++++++++--------
 .../theory/mgn_with_h2_delay_cold_warm.py     | 37 ++++++++-------
 .../theory/mmn_with_h2_cold_and_h2_warmup.py  | 37 ++++++++-------
 3 files changed, 68 insertions(+), 52 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 05a212e..8e663dc 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -27,9 +27,10 @@ class Mh2h2Warm:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = max(self.N, n + 2)  # матрицы нужны и для яруса с первым местом в очереди
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -199,7 +200,8 @@ class Mh2h2Warm:
         # waits_service[i] - ожидание заявки, заставшей i-й ключ на ярусе k
         waits_service = a
 
-        for k in range(self.n, self.N):
+        # в полную систему с буфером заявки не попадают
+        for k in range(self.n, self.N if self.R is None else self.R):
 
             # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
             # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
@@ -215,6 +217,9 @@ class Mh2h2Warm:
             for i in range(self.n + 1):
                 w += self.Y[k][0, i + 2] * waits_service[i]
 
+        if self.R is not None:
+            w = w / (1.0 - self.p[self.R])
+
         return w
 
     def calc_residual_b(self, mom_num):
@@ -236,8 +241,13 @@ class Mh2h2Warm:
             for j in range(3, len(self.p) - self.n):
                 w[2] += j * (j - 1) * (j - 2) * self.p[self.n + j]
 
+            # интенсивность принятых заявок
+            l = self.l
+            if self.R is not None:
+                l = self.l * (1.0 - self.p[self.R])
+
             for j in range(3):
-                w[j] /= math.pow(self.l, j + 1)
+                w[j] /= np.power(l, j + 1)
                 w[j] = w[j].real
 
             return w
@@ -261,6 +271,8 @@ class Mh2h2Warm:
         if self.is_only_first:
             # заявка, заставшая систему пустой, не ждет, но обслуживается с разогревом
             p0 = self.p[0].real
+            if self.R is not None:
+                p0 /= 1.0 - self.p[self.R].real
             for i in range(3):
                 v[i] += p0 * (self.b_warm[i] - b[i])
 
@@ -352,7 +364,7 @@ class Mh2h2Warm:
         """
         Формирует матрицы переходов
         """
-        for i in range(self.N):
+        for i in range(len(self.cols)):
             self.A.append(self.buildA(i))
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
@@ -373,7 +385,7 @@ class Mh2h2Warm:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -404,6 +416,15 @@ class Mh2h2Warm:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    # последний ярус системы с буфером: новые заявки не принимаются
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    full = self.D[j] - self.C[j] - self.l * np.eye(self.cols[j])
+                    tag = np.dot(tA, np.linalg.inv(full))
+                    self.z[j] = 1.0 / np.sum(tag)
+                    self.t[j] = self.z[j] * tag
+                    break
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -428,19 +449,8 @@ class Mh2h2Warm:
                 else:
                     self.x[j] = (1.0) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index 969f544..4096796 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -30,9 +30,10 @@ class MGnH2ServingColdWarmDelay:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = max(self.N, n + 2)  # матрицы нужны и для яруса с первым местом в очереди
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -240,7 +241,8 @@ class MGnH2ServingColdWarmDelay:
         # вероятности попадания в состояния обслуживания, вычисляются с помощью биноминального распределения
         probs = calc_binom_probs(self.n + 1, self.y[0])
 
-        for k in range(self.n, self.N):
+        # в полную систему с буфером заявки не попадают
+        for k in range(self.n, self.N if self.R is None else self.R):
 
             # Если заявка попала в фазу разогрева и каналы заняты. Также есть k-n заявок в очереди
             # ей придется подождать окончание разогрева + обслуживание всех накопленных заявок
@@ -293,6 +295,9 @@ class MGnH2ServingColdWarmDelay:
                     for w_phase in range(2):
                         w += self.Y[k][0, cold_pos + c_phase] * c_to_w[c_phase, w_phase] * pls_service_total
 
+        if self.R is not None:
+            w = w / (1.0 - self.p[self.R])
+
         return w
 
     def get_idle_prob(self):
@@ -429,7 +434,7 @@ class MGnH2ServingColdWarmDelay:
         """
         Формирует матрицы переходов
         """
-        for i in range(self.N):
+        for i in range(len(self.cols)):
             self.A.append(self.buildA(i))
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
@@ -450,7 +455,7 @@ class MGnH2ServingColdWarmDelay:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -481,6 +486,15 @@ class MGnH2ServingColdWarmDelay:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    # последний ярус системы с буфером: новые заявки не принимаются
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    full = self.D[j] - self.C[j] - self.l * np.eye(self.cols[j])
+                    tag = np.dot(tA, np.linalg.inv(full))
+                    self.z[j] = 1.0 / np.sum(tag)
+                    self.t[j] = self.z[j] * tag
+                    break
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -505,19 +519,8 @@ class MGnH2ServingColdWarmDelay:
                 else:
                     self.x[j] = (1.0) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index aef2c3c..6c789df 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -26,9 +26,10 @@ class MMn_H2warm_H2cold:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
+            N = max(self.N, n + 2)  # матрицы нужны и для яруса с первым местом в очереди
         else:
             self.N = N
             self.R = None  # для проверки задан ли буфер
@@ -149,7 +150,8 @@ class MMn_H2warm_H2cold:
                         w += self.Y[k][0, 3 + c_phase] * c_to_w[c_phase, w_phase]
 
         pls_service_total = 1.0
-        for k in range(self.n, self.N):
+        # в полную систему с буфером заявки не попадают
+        for k in range(self.n, self.N if self.R is None else self.R):
 
             # попала в фазу обслуживания
             # подождать окончание k+1-n обслуживаний
@@ -167,6 +169,9 @@ class MMn_H2warm_H2cold:
                 for w_phase in range(2):
                     w += self.Y[k][0, 3 + c_phase] * c_to_w[c_phase, w_phase] * pls_service_total
 
+        if self.R is not None:
+            w = w / (1.0 - self.p[self.R])
+
         return w
 
     def get_w(self):
@@ -315,7 +320,7 @@ class MMn_H2warm_H2cold:
         """
         Формирует матрицы переходов
         """
-        for i in range(self.N):
+        for i in range(len(self.cols)):
             self.A.append(self.buildA(i))
             self.B.append(self.buildB(i))
             self.C.append(self.buildC(i))
@@ -336,7 +341,7 @@ class MMn_H2warm_H2cold:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -367,6 +372,15 @@ class MMn_H2warm_H2cold:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if self.R is not None and j == (self.N - 1):
+                    # последний ярус системы с буфером: новые заявки не принимаются
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    full = self.D[j] - self.C[j] - self.l * np.eye(self.cols[j])
+                    tag = np.dot(tA, np.linalg.inv(full))
+                    self.z[j] = 1.0 / np.sum(tag)
+                    self.t[j] = self.z[j] * tag
+                    break
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -391,19 +405,8 @@ class MMn_H2warm_H2cold:
                 else:
                     self.x[j] = 1.0 / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             if self.dt == 'c16':
                 self.x[0] = (1.0 + 0.0j) / self.z[1]
-- 
2.43.0


From 4e43c4149f6f6f192712a9ee5e69f740c02061fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 096/105] fix: Takahashi-Takami iterations never ended when
 they settled into a cycle wider than the accuracy

---
 most_queue/theory/m_h2_h2warm.py                    | 7 ++++++-
 most_queue/theory/mgn_tt.py                         | 7 ++++++-
 most_queue/theory/mgn_with_h2_delay_cold_warm.py    | 7 ++++++-
 most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 8e663dc..32f66bd 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -410,8 +410,10 @@ class Mh2h2Warm:
         # одного максимального x для остановки мало: остальные могут еще меняться
         p_old = self.calc_p_by_x()
         delta = math.inf
+        # итерация может зациклиться с размахом больше заданной точности
+        delta_min, stall = math.inf, 0
 
-        while delta >= self.e1:
+        while delta >= self.e1 and stall < 200:
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -465,6 +467,9 @@ class Mh2h2Warm:
             delta = np.max(np.abs(p_new - p_old))
             p_old = p_new
 
+            stall = 0 if delta < delta_min else stall + 1
+            delta_min = min(delta, delta_min)
+
             if self.verbose:
                 print("End iter # {0:d}".format(self.num_of_iter_))
 
diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 892ba49..e8970ba 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -273,8 +273,10 @@ class MGnCalc:
         # одного максимального x для остановки мало: остальные могут еще меняться
         p_old = self.calc_p_by_x()
         delta = math.inf
+        # итерация может зациклиться с размахом больше заданной точности
+        delta_min, stall = math.inf, 0
 
-        while delta >= self.e1:
+        while delta >= self.e1 and stall < 200:
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -319,6 +321,9 @@ class MGnCalc:
             delta = np.max(np.abs(p_new - p_old))
             p_old = p_new
 
+            stall = 0 if delta < delta_min else stall + 1
+            delta_min = min(delta, delta_min)
+
             if self.verbose:
                 print("End iter # {0:d}".format(self.num_of_iter_))
 
diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index 4096796..2c07d05 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -480,8 +480,10 @@ class MGnH2ServingColdWarmDelay:
         # одного максимального x для остановки мало: остальные могут еще меняться
         p_old = self.calc_p_by_x()
         delta = math.inf
+        # итерация может зациклиться с размахом больше заданной точности
+        delta_min, stall = math.inf, 0
 
-        while delta >= self.e1:
+        while delta >= self.e1 and stall < 200:
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -535,6 +537,9 @@ class MGnH2ServingColdWarmDelay:
             delta = np.max(np.abs(p_new - p_old))
             p_old = p_new
 
+            stall = 0 if delta < delta_min else stall + 1
+            delta_min = min(delta, delta_min)
+
             if self.verbose:
                 print("End iter # {0:d}".format(self.num_of_iter_))
 
diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index 6c789df..d50f86d 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -366,8 +366,10 @@ class MMn_H2warm_H2cold:
         # одного максимального x для остановки мало: остальные могут еще меняться
         p_old = self.calc_p_by_x()
         delta = math.inf
+        # итерация может зациклиться с размахом больше заданной точности
+        delta_min, stall = math.inf, 0
 
-        while delta >= self.e1:
+        while delta >= self.e1 and stall < 200:
             self.num_of_iter_ += 1
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
@@ -421,6 +423,9 @@ class MMn_H2warm_H2cold:
             delta = np.max(np.abs(p_new - p_old))
             p_old = p_new
 
+            stall = 0 if delta < delta_min else stall + 1
+            delta_min = min(delta, delta_min)
+
             if self.verbose:
                 print(f"End iter # {self.num_of_iter_:d}, delta: {delta}")
 
-- 
2.43.0


From c83d3f3371244531a68e70852da8137c83aa2b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 097/105] fix: text report of the impatient simulator left out
 the report of the queue

---
 most_queue/sim/impatient_queue_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index 435898f..1772e42 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -144,11 +144,11 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                 self.drop_task(num_of_task_earlier, moment_to_leave_earlier)
 
     def __str__(self, is_short=False):
-        super().__str__(is_short)
+        res = super().__str__(is_short)
         num_of_task_earlier = -1
         moment_to_leave_earlier = math.inf
         for i, tsk in enumerate(self.queue.queue):
             if tsk.moment_to_leave < moment_to_leave_earlier:
                 moment_to_leave_earlier = tsk.moment_to_leave
                 num_of_task_earlier = i
-        return f'Task {num_of_task_earlier} is earlier to leave at {moment_to_leave_earlier:8.3f}'
+        return res + f'Task {num_of_task_earlier} is earlier to leave at {moment_to_leave_earlier:8.3f}\n'
-- 
2.43.0


From 590f5261fd80f16a55a5caf59818cffe921b915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 098/105] fix: third moment of the law approximated by
 approx_cdf_make took the square of the mean for its cube

---
 most_queue/general_utils/approx_cdf_make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/general_utils/approx_cdf_make.py b/most_queue/general_utils/approx_cdf_make.py
index 5ca1a3e..401f4e5 100755
--- a/most_queue/general_utils/approx_cdf_make.py
+++ b/most_queue/general_utils/approx_cdf_make.py
@@ -24,7 +24,7 @@ D = b[1] - pow(b[0], 2)
 sigma = math.sqrt(D)
 
 # 3 начальный момент
-b[2] = a_s*pow(sigma, 3) + 3*b[1]*b[0] - 2*pow(b[0], 2)
+b[2] = a_s*pow(sigma, 3) + 3*b[1]*b[0] - 2*pow(b[0], 3)
 
 
 # Гамма-аппроксимация
-- 
2.43.0


From 08a727cb8ba06214693c655a90a1b6bc02b2a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 099/105] fix: preemptive priority simulator sent an
 interrupted job to the end of its class's queue, behind jobs that came later

---
 most_queue/sim/priority_queue_sim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 92bd22c..4c8d225 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -281,12 +281,12 @@ class PriorityQueueSimulator:
 
                             is_found_weekier = True
                             if moment:
-                                self.queue[dropped_tsk.in_node_class_num].append(
-                                    dropped_tsk)
+                                self.queue[dropped_tsk.in_node_class_num].insert(
+                                    0, dropped_tsk)
                                 c.start_service(
                                     new_tsk, self.ttek, is_network=True)
                             else:
-                                self.queue[dropped_tsk.k].append(dropped_tsk)
+                                self.queue[dropped_tsk.k].insert(0, dropped_tsk)
                                 c.start_service(new_tsk, self.ttek)
 
                             break
-- 
2.43.0


From e8dd3f171e23d942c690cbeedb8466bd2098b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 100/105] fix: MMnr_calc overflowed for systems with more than
 about 150 places (powers and factorials replaced by ratios)

---
 most_queue/theory/mmnr_calc.py | 38 ++++++++++------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index 3160ee7..6c1d5b2 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -9,21 +9,15 @@ class MMnr_calc:
     @staticmethod
     def getPI(l, mu, n, r):
 
-        ro = l / mu
-        p = MMnr_calc.get_p(l, mu, n, r)
-
-        chisl = math.pow(ro, n + r) * p[0]
-        znam = math.factorial(n) * math.pow(n, r)
-        return chisl / znam
+        return MMnr_calc.get_p(l, mu, n, r)[n + r]
 
     @staticmethod
     def getQ(l, mu, n, r):
-        ro = l / mu
         p = MMnr_calc.get_p(l, mu, n, r)
         sum = 0
         for i in range(1, r + 1):
-            sum += i * math.pow(ro / n, i)
-        return p[n] * sum
+            sum += i * p[n + i]
+        return sum
 
     @staticmethod
     def get_qs(l, mu, n, r, q_num=3):
@@ -58,24 +52,14 @@ class MMnr_calc:
     @staticmethod
     def get_p(l, mu, n, r):
 
-        p = [0] * (n + r + 1)
         ro = l / mu
 
-        summ1 = 0
-        for i in range(n):
-            summ1 += pow(ro, i) / math.factorial(i)
-
-        coef = pow(ro, n) / math.factorial(n)
-        summ2 = 0
-        for i in range(r + 1):
-            summ2 += pow(ro / n, i)
-
-        p[0] = 1.0 / (summ1 + coef * summ2)
-
-        for i in range(n):
-            p[i] = pow(ro, i) * p[0] / math.factorial(i)
-
-        for i in range(n, n + r + 1):
-            p[i] = pow(ro, i) * p[0] / (math.factorial(n) * pow(n, i - n))
+        # powers and factorials of large systems are out of range: go by ratios
+        p = [1.0]
+        for i in range(n + r):
+            p.append(p[-1] * ro / min(i + 1, n))
+            if p[-1] > 1e100:
+                p = [x * 1e-100 for x in p]
 
-        return p
+        summ = sum(p)
+        return [x / summ for x in p]
-- 
2.43.0


From ea341d10290a79ea5c2e37ccfd172b31eae213ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 101/105] fix: M_D_n.calc_p_up_to_n dropped small singular
 values, so that probabilities were wrong for 15 and more channels

---
 most_queue/theory/m_d_n_calc.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/most_queue/theory/m_d_n_calc.py b/most_queue/theory/m_d_n_calc.py
index 3245677..be086ff 100755
--- a/most_queue/theory/m_d_n_calc.py
+++ b/most_queue/theory/m_d_n_calc.py
@@ -25,30 +25,18 @@ class M_D_n:
 
     def calc_p_up_to_n(self):
         self.get_z()
-        A = np.zeros((self.n, self.n), dtype=complex)
-        B = np.zeros(self.n, dtype=complex)
-        row_num = 0
+        # the sum of p[i] * (z^n - z^i) is a polynomial with the roots 1, z_ and the conjugates of z_
+        roots = list(self.z_)
         for m in range(len(self.z_)):
-            for j in range(self.n):
-                right_z = np.power(self.z_[m], self.n).real
-                delta_z = np.power(self.z_[m], j).real - right_z
-                A[row_num, j] = delta_z
-            row_num += 1
-        for m in range(len(self.z_)):
-            for j in range(self.n):
-                right_z = np.power(self.z_[m], self.n).imag
-                delta_z = np.power(self.z_[m], j).imag - right_z
-                A[row_num, j] = delta_z
-            row_num += 1
-
-        for j in range(self.n):
-            A[self.n - 1, j] = self.n - j
-
-        B[self.n - 1] = self.n - self.l * self.b
-        p = np.linalg.lstsq(A, B, rcond=1e-8)
+            if 2 * (m + 1) != self.n:
+                roots.append(self.z_[m].conjugate())
+        scale = self.n - self.l * self.b
+        for z in roots:
+            scale /= 1.0 - z
+        coefficients = np.poly([1.0] + roots)[::-1]
         p_real = []
-        for i in range(len(p[0])):
-            p_real.append(p[0][i].real)
+        for i in range(self.n):
+            p_real.append(float((-scale * coefficients[i]).real))
         return p_real
 
     def calc_p(self):
-- 
2.43.0


From d484350872dff9c62d9a49d888c3b5fce2e4ff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:10 +0000
Subject: [PATCH 102/105] fix: get_q_Pareto lost accuracy for large alpha, down
 to negative probabilities

---
 .../theory/utils/q_poisson_arrival_calc.py      | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index eec5c33..c693959 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -49,12 +49,17 @@ def get_q_Pareto(l, alpha, K, num=100):
     q = [0.0] * num
     gammas = [0.0] * num
     z = l * K
-    # incomplete gamma function of -alpha: the integral of t^(-alpha-1) * exp(-t) from z, with t = z * exp(u)
-    gammas[0] = pow(z, -alpha) * integrate.quad(lambda u: math.exp(-alpha * u - z * math.exp(u)),
-                                                0, min(36.0 / alpha, 700.0), epsabs=0, epsrel=1e-12)[0]
-
-    for j in range(1, num):
-        gammas[j] = (j - alpha - 1) * gammas[j - 1] + pow(z, j - alpha - 1) * math.exp(-z)
+    # incomplete gamma function of j - alpha: the integral of t^(j-alpha-1) * exp(-t) from z, with t = z * exp(u)
+    for j in range(num):
+        s = j - alpha
+        if s < 1:  # the recurrence subtracts nearly equal numbers for negative s
+            top = max(math.log(750.0 / z), 0)
+            if s < 0:
+                top = min(top, -36.0 / s)
+            gammas[j] = pow(z, s) * integrate.quad(lambda u: math.exp(s * u - z * math.exp(u)),
+                                                   0, top, epsabs=0, epsrel=1e-12)[0]
+        else:
+            gammas[j] = (s - 1) * gammas[j - 1] + pow(z, s - 1) * math.exp(-z)
     forw = alpha * pow(z, alpha)
     for j in range(num):
         q[j] = forw * gammas[j] / math.factorial(j)
-- 
2.43.0


From cd27a38247660741457c815a422ad7ca74e58500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:10 +0000
Subject: [PATCH 103/105] fix: M_D_n lost digits with dozens of channels

---
 most_queue/theory/m_d_n_calc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/most_queue/theory/m_d_n_calc.py b/most_queue/theory/m_d_n_calc.py
index be086ff..c7f7d35 100755
--- a/most_queue/theory/m_d_n_calc.py
+++ b/most_queue/theory/m_d_n_calc.py
@@ -33,7 +33,12 @@ class M_D_n:
         scale = self.n - self.l * self.b
         for z in roots:
             scale /= 1.0 - z
-        coefficients = np.poly([1.0] + roots)[::-1]
+        # found from the values on the unit circle: multiplying the factors out one by one loses accuracy for many channels
+        points = np.exp(2j * np.pi * np.arange(self.n + 1) / (self.n + 1))
+        values = points - 1.0
+        for z in roots:
+            values = values * (points - z)
+        coefficients = np.fft.fft(values) / (self.n + 1)
         p_real = []
         for i in range(self.n):
             p_real.append(float((-scale * coefficients[i]).real))
-- 
2.43.0


From 2b68da6cec8d6ca6b012995ee0f7b75bf9b65993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:10 +0000
Subject: [PATCH 104/105] fix: impatience_calc did not end or lost the
 probabilities for long queues

---
 most_queue/theory/impatience_calc.py | 30 ++++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/most_queue/theory/impatience_calc.py b/most_queue/theory/impatience_calc.py
index 8b3260d..17df85e 100755
--- a/most_queue/theory/impatience_calc.py
+++ b/most_queue/theory/impatience_calc.py
@@ -1,37 +1,45 @@
 """
 Расчет М/M/1 с экспоненциальным нетерпением
 """
+import math
 
 
 def get_p0(l, mu, gamma, tol=1e-12):
     """
     Вероятность нулевого состояния системы
     """
-    summ = 0
-    elem_old = 0
-    elem_new = 1
+    return math.exp(get_log_p0(l, mu, gamma, tol))
+
+
+def get_log_p0(l, mu, gamma, tol=1e-12):
+    """
+    Логарифм вероятности нулевого состояния: сами вероятности могут отличаться на сотни порядков
+    """
+    log_l = math.log(l) if l > 0 else -math.inf
+    elems = [0.0]
 
     i = 1
-    while elem_new > tol or elem_new >= elem_old:
-        elem_old = elem_new
-        elem_new *= l / (mu + (i - 1) * gamma)
-        summ += elem_new
+    while len(elems) < 2 or elems[-1] > math.log(tol) or elems[-1] >= elems[-2]:
+        elems.append(elems[-1] + log_l - math.log(mu + (i - 1) * gamma))
 
         i += 1
 
-    return 1.0 / (1.0 + summ)
+    top = max(elems)
+    return -top - math.log(math.fsum(math.exp(elem - top) for elem in elems))
 
 
 def get_p(l, mu, gamma, tol=1e-12, max_num=100000):
     """
     Вероятности состояний системы
     """
-    p0 = get_p0(l, mu, gamma, tol)
+    log_l = math.log(l) if l > 0 else -math.inf
+    log_pi = get_log_p0(l, mu, gamma, tol)
     ps = []
-    ps.append(p0)
+    ps.append(math.exp(log_pi))
 
     for i in range(1, max_num):
-        pi = ps[-1] * l / (mu + (i - 1) * gamma)
+        log_pi += log_l - math.log(mu + (i - 1) * gamma)
+        pi = math.exp(log_pi)
         ps.append(pi)
         if pi < tol and pi < ps[-2]:
             break
-- 
2.43.0


From 5bd63b3e7598d57af2b4c8432d64473ed19bd648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:10 +0000
Subject: [PATCH 105/105] fix: Gamma density overflowed or vanished for large
 shapes

---
 most_queue/rand_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 634fa9f..a445d71 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -838,7 +838,7 @@ class Gamma:
         fract = sp.gamma(alpha)
         if math.fabs(fract) > 1e-12:
             if math.fabs(mu * t) > 1e-12:
-                main = mu * math.pow(mu * t, alpha - 1) * math.exp(-mu * t) / fract
+                main = mu * math.exp((alpha - 1) * math.log(mu * t) - mu * t - sp.gammaln(alpha))
             else:
                 main = 0
         else:
@@ -859,7 +859,7 @@ class Gamma:
         fract = sp.gamma(alpha)
         if math.fabs(fract) > 1e-12:
             if math.fabs(mu * t) > 1e-12:
-                main = mu * math.pow(mu * t, alpha - 1) * math.exp(-mu * t) / fract
+                main = mu * math.exp((alpha - 1) * math.log(mu * t) - mu * t - sp.gammaln(alpha))
             else:
                 main = 0
         else:
-- 
2.43.0

