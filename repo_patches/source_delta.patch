From e92ce2219bc59b5e5b3a9469799596693f230151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 01/45] fix: NSLS next_generation loops forever when no new
 individual was found

---
 algorithms/NSLS/NSLS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algorithms/NSLS/NSLS.py b/algorithms/NSLS/NSLS.py
index 3384929..83fbe39 100644
--- a/algorithms/NSLS/NSLS.py
+++ b/algorithms/NSLS/NSLS.py
@@ -164,7 +164,8 @@ class NSLS(Driver):
 
         front_no = 1
         while (
-            len(next_gen_individuals) + len(self.front[front_no])
+            len(next_gen_individuals) < self.population_size
+            and len(next_gen_individuals) + len(self.front[front_no])
             <= self.population_size
         ):
             next_gen_individuals.extend(self.front[front_no])
-- 
2.43.0


From e7f68e4e8ebc5492b8c55c127274a3e27174bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 02/45] fix: NSGAIII survivor selection loops forever when all
 fronts fit the population

---
 algorithms/NSGAIII/NSGAIII.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/algorithms/NSGAIII/NSGAIII.py b/algorithms/NSGAIII/NSGAIII.py
index a6a3153..9d6a0fa 100644
--- a/algorithms/NSGAIII/NSGAIII.py
+++ b/algorithms/NSGAIII/NSGAIII.py
@@ -283,7 +283,10 @@ class NSGAIII(Driver):
         new_inds = []
         new_size = len(new_inds)
         i = 1
-        while new_size + len(fronts[i]) <= self.population_size:
+        while (
+            new_size < self.population_size
+            and new_size + len(fronts[i]) <= self.population_size
+        ):
             new_inds.extend(fronts[i])
             new_size = len(new_inds)
             i += 1
-- 
2.43.0


From f6c633714ea271a15b0c1a74e408b3035e2a1422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 03/45] fix: OMOPSO archive skips members while removing
 dominated ones

---
 algorithms/OMOPSO/OMOPSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index bcdbdba..5c2c643 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -277,7 +277,7 @@ class Archive(object):
 
     def add(self, p):
 
-        for l in self.archive:
+        for l in list(self.archive):
             if l.dominates(p, self.eta):
                 return False
             elif p.dominates(l, self.eta):
-- 
2.43.0


From 72ff1539af701cd2e9267bbff9dc3831013c9a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 04/45] fix: OMOPSO archive margin keeps dominated solutions
 with negative objectives

---
 algorithms/OMOPSO/OMOPSO.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 5c2c643..117d186 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -250,9 +250,12 @@ class Individual:
     def dominates(self, p2, eta=0):
         at_least_one = False
         for i in range(len(self.objectives)):
-            if p2.objectives[i] < self.objectives[i] / (1 + eta):
+            # the margin improves the value, whatever its sign
+            relaxed = self.objectives[i]
+            relaxed = relaxed * (1 + eta) if relaxed < 0 else relaxed / (1 + eta)
+            if p2.objectives[i] < relaxed:
                 return False
-            elif p2.objectives[i] > self.objectives[i] / (1 + eta):
+            elif p2.objectives[i] > relaxed:
                 at_least_one = True
 
         return at_least_one
-- 
2.43.0


From 3b3472048b090a2da8eef7d4ca906896aaecac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 05/45] fix: SMSEMOA charges the whole population instead of
 one evaluation per vector

---
 algorithms/SMSEMOA/SMSEMOA.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algorithms/SMSEMOA/SMSEMOA.py b/algorithms/SMSEMOA/SMSEMOA.py
index 4e09ec3..b91a479 100644
--- a/algorithms/SMSEMOA/SMSEMOA.py
+++ b/algorithms/SMSEMOA/SMSEMOA.py
@@ -66,10 +66,9 @@ class SMSEMOA(Driver):
         for p in pop:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def generate(self, pop):
-- 
2.43.0


From ba5dc2c6287de06b9179581ed993b0fa2694de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 06/45] fix: SPEA2 charges the whole population instead of one
 evaluation per vector

---
 algorithms/SPEA2/SPEA2.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index 5cb88c3..f90c7e5 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -117,10 +117,9 @@ class SPEA2(Driver):
                 p["value"] in self.fitness_archive
             ):
                 p["objectives"] = self.fitness_archive[p["value"]]
-                objectives_cost = 0
             else:
                 p["objectives"] = [o(p["value"]) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def calculate_dominated(self, pop):
-- 
2.43.0


From d46727926a3ea286041c378a7e5d72ba09849228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 07/45] fix: OMOPSO charges the whole population instead of one
 evaluation per vector

---
 algorithms/OMOPSO/OMOPSO.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 117d186..d70ff1e 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -117,10 +117,9 @@ class OMOPSO(Driver):
         for p in self.individuals:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.individuals)
+                objectives_cost += 1
         return objectives_cost
 
     def move(self):
-- 
2.43.0


From 4316ac336f6990b0f6ef05c6c28d1133a1c83163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 08/45] fix: IBEA charges every individual again in every
 generation

---
 algorithms/IBEA/IBEA.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algorithms/IBEA/IBEA.py b/algorithms/IBEA/IBEA.py
index ff27292..3148781 100644
--- a/algorithms/IBEA/IBEA.py
+++ b/algorithms/IBEA/IBEA.py
@@ -43,12 +43,11 @@ class IBEA(Driver):
         self.k = kappa
         self.mating_size_c = mating_population_size
         self.trim_function = trim_function
+        self.fitness_archive = fitness_archive
         self.population = [self.trim_function(x) for x in population]
 
         self._scale_objectives()
 
-        self.fitness_archive = fitness_archive
-
     def finalized_population(self):
         return self.finish()
 
@@ -76,7 +75,7 @@ class IBEA(Driver):
     def _scale_objectives(self):
         min_max = lambda x: (min(x), max(x))
         for ind in self.individuals:
-            if not ind.known_objectives or not (
+            if not ind.known_objectives and not (
                 (self.fitness_archive is not None) and (ind.v in self.fitness_archive)
             ):
                 self.cost += 1
-- 
2.43.0


From 66ff121667f3e0cfa06b790e1d24ff01a89d9096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 09/45] fix: timed run fails when no time slot could be
 reported

---
 simulation/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/worker.py b/simulation/worker.py
index 4905eba..1e1c666 100644
--- a/simulation/worker.py
+++ b/simulation/worker.py
@@ -170,6 +170,6 @@ class TimeWorker(SimulationWorker):
             slots_filled.add(time_slot)
 
 
-        time_run.create_job(driver).pipe(ops.do_action(on_next=process_results)).run()
+        time_run.create_job(driver).pipe(ops.do_action(on_next=process_results)).subscribe()
 
         return results
-- 
2.43.0


From fc8de886734777d9c45d463d5f8f158f01d58be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 10/45] fix: OMOPSO moves vectors it has already handed out

---
 algorithms/OMOPSO/OMOPSO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index d70ff1e..5a49c32 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -124,6 +124,8 @@ class OMOPSO(Driver):
 
     def move(self):
         for p in self.individuals:
+            # vectors already handed out stay as they were
+            p.value = list(p.value)
             for i in range(len(self.dims)):
                 new_x = p.value[i] + p.speed[i]
                 bounded_x = max(new_x, self.dims[i][0])
-- 
2.43.0


From ff6c6f8604761d4ae1665489fce55cec174c7f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 11/45] fix: torus topology leaves the first island of a second
 row unconnected

---
 algorithms/IMGA/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/IMGA/topology.py b/algorithms/IMGA/topology.py
index e9d7f18..9cc2bbf 100644
--- a/algorithms/IMGA/topology.py
+++ b/algorithms/IMGA/topology.py
@@ -41,7 +41,7 @@ class TorusTopology(Topology):
 
                 neighbors = set()
 
-                if len(t) > self.width:
+                if len(t) >= self.width:
                     last = i - self.width
                     last_neighbors = t[last]
 
-- 
2.43.0


From 52972a67ca3bad53824e0d6ea16fb0adbed6577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 12/45] fix: torus topology links islands to themselves when
 they are alone in a row or column

---
 algorithms/IMGA/topology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algorithms/IMGA/topology.py b/algorithms/IMGA/topology.py
index 9cc2bbf..0223797 100644
--- a/algorithms/IMGA/topology.py
+++ b/algorithms/IMGA/topology.py
@@ -65,4 +65,5 @@ class TorusTopology(Topology):
             if last_width == 1:
                 t[N].remove(N)
 
-        return [set(neighbors) for neighbors in t]
+        # an island alone in its row or column has no neighbour there
+        return [set(neighbors) - {i} for i, neighbors in enumerate(t)]
-- 
2.43.0


From 0c82c6602bae5a9457faf9d11d6bfee83e38488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 13/45] fix: IMGA hands out a final population that can be read
 only once

---
 algorithms/IMGA/IMGA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/IMGA/IMGA.py b/algorithms/IMGA/IMGA.py
index 9dfb665..f03a2c3 100644
--- a/algorithms/IMGA/IMGA.py
+++ b/algorithms/IMGA/IMGA.py
@@ -60,8 +60,10 @@ class IMGA(ComplexDriver):
                 island.driver.max_budget = self.max_budget
 
     def finalized_population(self):
-        return itertools.chain(
-            *(island.driver.finalized_population() for island in self.islands)
+        return list(
+            itertools.chain(
+                *(island.driver.finalized_population() for island in self.islands)
+            )
         )
 
     def step(self):
-- 
2.43.0


From 990d66c89a85bb712ba5e96800d52574d021d187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:29 +0000
Subject: [PATCH 14/45] fix: noisy objectives turn negative values into
 positive ones

---
 algorithms/HGS/classic/ClassicHGS.py | 5 +++--
 algorithms/HGS/tools.py              | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 7541a7d..03a1ae0 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -213,8 +213,9 @@ class ClassicHGS(ComplexDriver):
         def blurred(f):
             def blurred_f(*args, **kwargs):
                 f_val = f(*args, **kwargs)
-                x = math.fabs(
-                    random.gauss(f_val, self.fitness_errors[level] * f_val / 3.0)
+                x = math.copysign(
+                    random.gauss(f_val, self.fitness_errors[level] * f_val / 3.0),
+                    f_val,
                 )
 
                 # print("level: {}, normal: {} blurred: {}, diff: {}".format(level, f_val, x, math.fabs(f_val - x)/f_val))
diff --git a/algorithms/HGS/tools.py b/algorithms/HGS/tools.py
index 09be1de..4915661 100644
--- a/algorithms/HGS/tools.py
+++ b/algorithms/HGS/tools.py
@@ -1,4 +1,5 @@
 import collections
+import math
 import random
 import time
 
@@ -37,8 +38,8 @@ def blurred_fitnesses(level, fitnesses, fitness_errors):
     def blurred(f):
         def blurred_f(*args, **kwargs):
             f_val = f(*args, **kwargs)
-            x = np.math.fabs(
-                random.gauss(f_val, fitness_errors[level] * f_val / 3.0)
+            x = math.copysign(
+                random.gauss(f_val, fitness_errors[level] * f_val / 3.0), f_val
             )
 
             # print("level: {}, normal: {} blurred: {}, diff: {}".format(level, f_val, x, math.fabs(f_val - x)/f_val))
-- 
2.43.0


From 04b51434c47b19e8ab202f9d69b548725245ce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 15/45] fix: distributed HGS never stops redundant nodes

---
 algorithms/HGS/distributed/actors.py     |  2 ++
 algorithms/HGS/distributed/hgs_tasks.py  |  7 ++++---
 algorithms/HGS/distributed/node_tasks.py | 11 +++++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/algorithms/HGS/distributed/actors.py b/algorithms/HGS/distributed/actors.py
index 0e4168a..d8492d4 100644
--- a/algorithms/HGS/distributed/actors.py
+++ b/algorithms/HGS/distributed/actors.py
@@ -15,6 +15,7 @@ from algorithms.HGS.distributed.message import (
 )
 from algorithms.HGS.distributed.node_tasks import (
     CheckStatusNodeTask,
+    KillNodeTask,
     GetPopulationNodeTask,
     NewMetaepochNodeTask,
     TrimNotProgressingNodeTask,
@@ -203,6 +204,7 @@ class Node(TaskActor):
         return {
             NodeOperation.CHECK_STATUS: CheckStatusNodeTask,
             NodeOperation.POPULATION: GetPopulationNodeTask,
+            NodeOperation.KILL: KillNodeTask,
             NodeOperation.NEW_METAEPOCH: NewMetaepochNodeTask,
             NodeOperation.TRIM_NOT_PROGRESSING: TrimNotProgressingNodeTask,
             NodeOperation.RELEASE_SPROUTS: ReleaseSproutsNodeTask,
diff --git a/algorithms/HGS/distributed/hgs_tasks.py b/algorithms/HGS/distributed/hgs_tasks.py
index 292b7b6..af8ebf7 100644
--- a/algorithms/HGS/distributed/hgs_tasks.py
+++ b/algorithms/HGS/distributed/hgs_tasks.py
@@ -248,8 +248,9 @@ class TrimRedundantHgsTask(HgsOperationTask):
             for level, lvl_infos in itertools.groupby(
                 self.trim_infos, key=lambda info: info.level
             ):
-                self.log(f"trim lvl infos: {list(lvl_infos)} for lvl={level}")
-                self.trim_redundant(list(lvl_infos))
+                lvl_infos = list(lvl_infos)
+                self.log(f"trim lvl infos: {lvl_infos} for lvl={level}")
+                self.trim_redundant(lvl_infos)
             self.hgs.send(
                 self.sender,
                 HgsMessage(HgsOperation.TRIM_REDUNDANT_END, self.sender_task_id, True),
@@ -270,7 +271,7 @@ class TrimRedundantHgsTask(HgsOperationTask):
                 ) and tools.redundant(
                     [another_sprout.center],
                     [sprout.center],
-                    self.hgs.min_dists[sprout.level],
+                    self.hgs.config.min_dists[sprout.level],
                 ):
                     self.hgs.send(sprout.node, NodeMessage(NodeOperation.KILL, self.id))
                     sprout.alive = False
diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index c8223de..248c403 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -72,6 +72,17 @@ class ReviveNodeTask(NodeOperationTask):
         self.node.send(sender, NodeMessage(NodeOperation.REVIVE, msg.id))
 
 
+class KillNodeTask(NodeOperationTask):
+    def __init__(self, node):
+        super().__init__(node)
+
+    def configure_steps(self, steps: Dict[OperationType, Callable]):
+        steps[NodeOperation.KILL] = self.kill
+
+    def kill(self, msg: NodeMessage, sender: Actor):
+        self.node.alive = False
+
+
 class GetPopulationNodeTask(NodeOperationTask):
     def __init__(self, node):
         super().__init__(node)
-- 
2.43.0


From 932714e55bc77aba3aaebaaed8d444f8633ef00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 16/45] fix: distributed HGS ignores the sprouts of the current
 round in the limit of active sprouts

---
 algorithms/HGS/distributed/node_tasks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index 248c403..4208054 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -334,6 +334,7 @@ class ReleaseSproutsNodeTask(NodeOperationTask):
     def new_sprout_released(self, msg: HgsMessage, sender: Actor):
         self.log("new sprout registered")
         self.node.sprouts.append(msg.data)
+        self.alive_sprouts_count += 1
         self.released_sprouts += 1
 
         self.try_relase_next_sprout()
-- 
2.43.0


From 6d33ec63a3aa1f3b141f8670829f7c039d1d387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 17/45] fix: omitting --algo selects every algorithm, not none

---
 simulation/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/factory.py b/simulation/factory.py
index 366dc6f..c2a896c 100644
--- a/simulation/factory.py
+++ b/simulation/factory.py
@@ -96,6 +96,8 @@ def parse_algorithms(args):
             algo for algo in run_config.algorithms if algo.lower() in algorithms_filter
         ]
         logger.debug("Selected: %s", algorithms)
+    else:
+        algorithms = run_config.algorithms
     return algorithms
 
 
-- 
2.43.0


From 790a957287cda0a8d6de9905adef714d8c77b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 18/45] fix: a failed simulation no longer aborts the remaining
 ones

---
 simulation/run_parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulation/run_parallel.py b/simulation/run_parallel.py
index c756c82..86e8355 100644
--- a/simulation/run_parallel.py
+++ b/simulation/run_parallel.py
@@ -39,7 +39,7 @@ def run_parallel(args):
 
         def process_result(subres):
             results.append(subres)
-            log_simulation_stats(start_time, subres[-1], len(simulation_cases))
+            log_simulation_stats(start_time, len(results), len(simulation_cases))
 
         rx.from_iterable(range(len(simulation_cases))).pipe(
             ops.map(lambda i: worker_factory(simulation_cases[i], i)),
@@ -52,10 +52,10 @@ def run_parallel(args):
     rxtools.shutdown_default_executor()
     sys.shutdown()
 
-def log_simulation_stats(start_time, simulation_id, simultations_count):
+def log_simulation_stats(start_time, finished_count, simultations_count):
     current_time = datetime.now()
     diff_time = current_time - start_time
-    ratio = simulation_id * 1.0 / simultations_count
+    ratio = finished_count * 1.0 / simultations_count
     try:
         est_delivery_time = start_time + diff_time / ratio
         time_to_delivery = est_delivery_time - current_time
-- 
2.43.0


From a8fef50aabc14508c1eb99248a6c88fe96b543b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 19/45] fix: a run with no matching simulation ends cleanly

---
 simulation/run_parallel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulation/run_parallel.py b/simulation/run_parallel.py
index 86e8355..fe48692 100644
--- a/simulation/run_parallel.py
+++ b/simulation/run_parallel.py
@@ -46,7 +46,8 @@ def run_parallel(args):
             # ops.map(lambda w: rxtools.from_process(w.run)),
             ops.map(lambda w : w.run()),
             # ops.merge(max_concurrent=1)
-            ops.do_action(on_next=process_result)
+            ops.do_action(on_next=process_result),
+            ops.default_if_empty(),
         ).run()
     log_summary(args, results, simulation_cases, wall_time)
     rxtools.shutdown_default_executor()
-- 
2.43.0


From afef2b95810e0e17402aef138efc4a045ee9417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 20/45] fix: an error while storing a timed result fails the
 case instead of vanishing

---
 simulation/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/worker.py b/simulation/worker.py
index 1e1c666..d59fd4c 100644
--- a/simulation/worker.py
+++ b/simulation/worker.py
@@ -170,6 +170,6 @@ class TimeWorker(SimulationWorker):
             slots_filled.add(time_slot)
 
 
-        time_run.create_job(driver).pipe(ops.do_action(on_next=process_results)).subscribe()
+        time_run.create_job(driver).subscribe(process_results)
 
         return results
-- 
2.43.0


From e7e62fbe6bb3447674f90a18cdd066d41ba38390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 21/45] fix: a driver that fails to shut down no longer aborts
 the remaining simulations

---
 simulation/worker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulation/worker.py b/simulation/worker.py
index d59fd4c..b530a59 100644
--- a/simulation/worker.py
+++ b/simulation/worker.py
@@ -76,7 +76,10 @@ class SimulationWorker:
 
         finally:
             if driver:
-                driver.shutdown()
+                try:
+                    driver.shutdown()
+                except Exception as e:
+                    logger.exception("Driver shutdown failed", exc_info=e)
             logger.debug("Finished processing. simulation case:%s", self.simulation)
 
     def run_driver(
-- 
2.43.0


From 251a52888193535b83dcb184fc8792fa6a00df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 22/45] fix: bootstrap of a single value resamples it instead
 of reporting -inf

---
 statistic/stats_bootstrap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/statistic/stats_bootstrap.py b/statistic/stats_bootstrap.py
index 5d81eaf..1c27593 100644
--- a/statistic/stats_bootstrap.py
+++ b/statistic/stats_bootstrap.py
@@ -93,7 +93,11 @@ def yield_analysis(data_process, boot_size):
         mean_nooutliers = float("inf")
 
     btstrpd = bootstrap(
-        data_process, average, boot_size, int(len(data_process) * 0.66), 0.025
+        data_process,
+        average,
+        boot_size,
+        max(1, int(len(data_process) * 0.66)),
+        0.025,
     )
 
     goodbench = "✓"
-- 
2.43.0


From b181a00589fbb0ede38b2ad20261554694f2423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 23/45] fix: dominance indicator compares runs by the numbers
 they are reported under

---
 simulation/metrics_processor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index ea342a0..9f8d8ca 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -14,6 +14,8 @@ from metrics import metrics
 from simulation import serializer
 from simulation.serializer import ResultWithMetadata
 
+RUN_DIR_PATTERN = r"\d{4}-\d{2}-\d{2}\.\d{6}\.\d{6}__\d{7}"
+
 
 def yield_metrics(result_list: List[ResultWithMetadata], problem_mod):
     for result in result_list:
@@ -191,7 +193,12 @@ def preload_results_for_problem(cache, problem_path: Path):
     logger.debug("Loading for problem : {}".format(problem_name))
     for algo_path in problem_path.iterdir():
         if algo_path.is_dir():
-            runs = [run for run in algo_path.iterdir() if run.is_dir()]
+            # the same runs, in the same order, as numbered by serialization
+            runs = sorted(
+                run
+                for run in algo_path.iterdir()
+                if run.is_dir() and re.fullmatch(RUN_DIR_PATTERN, run.name)
+            )
             for run_no in range(len(runs)):
                 for result_file in runs[run_no].iterdir():
                     try:
-- 
2.43.0


From 927cb8f4ebb2c0192edd622a0af509e6602e9266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 24/45] fix: stale dominance caches are found by file name, not
 by the whole path

---
 simulation/metrics_processor.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index 9f8d8ca..b464b07 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -262,11 +262,10 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
 def clear_old_pdi_metrics(problem_path: Path):
     logger = logging.getLogger(__name__)
 
-    for filename in fnmatch.filter(
-        [str(p) for p in problem_path.iterdir()], "*{}_*".format(problem_path.name)
-    ):
-        os.remove(filename)
-        logger.debug("Removing file: " + filename)
+    for path in problem_path.iterdir():
+        if fnmatch.fnmatch(path.name, "*{}_*".format(problem_path.name)):
+            os.remove(str(path))
+            logger.debug("Removing file: " + str(path))
 
     for root, dirnames, filenames in os.walk(str(problem_path)):
         for filename in fnmatch.filter(
-- 
2.43.0


From 4584a5e33182e037b7e9cfdcdb61dd079affb54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 25/45] fix: dominance caches of results stored under other
 budgets are not reused

---
 simulation/metrics_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index b464b07..eb9fe12 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -227,7 +227,7 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
     logger = logging.getLogger(__name__)
     problem_name = problem_path.name
     problem_keys = sorted(filter(lambda run_key: run_key[0] == problem_name, cache))
-    problem_solutions = [cache[key] for key in problem_keys]
+    problem_solutions = [(key, cache[key]) for key in problem_keys]
 
     problem_cache_file = problem_path / f"{problem_name}_nondominated"
     try:
-- 
2.43.0


From 79ab949b6c654309a821e49dfb7e6b5988c1d8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 26/45] fix: UF8, UF9 and UF10 sum over every third variable

---
 problems/UF10/problem.py | 6 +++---
 problems/UF8/problem.py  | 6 +++---
 problems/UF9/problem.py  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 3c3e39a..301d125 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -17,9 +17,9 @@ pareto_front = [
 
 pareto_set = []
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
+J2 = [j for j in range(3, n + 1) if (j - 2) % 3 == 0]
+J3 = [j for j in range(3, n + 1) if j % 3 == 0]
 
 
 def yj(x, j):
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index 830f97b..29bf761 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -15,9 +15,9 @@ pareto_front = [
 ]
 pareto_set = []
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
+J2 = [j for j in range(3, n + 1) if (j - 2) % 3 == 0]
+J3 = [j for j in range(3, n + 1) if j % 3 == 0]
 
 
 def base_fit(x, J):
diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index 044dbf0..c07b2c5 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -15,9 +15,9 @@ pareto_front = [
     if x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z)
 ]
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
+J2 = [j for j in range(3, n + 1) if (j - 2) % 3 == 0]
+J3 = [j for j in range(3, n + 1) if j % 3 == 0]
 
 
 def base_fit(x, J):
-- 
2.43.0


From e1d5f6b8768f6786a9e9e1827025056cc4f7e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 27/45] fix: reference fronts of UF8 and UF10 lie on the unit
 sphere

---
 problems/UF10/problem.py | 2 +-
 problems/UF8/problem.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 301d125..9b21974 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -10,7 +10,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.sqrt(-x ** 2 - y ** 2 + 1)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index 29bf761..2aff804 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -9,7 +9,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.sqrt(-x ** 2 - y ** 2 + 1)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
-- 
2.43.0


From 522435f71f78f4ec0afb676c7063ea813d9a35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 28/45] fix: reference front of UF9 stays within the front

---
 problems/UF9/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index c07b2c5..d1d1a59 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -10,9 +10,9 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 z_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, 1 - x - z, z]
+    [x, max(0, 1 - x - z), z]
     for x, z in itertools.product(x_points, z_points)
-    if x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z)
+    if x <= 0.25 * (1 - z) or 0.75 * (1 - z) <= x <= 1 - z + 1e-9
 ]
 
 J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
-- 
2.43.0


From 80088057ff41afbf654a5248f5b1bf556fd527b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 29/45] fix: reference front of UF6 keeps inside its segments

---
 problems/UF6/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/UF6/problem.py b/problems/UF6/problem.py
index aa28d5d..4ea6658 100644
--- a/problems/UF6/problem.py
+++ b/problems/UF6/problem.py
@@ -5,12 +5,12 @@ import numpy
 
 n = 30
 eps = 0.1
-p_step = (1 - 1 / (2 * n)) / 150
+p_segment = 150 // n
 
 emoa_points = [
     x
     for i in range(1, n + 1)
-    for x in numpy.arange((2 * i - 1) / (2 * n), (2 * i) / (2 * n) + p_step, p_step)
+    for x in numpy.linspace((2 * i - 1) / (2 * n), (2 * i) / (2 * n), p_segment)
 ]
 pareto_front = [[0, 1]] + [[x, 1 - x] for x in emoa_points]
 pareto_set = []
-- 
2.43.0


From ef43aefb0f036ad9c7a850c1f7e23e55b0f57cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 30/45] fix: UF11 and UF12 follow the DTLZ2 and DTLZ3 formulas

---
 problems/UF11/problem.py | 4 ++--
 problems/UF12/problem.py | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/problems/UF11/problem.py b/problems/UF11/problem.py
index 72c2584..c888775 100644
--- a/problems/UF11/problem.py
+++ b/problems/UF11/problem.py
@@ -59,7 +59,7 @@ def p(z_i):
 
 
 def g(z_b):
-    return sum((z_bi - 0.5) ** 2 for z_bi in z_b)
+    return sum((z_bi - 0.5) ** 2 for z_bi in z_b[f_dims - 1 :])
 
 
 def base_fit_cos(z_bis, m):
@@ -76,7 +76,7 @@ def base_fit_cos(z_bis, m):
 
 def base_fit_up(z_b, m):
     return (1 + g(z_b)) * base_fit_cos(z_b, m - 1) * (
-        math.sin(z_b[m - 1]) if m < f_dims else 1
+        math.sin((z_b[m - 1] * math.pi) / 2.0) if m < f_dims else 1
     ) + 1
 
 
diff --git a/problems/UF12/problem.py b/problems/UF12/problem.py
index 9994102..4196e60 100644
--- a/problems/UF12/problem.py
+++ b/problems/UF12/problem.py
@@ -60,7 +60,11 @@ def p(z_i):
 
 def g(z):
     return 100 * (
-        len(z) + sum((zi - 0.5) ** 2 - math.cos(20 * math.pi * (zi - 0.5)) for zi in z)
+        len(z) - f_dims + 1
+        + sum(
+            (zi - 0.5) ** 2 - math.cos(20 * math.pi * (zi - 0.5))
+            for zi in z[f_dims - 1 :]
+        )
     )
 
 
@@ -78,7 +82,7 @@ def base_fit_cos(z_bis, m):
 
 def base_fit_up(z, z_b, m):
     return (1 + g(z)) * base_fit_cos(z_b, m - 1) * (
-        math.sin(z_b[m - 1]) if m < f_dims else 1
+        math.sin((z_b[m - 1] * math.pi) / 2.0) if m < f_dims else 1
     ) + 1
 
 
-- 
2.43.0


From 31d3f86e8cb8e47b7a457abd4ab682ace25f63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 31/45] fix: revival of a hierarchy leaves the shared
 configuration alone

---
 algorithms/HGS/classic/ClassicHGS.py         | 3 ++-
 algorithms/HGS/distributed/DistributedHGS.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 03a1ae0..7c60061 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -62,7 +62,8 @@ class ClassicHGS(ComplexDriver):
         self.max_level = max_level
         self.max_sprouts_no = max_sprouts_no
         self.sproutiveness = sproutiveness
-        self.min_progress_ratio = min_progress_ratio
+        # lowered on revival, the configuration is shared
+        self.min_progress_ratio = list(min_progress_ratio)
 
         self.mutation_etas = mutation_etas
         self.mutation_rates = mutation_rates
diff --git a/algorithms/HGS/distributed/DistributedHGS.py b/algorithms/HGS/distributed/DistributedHGS.py
index 425a2de..f68efa4 100644
--- a/algorithms/HGS/distributed/DistributedHGS.py
+++ b/algorithms/HGS/distributed/DistributedHGS.py
@@ -64,7 +64,8 @@ class DistributedHGS(ComplexDriver):
         self.hgs_config.max_level = max_level
         self.hgs_config.max_sprouts_no = max_sprouts_no
         self.hgs_config.sproutiveness = sproutiveness
-        self.hgs_config.min_progress_ratio = min_progress_ratio
+        # lowered on revival, the configuration is shared
+        self.hgs_config.min_progress_ratio = list(min_progress_ratio)
 
         self.hgs_config.mutation_etas = mutation_etas
         self.hgs_config.mutation_rates = mutation_rates
-- 
2.43.0


From 11586c01a4f03230c26a68fc7430b48be63f0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 32/45] fix: IBEA prefers the fitter of two parents

---
 algorithms/IBEA/IBEA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/IBEA/IBEA.py b/algorithms/IBEA/IBEA.py
index 3148781..48bc146 100644
--- a/algorithms/IBEA/IBEA.py
+++ b/algorithms/IBEA/IBEA.py
@@ -138,9 +138,9 @@ class IBEA(Driver):
     def _mating_selection(self, p):
         coin = lambda: random.random() < p
         better = (
-            lambda x1, x2: self.fitness[x1] < self.fitness[x2] and x1 or x2
+            lambda x1, x2: self.fitness[x1] > self.fitness[x2] and x1 or x2
             if coin()
-            else self.fitness[x1] > self.fitness[x2] and x1 or x2
+            else self.fitness[x1] < self.fitness[x2] and x1 or x2
         )
         self.mating_individuals = [
             better(random.choice(self.individuals), random.choice(self.individuals))
-- 
2.43.0


From 172f95ca61a4041eef5688765b049a1bba6e753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 33/45] fix: OMOPSO mutates its swarm

---
 algorithms/OMOPSO/OMOPSO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 5a49c32..9c8e930 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -163,7 +163,8 @@ class OMOPSO(Driver):
         uniform_mutation = UniformMutation(
             self.mutation_probability, self.mutation_perturbation, self.dims
         )
-        map(uniform_mutation, self.individuals[0:pop_part])
+        for p in self.individuals[0:pop_part]:
+            uniform_mutation(p)
 
         if evolution_progress:
             non_uniform_mutation = NonUniformMutation(
@@ -172,7 +173,8 @@ class OMOPSO(Driver):
                 self.mutation_perturbation,
                 self.dims,
             )
-            map(non_uniform_mutation, self.individuals[pop_part : 2 * pop_part])
+            for p in self.individuals[pop_part : 2 * pop_part]:
+                non_uniform_mutation(p)
 
 
 class Mutation(object):
-- 
2.43.0


From 30efb8209aef9ec2c00fc693bef0c634efcd56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 34/45] fix: OMOPSO keeps and follows the least crowded leaders

---
 algorithms/OMOPSO/OMOPSO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 9c8e930..21ef9f2 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -231,7 +231,7 @@ class CrowdingTournament:
 
     def __call__(self, pool):
         sub_pool = random.sample(pool.archive, self.tournament_size)
-        return min(sub_pool, key=lambda x: x.crowd_val)
+        return max(sub_pool, key=lambda x: x.crowd_val)
 
 
 class Individual:
@@ -308,7 +308,7 @@ class LeaderArchive(Archive):
 
     def prune(self):
         self.crowding()
-        worst_res = max(self.archive, key=lambda x: x.crowd_val)
+        worst_res = min(self.archive, key=lambda x: x.crowd_val)
         self.archive.remove(worst_res)
 
     def crowding(self):
-- 
2.43.0


From 1a2dc44f03fbc413f4156aa8ff90cb72fdd96c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 35/45] fix: SPEA2 truncation settles ties by the farther
 neighbours

---
 algorithms/SPEA2/SPEA2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index f90c7e5..424a8ef 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -185,7 +185,7 @@ class SPEA2(Driver):
         return self.get_min(distances, 0)[0]
 
     def get_min(self, distances, level):
-        if level >= len(distances):
+        if level >= len(distances[0][1]):
             return distances[0]
 
         sorted_distances = sorted(distances, key=lambda dist: dist[1][level][1])
-- 
2.43.0


From 3da8ac4b8c21065e5dbbb97fd7a59cdf8bbb7603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 36/45] fix: NSLS completes the population with the extremes
 only, then by distance

---
 algorithms/NSLS/NSLS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algorithms/NSLS/NSLS.py b/algorithms/NSLS/NSLS.py
index 83fbe39..c7b5d34 100644
--- a/algorithms/NSLS/NSLS.py
+++ b/algorithms/NSLS/NSLS.py
@@ -188,10 +188,10 @@ class NSLS(Driver):
                 if obj > max_obj:
                     max_obj = obj
                     max_ind = ind
-                if min_ind not in additional:
-                    additional.append(min_ind)
-                if max_ind not in additional:
-                    additional.append(max_ind)
+            if min_ind not in additional:
+                additional.append(min_ind)
+            if max_ind not in additional:
+                additional.append(max_ind)
 
         if len(additional) > to_select:
             additional = random.sample(additional, to_select)
-- 
2.43.0


From 63b14ab0c1097a0012a4c8055edf081c7d700469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 37/45] fix: split_front keeps the last group of a front
 without gaps

---
 evotools/ea_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evotools/ea_utils.py b/evotools/ea_utils.py
index 9c59c9a..83f35f6 100644
--- a/evotools/ea_utils.py
+++ b/evotools/ea_utils.py
@@ -96,7 +96,7 @@ def split_front(pareto_front, epsilon):
             group.append((x, y))
         prev_x = x
 
-    if groups[-1] != group:
+    if group:
         groups.append(group)
 
     print(groups)
-- 
2.43.0


From cb26b2c8ef1903887525db4e661b86a213f5385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 38/45] fix: no results for a budget means no acceptable result

---
 statistic/stats_bootstrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/statistic/stats_bootstrap.py b/statistic/stats_bootstrap.py
index 1c27593..e91a85c 100644
--- a/statistic/stats_bootstrap.py
+++ b/statistic/stats_bootstrap.py
@@ -15,6 +15,8 @@ def validate_cost(result, boot_size, delta=500):
 
 
 def find_acceptable_result_for_budget(results, boot_size):
+    if not results:
+        return None
     delta = 500
     prev_budget = results[-1]["budget"]
     for result in reversed(results):
-- 
2.43.0


From 07fa8ff1692848a8e9f3bb422b31aaa72af0b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 39/45] fix: plotting skips algorithms outside the configured
 groups

---
 plots/pictures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index aaf71b1..393403b 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -512,7 +512,7 @@ def pictures_from_stats(args):
 
                             keys = [
                                 (problem_name, algo_name, metric_name, group)
-                                for group in algos_groups[algo_name]
+                                for group in algos_groups.get(algo_name, ())
                             ]
                             value = (budget, budget_err, score, score_err)
                             print("PLOT: " + str(value))
@@ -554,7 +554,7 @@ def pictures_time(args):
 
                             keys = [
                                 (problem_name, algo_name, metric_name, group)
-                                for group in algos_groups[algo_name]
+                                for group in algos_groups.get(algo_name, ())
                             ]
                             value = (time, 0, score, score_err)
                             for key in keys:
-- 
2.43.0


From aa0b529bba3ed5938d5dc03fdc85bd99a2ffff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 40/45] fix: the time axis spans every series

---
 plots/pictures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index 393403b..5d2c0e8 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -559,7 +559,7 @@ def pictures_time(args):
                             value = (time, 0, score, score_err)
                             for key in keys:
                                 plot_data[key].append(value)
-    max_time = max(list(plot_data.values())[0])[0]
+    max_time = max((v[0] for values in plot_data.values() for v in values), default=0)
     plot_results(plot_data, plots_dir, (0, max_time))
 
 
-- 
2.43.0


From e5efd07d4d8cb842e1d314d09d747f82e4681555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 41/45] fix: the summary labels problems outside the configured
 order

---
 plots/pictures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plots/pictures.py b/plots/pictures.py
index 5d2c0e8..f3f0b12 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -571,6 +571,7 @@ def plot_results_summary(problems, scoring, selected, plots_dir):
         plt.title(metric_name)
         x_axis = range(len(problems))
         problem_labels = [p for p in problems_order if p in problems]
+        problem_labels += sorted(p for p in problems if p not in problems_order)
         plt.xticks(x_axis, problem_labels)
 
         if metric_name == "hypervolume":
-- 
2.43.0


From 89bf40dd1fa4b07698bd49e691372be98bc14f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 42/45] fix: the summary skips problems without an acceptable
 result

---
 plots/pictures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index f3f0b12..890f7cd 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -656,7 +656,7 @@ def pictures_summary(args):
                 else:
                     print("{}, {}, NO BUDGET".format(problem_name, algo_name))
 
-            for metric_name in scoring:
+            for metric_name in problem_score:
                 if metric_name != "pdi":
 
                     max_score = (
-- 
2.43.0


From 4c0d36491859627f4381a515f4d6aeb14484ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 43/45] fix: statistics reads the results directory it is given

---
 statistic/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index 62a450c..cace502 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -83,7 +83,7 @@ def statistics(args):
 
     with close_and_join(multiprocessing.Pool(min(int(args["-j"]), 8))) as p:
         for problem_name, problem_mod, algorithms in serialization.each_result(
-            BudgetResultsExtractor()
+            BudgetResultsExtractor(), args["--dir"]
         ):
             for algo_name, budgets in algorithms:
                 header_just_printed = print_header()
-- 
2.43.0


From c1c3485cc37027db6fa9268f08a2ad0783b04eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 44/45] =?UTF-8?q?fix:=20statistics=20marks=20and=20counts?=
 =?UTF-8?q?=20the=20values=20out=20of=20mean=C2=B13=CF=83?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 statistic/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index cace502..a456303 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -143,7 +143,7 @@ def statistics(args):
                                     [
                                         x
                                         for x in data_process
-                                        if lower_process <= x <= upper_process
+                                        if not lower_process <= x <= upper_process
                                     ]
                                 )
                                 print(
@@ -185,7 +185,7 @@ def statistics(args):
                                         "{err_prefix}:: {0:>30.20}  = avg {1:<+30} = avg {3:+8.3f}% ⨉ σ | {2:17} {4:17} {5:17}\n".format(
                                             x,
                                             x - mean_process,
-                                            (lower_process <= x <= upper_process)
+                                            (not lower_process <= x <= upper_process)
                                             and "(out of mean±3σ)"
                                             or "",
                                             aux(x),
-- 
2.43.0


From 4285fb3d6b4331937485ec9666f33f53d7f5ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 45/45] fix: random search keeps the archive member that
 dominates a new draw

---
 algorithms/BOGO/BOGO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/BOGO/BOGO.py b/algorithms/BOGO/BOGO.py
index a46d123..c65e635 100644
--- a/algorithms/BOGO/BOGO.py
+++ b/algorithms/BOGO/BOGO.py
@@ -38,6 +38,7 @@ class BOGO(Driver):
         for archival in self.archive:
             if not individual_dominated and dominates(archival.fit, individual.fit):
                 individual_dominated = True
+                new_archive.append(archival)
             elif not dominates(individual.fit, archival.fit):
                 new_archive.append(archival)
         if not individual_dominated:
-- 
2.43.0

