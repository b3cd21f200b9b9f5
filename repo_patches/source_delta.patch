From 0ae23734659f458b6767d7ce61f42c475a781ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:57 +0000
Subject: [PATCH 01/19] fix: build_from_edges refuses a second relation between
 the same endpoints

---
 Python/research/scripts/relnet/sample_graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index cd4e8e3..2f4bb45 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -141,6 +141,8 @@ class SampleGraphBuilder:
             self.validate_endpoints(endpoints)
             nodes = {self._components_provider.get_node(var, val) for var, val in endpoints}
             edge = self._components_provider.get_edge(frozenset(nodes), relation)
+            assert edge.endpoints not in self._endpoints or self._endpoints[edge.endpoints] == edge, \
+                f"[SampleGraphBuilder.build_from_edges] Endpoints of edge {edge} already linked with another relation"
             self._edges.add(edge)
             self._endpoints[edge.endpoints] = edge
             self._nodes.update(nodes)
-- 
2.43.0


From bbd68bf765eec6f5ec9a4e111b3f23dc03d86c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:24 +0000
Subject: [PATCH 02/19] fix: can_join_samples compares values of variables
 shared by any two samples

---
 Python/research/scripts/relnet/sample_set.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index c83f684..57499e5 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -170,15 +170,11 @@ class SampleSet(Samples):
 
     def can_join_samples(self) -> bool:
         """
-        Will join all contained samples to get new one which include all nodes and edges.
-        In case there is conflicting (same endpoint but different relation) AssertionError will be raise.
-        In case result sample graph will not connected AssertionError will be raise.
-        :return: (new_sample, list_of_counts)
+        Check if contained samples can be joined, i.e. there is no two samples
+        which contain different values for the same variable.
+        :return: True if there is no conflicting values, False otherwise
         """
-        for var in frozenset.intersection(*[s.included_variables for s in self.samples()]):
-            if len({s.value_for_variable(var) for s in self.samples()}) > 1:
-                return False
-        return True
+        return self.is_all_values_match()
 
     def make_joined_sample(self) -> Tuple[SampleGraph, List[int]]:
         """
-- 
2.43.0


From da21f21dffbc9bc547955308816ed87750e17a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:25 +0000
Subject: [PATCH 03/19] fix: group_intersecting keys a single node sample by
 its variable, not by the characters of its name

---
 Python/research/scripts/relnet/sample_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 57499e5..e2533e7 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -144,7 +144,7 @@ class SampleSet(Samples):
             if sample.edges:
                 key = sample.edges_endpoint_variables()
             else:
-                key = frozenset(sample.included_variables)  # Singe node graph
+                key = frozenset({sample.included_variables})  # Singe node graph
             if key in sample_acc:
                 sample_acc[key][sample] = count
             else:
-- 
2.43.0


From c5e3b67755796d9e6ebdb02fd989036351e5e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:41 +0000
Subject: [PATCH 04/19] fix: activation graph counts evidence relations only in
 outcomes which contain them

---
 Python/research/scripts/relnet/conditional_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/conditional_graph.py b/Python/research/scripts/relnet/conditional_graph.py
index 9a13e8b..01dee7b 100644
--- a/Python/research/scripts/relnet/conditional_graph.py
+++ b/Python/research/scripts/relnet/conditional_graph.py
@@ -78,7 +78,7 @@ class ConditionalGraph(SampleSpace):
             out_query_nodes = {node: (similarity * count, False) for node in external_nodes.keys()}
             in_query_nodes = {node: (1.0 * count, True) for node in self.evidence.nodes.intersection(outcome.nodes)}
             out_query_edges = {(edge, False) for rel_edges in external_nodes.values() for edge in rel_edges}
-            in_query_edges = {(edge, True) for edge in self.evidence.edges}
+            in_query_edges = {(edge, True) for edge in self.evidence.edges.intersection(outcome.edges)}
 
             assert out_query_nodes.keys().isdisjoint(in_query_nodes.keys()), \
                 f"[InferenceGraph.active_values] out_query_nodes and in_query_nodes should not intersect, seems a bug"
-- 
2.43.0


From dcf960b3f15cd159565ac34ba6c0a43c8ab6c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:41 +0000
Subject: [PATCH 05/19] fix: group_intersecting keeps samples whose links are
 the union of two other groups

---
 Python/research/scripts/relnet/sample_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index e2533e7..1c57934 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -154,7 +154,8 @@ class SampleSet(Samples):
             for k_a in sample_acc.keys():
                 for k_b in sample_acc.keys():
                     if k_a != k_b and not k_a.isdisjoint(k_b):
-                        sample_acc[k_a | k_b] = sample_acc.pop(k_a) | sample_acc.pop(k_b)
+                        joined = sample_acc.pop(k_a) | sample_acc.pop(k_b)
+                        sample_acc[k_a | k_b] = sample_acc.get(k_a | k_b, {}) | joined
                         group()
                         return
         group()
-- 
2.43.0


From bb0a4b3e634a64a220625326903fd128cb499a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 06/19] fix: a successor state has its own marks of eaten
 ghosts

---
 Python/research/scripts/demo/game.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 3950f27..0139d2c 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -381,7 +381,7 @@ class GameStateData:
             self.capsules = prevState.capsules[:]
             self.agentStates = self.copyAgentStates( prevState.agentStates )
             self.layout = prevState.layout
-            self._eaten = prevState._eaten
+            self._eaten = prevState._eaten[:]
             self.score = prevState.score
 
         self._foodEaten = None
-- 
2.43.0


From a0d72c98d8410f74ad55d6e4d5f36ba61536da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 07/19] fix: the deep copy of a finished game is finished too

---
 Python/research/scripts/demo/game.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 0139d2c..5abf49d 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -400,6 +400,8 @@ class GameStateData:
         state._foodEaten = self._foodEaten
         state._foodAdded = self._foodAdded
         state._capsuleEaten = self._capsuleEaten
+        state._lose = self._lose
+        state._win = self._win
         return state
 
     def copyAgentStates( self, agentStates ):
-- 
2.43.0


From 02ca3b45beaa9b2ccd9a52ecde198979b9a7b6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 08/19] fix: Counter.argMax works on Python 3

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index d81667f..a5a27cd 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -295,7 +295,7 @@ class Counter(dict):
         Returns the key with the highest value.
         """
         if len(self.keys()) == 0: return None
-        all = self.items()
+        all = list(self.items())
         values = [x[1] for x in all]
         maxIndex = values.index(max(values))
         return all[maxIndex][0]
-- 
2.43.0


From 6074fc655dd4b8809f893b581933b5c0d2cc5c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 09/19] fix: Counter.sortedKeys works on Python 3

---
 Python/research/scripts/demo/util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index a5a27cd..e72c5f6 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -312,9 +312,7 @@ class Counter(dict):
         >>> a.sortedKeys()
         ['second', 'third', 'first']
         """
-        sortedItems = self.items()
-        compare = lambda x, y:  sign(y[1] - x[1])
-        sortedItems.sort(cmp=compare)
+        sortedItems = sorted(self.items(), key=lambda x: x[1], reverse=True)
         return [x[0] for x in sortedItems]
 
     def totalCount(self):
-- 
2.43.0


From b7fd0c7bc49ea2ea2a1e85b39a8b0840ff605077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 10/19] fix: TimeoutFunction disarms the alarm also when the
 function raises

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index e72c5f6..6eccf5f 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -628,8 +628,8 @@ class TimeoutFunction:
             try:
                 result = self.function(*args, **keyArgs)
             finally:
+                signal.alarm(0)
                 signal.signal(signal.SIGALRM, old)
-            signal.alarm(0)
         else:
             startTime = time.time()
             result = self.function(*args, **keyArgs)
-- 
2.43.0


From fa26571d0d6e67caa509bb5693fffc76b295eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 11/19] fix: sample takes a plain dict, as
 chooseFromDistribution promises

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 6eccf5f..4c1b5e1 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -487,7 +487,7 @@ def nSample(distribution, values, n):
     return samples
 
 def sample(distribution, values = None):
-    if type(distribution) == Counter:
+    if isinstance(distribution, dict):
         items = sorted(distribution.items())
         distribution = [i[1] for i in items]
         values = [i[0] for i in items]
-- 
2.43.0


From 04673b733ccd89520f51546c92ebe7603b69257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:38 +0000
Subject: [PATCH 12/19] fix: wait_for_keys waits until a key is pressed

---
 Python/research/scripts/demo/graphicsUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/graphicsUtils.py b/Python/research/scripts/demo/graphicsUtils.py
index 22e6ae1..097b6d1 100644
--- a/Python/research/scripts/demo/graphicsUtils.py
+++ b/Python/research/scripts/demo/graphicsUtils.py
@@ -309,7 +309,7 @@ def keys_waiting():
 def wait_for_keys():
     keys = []
     while keys == []:
-        keys = keys_pressed()
+        keys = list(keys_pressed())
         sleep(0.05)
     return keys
 
-- 
2.43.0


From b4e99bbbee26ae80f4476e369a12a36fdccecd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 13/19] fix: updateDistributions colours every cell, not only
 the first

---
 Python/research/scripts/demo/graphicsDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/graphicsDisplay.py b/Python/research/scripts/demo/graphicsDisplay.py
index bd53e9a..5c5716f 100644
--- a/Python/research/scripts/demo/graphicsDisplay.py
+++ b/Python/research/scripts/demo/graphicsDisplay.py
@@ -589,7 +589,7 @@ class PacmanGraphics:
     def updateDistributions(self, distributions):
         "Draws an agent's belief distributions"
         # copy all distributions so we don't change their state
-        distributions = map(lambda x: x.copy(), distributions)
+        distributions = list(map(lambda x: x.copy(), distributions))
         if self.distributionImages == None:
             self.drawDistributions(self.previousState)
         for x in range(len(self.distributionImages)):
-- 
2.43.0


From 49c4be86d6407da68bd98786bf818301ac82004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 14/19] fix: InfoPane.setTeam does not hide the text function

---
 Python/research/scripts/demo/graphicsDisplay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/demo/graphicsDisplay.py b/Python/research/scripts/demo/graphicsDisplay.py
index 5c5716f..58ceac5 100644
--- a/Python/research/scripts/demo/graphicsDisplay.py
+++ b/Python/research/scripts/demo/graphicsDisplay.py
@@ -122,9 +122,9 @@ class InfoPane:
         changeText(self.scoreText, "SCORE: % 4d" % score)
 
     def setTeam(self, isBlue):
-        text = "RED TEAM"
-        if isBlue: text = "BLUE TEAM"
-        self.teamText = text( self.toScreen(300, 0  ), self.textColor, text, "Times", self.fontSize, "bold")
+        team = "RED TEAM"
+        if isBlue: team = "BLUE TEAM"
+        self.teamText = text( self.toScreen(300, 0  ), self.textColor, team, "Times", self.fontSize, "bold")
 
     def updateGhostDistances(self, distances):
         if len(distances) == 0: return
-- 
2.43.0


From 2409289f12efd1c5c95ac09289742b14197795d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:27 +0000
Subject: [PATCH 15/19] fix: lookup finds names in the modules of the namespace

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 4c1b5e1..1c26d50 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -581,7 +581,7 @@ def lookup(name, namespace):
         module = __import__(moduleName)
         return getattr(module, objName)
     else:
-        modules = [obj for obj in namespace.values() if str(type(obj)) == "<type 'module'>"]
+        modules = [obj for obj in namespace.values() if str(type(obj)) == "<class 'module'>"]
         options = [getattr(module, name) for module in modules if name in dir(module)]
         options += [obj[1] for obj in namespace.items() if obj[0] == name ]
         if len(options) == 1: return options[0]
-- 
2.43.0


From e429566e941165f1a0f89c921772912fdac19a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:27 +0000
Subject: [PATCH 16/19] fix: lookup of a name in a module of a package

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 1c26d50..f6555b9 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -578,7 +578,7 @@ def lookup(name, namespace):
     dots = name.count('.')
     if dots > 0:
         moduleName, objName = '.'.join(name.split('.')[:-1]), name.split('.')[-1]
-        module = __import__(moduleName)
+        module = __import__(moduleName, fromlist=[objName])
         return getattr(module, objName)
     else:
         modules = [obj for obj in namespace.values() if str(type(obj)) == "<class 'module'>"]
-- 
2.43.0


From 24eb9a1f55ba8e05fc3aa0baa5d93c27c1208496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:27 +0000
Subject: [PATCH 17/19] fix: arrayInvert of a matrix which is not square

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index f6555b9..0e5c1f4 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -552,7 +552,7 @@ def arrayInvert(array):
     """
     Inverts a matrix stored as a list of lists.
     """
-    result = [[] for i in array]
+    result = [[] for i in array[0]] if array else []
     for outer in array:
         for inner in range(len(outer)):
             result[inner].append(outer[inner])
-- 
2.43.0


From d17d56ca23e60dc48ecdd24d225de2e36b2767f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:11 +0000
Subject: [PATCH 18/19] fix: visualize_outcomes keeps outcomes apart when there
 are more than ten

---
 Python/research/scripts/relnet/sample_space.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_space.py b/Python/research/scripts/relnet/sample_space.py
index 70cf7a4..25c4b04 100644
--- a/Python/research/scripts/relnet/sample_space.py
+++ b/Python/research/scripts/relnet/sample_space.py
@@ -206,14 +206,14 @@ class SampleSpace:
         for i, (outcome, count) in enumerate(self.outcomes.items()):
             node_list = list(outcome.nodes)
             head_node = node_list[0]
-            net.add_node(head_node.string_id + str(i), label=f"{head_node.string_id}@{outcome.name}({count})")
+            net.add_node(f"{head_node.string_id}_{i}", label=f"{head_node.string_id}@{outcome.name}({count})")
 
             for node in node_list[1:]:
-                net.add_node(node.string_id + str(i), label=node.string_id)
+                net.add_node(f"{node.string_id}_{i}", label=node.string_id)
 
             for edge in outcome.edges:
                 ep = list(edge.endpoints)
-                net.add_edge(ep[0].string_id + str(i), ep[1].string_id + str(i), label=str(edge.relation))
+                net.add_edge(f"{ep[0].string_id}_{i}", f"{ep[1].string_id}_{i}", label=str(edge.relation))
 
         if self._evidence:
             for node in self._evidence.nodes:
-- 
2.43.0


From d157ac477be96b42b650b3e7d679f80ed41d906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:12 +0000
Subject: [PATCH 19/19] fix: visualize_outcomes of an empty outcome

---
 Python/research/scripts/relnet/sample_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_space.py b/Python/research/scripts/relnet/sample_space.py
index 25c4b04..0723e6e 100644
--- a/Python/research/scripts/relnet/sample_space.py
+++ b/Python/research/scripts/relnet/sample_space.py
@@ -205,8 +205,8 @@ class SampleSpace:
 
         for i, (outcome, count) in enumerate(self.outcomes.items()):
             node_list = list(outcome.nodes)
-            head_node = node_list[0]
-            net.add_node(f"{head_node.string_id}_{i}", label=f"{head_node.string_id}@{outcome.name}({count})")
+            head_id = node_list[0].string_id if node_list else ""
+            net.add_node(f"{head_id}_{i}", label=f"{head_id}@{outcome.name}({count})")
 
             for node in node_list[1:]:
                 net.add_node(f"{node.string_id}_{i}", label=node.string_id)
-- 
2.43.0

