From 8b8d8a5de6c7dc16167c96937045a524bdf6486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:25 +0000
Subject: [PATCH 01/46] fix: graph equality must not depend on removed
 transitions

---
 task_models/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 6c7866e..98d4af6 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -99,7 +99,8 @@ class BaseGraph(object):
 
     def __eq__(self, other):
         return (isinstance(other, BaseGraph) and
-                self.transitions == other.transitions)
+                (set(self.all_transitions()) ==
+                 set(other.all_transitions())))
 
     def add_transition(self, source, label, destination):
         if source not in self.transitions:
-- 
2.43.0


From 3a4b812d6fffd2bf49b2321fe6a9b4e80eb7a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:49 +0000
Subject: [PATCH 02/46] fix: conjugate task graphs having states without
 outgoing transition

---
 task_models/task.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index 98d4af6..e39e3b4 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -242,7 +242,7 @@ class ConjugateTaskGraph(BaseGraph):
         tg.check_only_deterministic_transitions()
         # Add transitions of the form: initial --(s_init)--> a
         for s in tg.initial:
-            for (a, _) in tg.transitions[s]:
+            for (a, _) in tg.transitions.get(s, ()):
                 ctg.add_transition(ctg.initial, s, a)
         for outgoings in tg.transitions.values():  # Whatever origin state
             for (a, next_state) in outgoings:
@@ -251,7 +251,8 @@ class ConjugateTaskGraph(BaseGraph):
                     ctg.add_transition(a, next_state, ctg.terminal)
                 else:
                     # Look ahead...
-                    for (next_action, _) in tg.transitions[next_state]:
+                    for (next_action, _) in tg.transitions.get(
+                            next_state, ()):
                         # ...and add transitions of the form: a --(s')--> a'
                         ctg.add_transition(a, next_state, next_action)
         return ctg
-- 
2.43.0


From 1e7daba68aef3bd043d0a22e60bcb6a664ad5194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:51 +0000
Subject: [PATCH 03/46] fix: chain search must terminate and not repeat chains
 on cyclic or empty graphs

---
 task_models/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index e39e3b4..0100633 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -272,6 +272,7 @@ class ConjugateTaskGraph(BaseGraph):
         """
         in_degree = {}
         unique_transitions = {n: set() for n in self.all_nodes()}
+        unique_transitions.setdefault(self.initial, set())
         for (s, l, d) in self.all_transitions():
             if d not in unique_transitions[s]:
                 in_degree[d] = in_degree.get(d, 0) + 1
@@ -304,7 +305,8 @@ class ConjugateTaskGraph(BaseGraph):
                         done = True
                         explore_successors(next_node)
                 else:
-                    to_explore.add(next_node)
+                    if next_node not in explored:
+                        to_explore.add(next_node)
                     done = True
                 if done:
                     if len(chain) > 1:
-- 
2.43.0


From 5f3be0cd0b866c21a8620d38267460f3623cfa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:35 +0000
Subject: [PATCH 04/46] fix: comparing pre/post-condition actions with other
 actions must not raise

---
 task_models/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/action.py b/task_models/action.py
index 40e3fd2..819b33c 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -86,7 +86,7 @@ class PrePostConditionAction(Action):
         return hash((self.pre, self.post))
 
     def __eq__(self, other):
-        return (isinstance(other, Action) and
+        return (isinstance(other, PrePostConditionAction) and
                 self.pre == other.pre and
                 self.post == other.post)
 
-- 
2.43.0


From 2eeb9806e32b223a063c5ba7ee6084a7777d7380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:37 +0000
Subject: [PATCH 05/46] fix: repeated actions must not hide cliques

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 0100633..5ae7f89 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -322,7 +322,7 @@ class ConjugateTaskGraph(BaseGraph):
         unique = set((s, d) for (s, _, d) in self.all_transitions())
         symmetric = {n: set() for n in self.all_nodes()}
         for s, d in unique:
-            if (d, s) in unique:
+            if s != d and (d, s) in unique:
                 symmetric[s].add(d)
                 symmetric[d].add(s)
         return max_cliques(symmetric)
-- 
2.43.0


From 636c556e9802e383b0984beca6e031a5dcc46a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:30 +0000
Subject: [PATCH 06/46] fix: meta-action kinds must map to combination classes

---
 task_models/task.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 5ae7f89..4a26d9d 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -362,7 +362,7 @@ class MetaAction(AbstractAction):
         children = [
             a.to_combination() if isinstance(a, MetaAction) else LeafCombination(a)
             for a in self.actions]
-        return COMBINATION_CLASSES[self.kind](children)
+        return META_ACTION_CLASSES[self.kind](children)
 
     @classmethod
     def _name(cls, kind, actions):
@@ -610,3 +610,9 @@ COMBINATION_CLASSES = {'Sequential': SequentialCombination,
                        'Parallel': ParallelCombination,
                        'Alternative': AlternativeCombination,
                        }
+
+# Combinations for the kinds of meta-actions
+META_ACTION_CLASSES = {'sequence': SequentialCombination,
+                       'parallel': ParallelCombination,
+                       'alternative': AlternativeCombination,
+                       }
-- 
2.43.0


From 22ec84c4562ef105c64e33e62ef4760631a737f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:45 +0000
Subject: [PATCH 07/46] fix: vector states must be comparable and hash
 independently of dtype

---
 task_models/state.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/task_models/state.py b/task_models/state.py
index af9bb40..fb1808f 100644
--- a/task_models/state.py
+++ b/task_models/state.py
@@ -7,6 +7,9 @@ that yield a feature vector from the state.
 """
 
 
+import numpy as np
+
+
 class State(object):
     """Any kind of state. Must be hashable and are immutable.
 
@@ -32,7 +35,12 @@ class NDimensionalState(State):
         self.features = vector
 
     def __hash__(self):
-        return hash(self.features.tostring())
+        # Note: equal integers and floats have equal hashes
+        return hash(tuple(np.ravel(self.features).tolist()))
+
+    def __eq__(self, other):
+        return (isinstance(other, NDimensionalState) and
+                np.array_equal(self.features, other.features))
 
     @property
     def n_dim(self):
-- 
2.43.0


From e3b30644bedf9b490e484178428448537146c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:46 +0000
Subject: [PATCH 08/46] fix: equal conditions must have equal hashes whatever
 their dtype

---
 task_models/action.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/action.py b/task_models/action.py
index 819b33c..3331ed3 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -24,7 +24,9 @@ class Condition(object):
         self.value = value
 
     def __hash__(self):
-        return hash((self.mask.tostring(), self.value.tostring()))
+        # Note: equal integers and floats have equal hashes
+        return hash((tuple(np.ravel(self.mask).tolist()),
+                     tuple(np.ravel(self.value).tolist())))
 
     def __eq__(self, other):
         return (isinstance(other, Condition) and
-- 
2.43.0


From 2f6d553fe263a30bf5c519f9b242d548b2e23488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:48 +0000
Subject: [PATCH 09/46] fix: beliefs must hash independently of dtype and
 compare whatever their sizes

---
 task_models/lib/belief.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/belief.py b/task_models/lib/belief.py
index 0e43555..bc82e58 100644
--- a/task_models/lib/belief.py
+++ b/task_models/lib/belief.py
@@ -22,11 +22,12 @@ class ArrayBelief(BaseBelief):
         assert_normal(self.array, name='probabilities')
 
     def __hash__(self):
-        return hash(self.array.tostring())
+        # Note: equal integers and floats have equal hashes
+        return hash(tuple(self.array.tolist()))
 
     def __eq__(self, other):
         return (isinstance(other, ArrayBelief) and
-                (self.array == other.array).all())
+                np.array_equal(self.array, other.array))
 
     def sample(self):
         return np.random.choice(self.array.shape[0], p=self.array)
-- 
2.43.0


From cc731521a051a0a813ad662450b3c988ee6155df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:50 +0000
Subject: [PATCH 10/46] fix: equal board states must have equal hashes whatever
 the order of parts

---
 task_models/snap_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/snap_circuit.py b/task_models/snap_circuit.py
index 3b120c6..77ea460 100644
--- a/task_models/snap_circuit.py
+++ b/task_models/snap_circuit.py
@@ -48,7 +48,7 @@ class SnapCircuitState(State):
         self._parts = set(parts)
 
     def __hash__(self):
-        return hash((self._shape, tuple(self.parts)))
+        return hash((self._shape, frozenset(self._parts)))
 
     def __eq__(self, other):
         return (isinstance(other, SnapCircuitState) and
-- 
2.43.0


From 492d26c455263e3d77137cd3bf86c9470dfff0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:52 +0000
Subject: [PATCH 11/46] fix: equal meta-actions over sets must have equal
 hashes

---
 task_models/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 4a26d9d..930446e 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -348,7 +348,8 @@ class MetaAction(AbstractAction):
                 self.actions == other.actions)
 
     def __hash__(self):
-        return hash(self.name)
+        # Note: name depends on iteration order when actions are a set
+        return hash((self.kind, frozenset(self.actions)))
         # Needs to re-implement __hash__ despite inheritence (see following
         # from datamodels doc).
         # A class that overrides __eq__() and does not define __hash__() will
-- 
2.43.0


From 576f9473b16fad24f9ab9a0ea8bbd3c4d71b99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:54 +0000
Subject: [PATCH 12/46] fix: alternatives must keep the probabilities given at
 construction

---
 task_models/task.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 930446e..6667788 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -478,7 +478,6 @@ class AlternativeCombination(Combination):
 
     def __init__(self, children, **xargs):
         super(AlternativeCombination, self).__init__(children, **xargs)
-        self.proba = None
 
     @property
     def proba(self):
-- 
2.43.0


From 99db32484190384140d3dfdec04c060a9f8af639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:55 +0000
Subject: [PATCH 13/46] fix: copies of actions must keep their class and data

---
 task_models/action.py | 7 +++++++
 task_models/task.py   | 3 ---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/task_models/action.py b/task_models/action.py
index 3331ed3..e14a03a 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -8,6 +8,8 @@ simultaneously satisfied.
 """
 
 
+from copy import copy
+
 import numpy as np
 
 
@@ -67,6 +69,11 @@ class Action(object):
     def __str__(self):
         return self.name
 
+    def copy(self, rename_format='{}'):
+        new = copy(self)
+        new.name = rename_format.format(self.name)
+        return new
+
     def check(self, before, after):
         """Checks whether the action can explain a transition from the before
         and after states.
diff --git a/task_models/task.py b/task_models/task.py
index 6667788..98f6736 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -227,9 +227,6 @@ class AbstractAction(Action):
     def check(self, pre, post):
         return True
 
-    def copy(self, rename_format='{}'):
-        return AbstractAction(rename_format.format(self.name))
-
 
 class ConjugateTaskGraph(BaseGraph):
 
-- 
2.43.0


From 7f48235da657e119742f4d0db978fa51b80a939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:19 +0000
Subject: [PATCH 14/46] fix: load JSON tasks having highlighted nodes or leaves
 without agent

---
 task_models/json_to_htm.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/task_models/json_to_htm.py b/task_models/json_to_htm.py
index 0efbf1a..d2127fc 100644
--- a/task_models/json_to_htm.py
+++ b/task_models/json_to_htm.py
@@ -14,10 +14,14 @@ def build_htm(node):
     idx = node['id']
     parent = node['parent']
 
-    # Base case, if no children than node is an action
-    if node['attributes']:
-        agent = [a for a in node['attributes'] if not a == 'highlighted']
-        return LeafCombination(Action(name=name, agent=agent[0]), idx=idx, parent=parent)
+    agent = [a for a in node['attributes'] if not a == 'highlighted']
+    highlighted = 'highlighted' in node['attributes']
+
+    # Base case, if no combination than node is an action
+    if combination is None:
+        action = Action(name=name, agent=agent[0]) if agent else Action(name=name)
+        return LeafCombination(action, idx=idx, parent=parent,
+                               highlighted=highlighted)
 
     children = []
     for c in node['children']:
@@ -25,7 +29,8 @@ def build_htm(node):
         children.append(build_htm(c))
 
     # Will wrap subtree in a combination depending on combination attribute
-    return COMBINATION_CLASSES[combination](children, name=name, idx=idx, parent=parent)
+    return COMBINATION_CLASSES[combination](children, name=name, idx=idx, parent=parent,
+                                            highlighted=highlighted)
 
 
 def json_to_htm(json_path):
-- 
2.43.0


From 355f0758faaf5f2db46db00388ee7844c73cc1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:23 +0000
Subject: [PATCH 15/46] fix: comparing conditions with match-all conditions
 must not raise

---
 task_models/action.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/task_models/action.py b/task_models/action.py
index e14a03a..f907e48 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -32,6 +32,7 @@ class Condition(object):
 
     def __eq__(self, other):
         return (isinstance(other, Condition) and
+                not isinstance(other, MatchAllCondition) and
                 np.array_equal(self.mask, other.mask) and
                 np.array_equal(self.value, other.value))
 
-- 
2.43.0


From c3ea81c14f9d44f543525ca93b36c9577a81edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:24 +0000
Subject: [PATCH 16/46] fix: actions never equal meta-actions of same name,
 from either side

---
 task_models/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 98f6736..fcf2709 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -222,7 +222,9 @@ class AbstractAction(Action):
         return hash(self.name)
 
     def __eq__(self, other):
-        return isinstance(other, AbstractAction) and self.name == other.name
+        return (isinstance(other, AbstractAction) and
+                not isinstance(other, MetaAction) and
+                self.name == other.name)
 
     def check(self, pre, post):
         return True
-- 
2.43.0


From 9449275a7dc90d8ddeb6a2541cb7ff3ca2b7e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:35 +0000
Subject: [PATCH 17/46] fix: refuse negative initial nodes of graph policies

---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 338e83d..a6af50a 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -389,7 +389,7 @@ class GraphPolicy:
         assert(self.transitions.shape == (self.n_nodes, len(observations)))
         self.values = np.asarray(values)
         if init is not None:
-            assert(init < self.n_nodes)
+            assert(0 <= init < self.n_nodes)
             self.init = init
         elif start is not None:
             self.init = self.get_node_from_belief(start)
-- 
2.43.0


From fbc1e930e53b967e295244208d8b242c8c72bf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:48 +0000
Subject: [PATCH 18/46] fix: validate targets of loaded policy graphs, accept
 graphs without transitions

---
 task_models/lib/pomdp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index a6af50a..a527d56 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -371,9 +371,10 @@ class POMDP:
         with open(policy_graph_file, 'r') as pf:
             actions2, pg = parse_policy_graph(pf)
         assert(actions == actions2)  # policy and value function share actions
-        assert(max(actions) < len(self.actions))  # actions are well-formed
-        assert(max([t for ts in pg for t in ts if t is not None]) <= len(pg))
-        # (transitions are well-formed)
+        # actions are well-formed
+        assert(all(0 <= a < len(self.actions) for a in actions))
+        # transitions are well-formed
+        assert(all(0 <= t < len(pg) for ts in pg for t in ts if t is not None))
         action_names = [self.actions[a] for a in actions]
         return GraphPolicy(action_names, self.observations, pg, vf,
                            start=self.start)
-- 
2.43.0


From 1b363a38760234ad9936780848f5655989468aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:58 +0000
Subject: [PATCH 19/46] fix: skip blank lines of policy graphs

---
 task_models/lib/pomdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index a527d56..9b8708d 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -44,13 +44,13 @@ def parse_value_function(reader):
 def parse_policy_graph(reader):
     actions = []
     transitions = []
-    for i, line in enumerate(reader):
+    for line in reader:
         line = line.rstrip('\n').rstrip()
-        if not line.isspace():
+        if line:
             # 'N A  Z1 Z2 Z3'.split(' ') -> ['N', 'A', '', 'Z1', 'Z2', 'Z3']
             l = line.split(' ')
             n = int(l[0])  # Node name
-            assert(n == i)
+            assert(n == len(actions))
             actions.append(int(l[1]))
             transitions.append([None if x == '-' else int(x) for x in l[3:]])
     return actions, transitions
-- 
2.43.0


From 090afe242e1736892a9154c74c46dae9e3851e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:15 +0000
Subject: [PATCH 20/46] fix: one trajectory tree per possible start state

---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 9b8708d..148b6f0 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -506,7 +506,7 @@ class GraphPolicyBeliefRunner(GraphPolicyRunner):
     def trajectory_trees_from_starts(self, horizon=5):
         start = self.pomdp.start
         trees = []
-        for s in start.nonzero():
+        for s in start.nonzero()[0]:
             b = np.zeros(start.shape)
             b[s] = 1.
             self.reset(belief=b)
-- 
2.43.0


From e0d1441e61fbf7d7b4609c9df0f7825a268df4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:47 +0000
Subject: [PATCH 21/46] fix: copies of finished evaluation horizons stay
 finished

---
 task_models/evaluation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index b34228f..c644e7a 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -31,7 +31,9 @@ class FinishedOrNTransitionsHorizon(NTransitionsHorizon):
         self._is_final = self.model._int_to_state(new_s).is_final()
 
     def copy(self):
-        return FinishedOrNTransitionsHorizon(self.model, self.n)
+        new = FinishedOrNTransitionsHorizon(self.model, self.n)
+        new._is_final = self._is_final
+        return new
 
     @classmethod
     def generator(cls, model, n=100):
-- 
2.43.0


From 3e6a086c5ab1e5a9b76df2525ec593beac06bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:21 +0000
Subject: [PATCH 22/46] fix: position of observations in exported search trees
 with grouped beliefs

---
 task_models/lib/pomcp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 4194f96..8033d8d 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -622,8 +622,8 @@ def export_pomcp(policy, destination, belief_as_quotient=False):
                 child = children[i]
                 d['observations'] = child['observations']
                 d['children'] = child['children']
-                for c, o in zip(d['children'], d['observations']):
-                    c['observed'] = model.observations.index(o)
+                for i, c in enumerate(d['children']):
+                    c['observed'] = i
             return d
 
         dic['graphs'] = [policy.tree.map(to_dict, join_children)]
-- 
2.43.0


From 8c51ffe52ff23022ecee1782566c38638bbdbb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:08 +0000
Subject: [PATCH 23/46] fix: export of shared search trees with grouped beliefs
 terminates

---
 task_models/lib/pomcp.py | 44 ++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 8033d8d..d46b293 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -596,37 +596,23 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 def export_pomcp(policy, destination, belief_as_quotient=False):
     model = policy.tree.model
     if belief_as_quotient:
-        dic = {}
-        FLAG = '####'
-
-        def to_dict(node):
-            if isinstance(node, _SearchObservationNode):
-                d = node.to_dict(model, as_policy=True, recursive=False)
-                d['belief'] = list(model._int_to_state().belief_quotient(
-                    np.array(d['belief'])))
-                a_i = model.actions.index(d['action'])
-                d['ACTION_IDX'] = sum([c is not None
-                                       for c in node.children[:a_i]])
-            else:
-                d = {"observations": [model.observations[o]
-                                      for o in node.children]}
-                d[FLAG] = True
-            return d
-
-        def join_children(d, children):
-            if d.get(FLAG, False):  # Action node
-                d.pop(FLAG)
-                d['children'] = children
-            else:  # Observation node
-                i = d.pop('ACTION_IDX')
-                child = children[i]
-                d['observations'] = child['observations']
-                d['children'] = child['children']
-                for i, c in enumerate(d['children']):
-                    c['observed'] = i
+        visited = set()  # nodes may be shared between histories
+
+        def to_dict(node, observed=None):
+            d = node.to_dict(model, as_policy=True, observed=observed,
+                             recursive=False)
+            d['belief'] = list(model._int_to_state().belief_quotient(
+                np.array(d['belief'])))
+            if node not in visited:
+                visited.add(node)
+                a = model.actions.index(d['action'])
+                children = node.safe_get_child(a).children
+                d['observations'] = [model.observations[o] for o in children]
+                d['children'] = [to_dict(children[o], observed=i)
+                                 for i, o in enumerate(children)]
             return d
 
-        dic['graphs'] = [policy.tree.map(to_dict, join_children)]
+        dic = {'graphs': [to_dict(policy.tree.root)]}
         dic['states'] = model.htm_names
     else:
         dic = policy.trajectory_trees_from_starts()
-- 
2.43.0


From 39502569908af28ef7a1bf3c1767529a89034860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:52 +0000
Subject: [PATCH 24/46] fix: Thread.isAlive no longer exists

---
 task_models/lib/pomcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index d46b293..5351285 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -583,7 +583,7 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 
     def stop(self):
         self.thread.stop()
-        if self.thread.isAlive():
+        if self.thread.is_alive():
             self.thread.join()
 
     def execute(self, *args, **kwargs):
-- 
2.43.0


From db6d4c2f7444a594bcebc0ccf2edacf3c0c72b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:20 +0000
Subject: [PATCH 25/46] fix: background policy honours the number of iterations

---
 task_models/lib/pomcp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 5351285..b11c779 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -577,7 +577,9 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 
     def get_action(self, iterations=None):
         # Start with minimal number of iterations to have explored all actions
-        a = self.thread.execute(super(AsyncPOMCPPolicyRunner, self).get_action)
+        a = self.thread.execute(
+            super(AsyncPOMCPPolicyRunner, self).get_action,
+            iterations=iterations)
         self.thread.execute(self.thread.set_action, self._last_action)
         return a
 
-- 
2.43.0


From 01d57b627f958e6357226b0ae2ea93b9b1eb07d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:59 +0000
Subject: [PATCH 26/46] fix: background search does not explore while the
 policy steps

---
 task_models/lib/pomcp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index b11c779..bf353f2 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -568,7 +568,9 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
         self.thread.start()
 
     def step(self, observation):
-        super(AsyncPOMCPPolicyRunner, self).step(observation)
+        # may create nodes: not while the thread explores
+        self.thread.execute(
+            super(AsyncPOMCPPolicyRunner, self).step, observation)
         self.thread.execute(self.thread.set_node, self._node)
 
     def reset(self, belief=None):
-- 
2.43.0


From 4624bc592a79fd56ed482525f7d4b7adbcf80b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:37 +0000
Subject: [PATCH 27/46] fix: do not override the internal Thread._stop

---
 task_models/lib/pomcp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index bf353f2..811bfc2 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -532,11 +532,11 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
             self._done = False
             self._lock = threading.Lock()
 
-        def _stop(self):
+        def _set_done(self):
             self._done = True
 
         def stop(self):
-            self.execute(self._stop)
+            self.execute(self._set_done)
 
         def execute(self, fun, *args, **kwargs):
             """Waits until current exploration is done and execute fun.
-- 
2.43.0


From 9df053151d9dd6959f4e8723198e5fe2c9aa0fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:24 +0000
Subject: [PATCH 28/46] fix: killed subprocesses are failures of repeated runs

---
 task_models/utils/multiprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/multiprocess.py b/task_models/utils/multiprocess.py
index 5f6ad23..b06e6e9 100644
--- a/task_models/utils/multiprocess.py
+++ b/task_models/utils/multiprocess.py
@@ -57,7 +57,7 @@ class RepeatPool:
                         for w in self.workers]
 
     def _clean_job(self, w):
-        if w.exitcode > 0:
+        if w.exitcode != 0:  # negative if killed by a signal
             raise RuntimeError("A subprocess has failed.")
         w.join()
         return None
-- 
2.43.0


From ded62cecdc2c97c9d6394ea694544fbb5cf2c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:05 +0000
Subject: [PATCH 29/46] fix: structured communication models use the existing
 telling time

---
 task_models/task_to_pomdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 8293350..9741e17 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -270,8 +270,8 @@ class _LeafToPOMDP(_NodeToPOMDP):
         R[a_phy, s_r, :, :] = self.t_rob + intr_cost
         if 'structured' in self.flags:
             R[a_ti, :, :, :] = 100
-            R[a_ti, s_i, s_h, :] = self.t_com + intr_cost
-            R[a_ti, s_i, s_r, :] = self.t_com + intr_cost
+            R[a_ti, s_i, s_h, :] = self.t_tell + intr_cost
+            R[a_ti, s_i, s_r, :] = self.t_tell + intr_cost
         if 'subtask_reward' in self.flags:
             # Value transitions to any other node
             R[:, s_start:(s_start + 3), :s_start, :] -= self.subtask_reward
-- 
2.43.0


From f52812917ba777c60e3d49de4bdf06dd4bf31c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:07 +0000
Subject: [PATCH 30/46] fix: deterministic models use the probabilities of next
 steps

---
 task_models/task_to_pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 9741e17..ba8d1de 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -201,7 +201,7 @@ class _LeafToPOMDP(_NodeToPOMDP):
         if 'deterministic' in self.flags:
             T[:, s_h, s_h] = 1.
             T[a_af, s_h, s_h] = 0.
-            T[a_af, s_h, s_next] = uniform(len(s_next))
+            T[a_af, s_h, s_next] = s_next_probas
         else:
             p_h_not_finish = self._h_probas_not_finished_from_d(
                     np.asarray(durations))
-- 
2.43.0


From bd72638fb2d75ede6dc9a7fa278fbffc16fada9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:09 +0000
Subject: [PATCH 31/46] fix: looping models with a reward state leave the
 reward state

---
 task_models/task_to_pomdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index ba8d1de..7c3005b 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -410,11 +410,11 @@ class HTMToPOMDP:
             self.flags.add('subtask_reward')
 
     def update_T_end(self, T, init):
+        if 'reward_state' in self.flags:
+            T[:, self.endr, self.end] = 1.  # go to end after reward
         if 'loop' in self.flags:
             T[:, self.end, init] = 1.  # go back to start
         else:
-            if 'reward_state' in self.flags:
-                T[:, self.endr, self.end] = 1.  # go to end after reward
             T[:, self.end, self.end] = 1.  # end stats is stable
 
     def update_O_wait(self, O):
-- 
2.43.0


From c286fc31be92d8db2354bfd1e3c93b1df97ff4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:11 +0000
Subject: [PATCH 32/46] fix: looping models go back to the start distribution

---
 task_models/task_to_pomdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 7c3005b..0384c49 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -409,11 +409,11 @@ class HTMToPOMDP:
         if subtask_reward is not None:
             self.flags.add('subtask_reward')
 
-    def update_T_end(self, T, init):
+    def update_T_end(self, T, init, start):
         if 'reward_state' in self.flags:
             T[:, self.endr, self.end] = 1.  # go to end after reward
         if 'loop' in self.flags:
-            T[:, self.end, init] = 1.  # go back to start
+            T[:, self.end, init] = start  # go back to start
         else:
             T[:, self.end, self.end] = 1.  # end stats is stable
 
@@ -450,7 +450,7 @@ class HTMToPOMDP:
         durations = [self.t_wait] + n2p.durations
         T = np.zeros((n_a, n_s, n_s))
         n2p.update_T(T, self.wait, 1, 0, [end], [1.], durations)
-        self.update_T_end(T, n2p.init)
+        self.update_T_end(T, n2p.init, n2p.start)
         O = np.zeros((n_a, n_s, n_o))
         n2p.update_O(O, 1, 0, [end], [], [end])
         self.update_O_wait(O)
-- 
2.43.0


From 2e62db4a75c952c042d27b7aa55f4f3a66f3554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:13 +0000
Subject: [PATCH 33/46] fix: looping bring-next models go back to the start
 distribution

---
 task_models/bring_next_to_pomdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/bring_next_to_pomdp.py b/task_models/bring_next_to_pomdp.py
index 4381b6f..3184ad4 100644
--- a/task_models/bring_next_to_pomdp.py
+++ b/task_models/bring_next_to_pomdp.py
@@ -203,10 +203,10 @@ class HTMToPOMDP:
         if no_answer:
             self.flags.add(NO_ANSWER)
 
-    def update_T_end(self, T, init):
+    def update_T_end(self, T, init, start):
         if LOOP in self.flags:
             # Loop on success
-            T[:, self.end, init] = 1. / len(init)
+            T[:, self.end, init] = start
         else:
             T[:, self.end, self.end] = 1.
 
@@ -241,7 +241,7 @@ class HTMToPOMDP:
         end = n_s - 1
         T = np.zeros((n_a, n_s, n_s))
         n2p.update_T(T, self, 0, [end], [1.])
-        self.update_T_end(T, n2p.init)
+        self.update_T_end(T, n2p.init, n2p.start)
         O = np.zeros((n_a, n_s, n_o))
         self.init_O(O)
         n2p.update_O(O, self, 0, [end])
-- 
2.43.0


From c555e04f84c728e30574df3555ca48717259594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:40 +0000
Subject: [PATCH 34/46] fix: copies of supportive states keep the number of
 task steps

---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 800c26e..96035a3 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -224,7 +224,7 @@ class _SupportivePOMDPState(object):
             self.set_preference(i, 1 - self.has_preference(i))
 
     def copy(self):
-        return type(self)(self.n_htm + 1, self.n_preferences,
+        return type(self)(self.n_htm, self.n_preferences,
                           self.n_body_features, self.n_objects, s=self.s)
 
 
-- 
2.43.0


From 9b191ba7f4b14d1aaa331d6ed5e3bf2ee705550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:08 +0000
Subject: [PATCH 35/46] fix: summary of several preferences on current numpy

---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 96035a3..444c4fd 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -209,7 +209,7 @@ class _SupportivePOMDPState(object):
         def sum_all_but(arr, axis):
             iii = [slice(None) for _ in arr.shape]
             iii[axis] = -1
-            return arr[iii].sum()
+            return arr[tuple(iii)].sum()
 
         return [sum_all_but(pp, i) for i, _ in enumerate(pp.shape)]
 
-- 
2.43.0


From e51ece6c467152ad766e95ad65e7e1033a37e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:25:21 +0000
Subject: [PATCH 36/46] fix: discounted return of evaluations

---
 task_models/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index c644e7a..7fb62ff 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -81,7 +81,7 @@ def simulate_one_evaluation(model, pol, max_horizon=200, logger=None,
         horizon.decrement(a, h_s[-1], s, o)
         pol.step(model.observations[o])
         h_s.append(s)
-        full_return = r + gamma * full_return
+        full_return += gamma ** (len(h_r) - 1) * r
     elapsed = get_process_elapsed_time()
     n_calls = model.n_simulator_calls - init_calls
     if logger is not None:
-- 
2.43.0


From b2698c09544254e21b0e5dd3a25509e7145716a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:44:07 +0000
Subject: [PATCH 37/46] fix: check paths of any length (no recursion per
 transition)

---
 task_models/task.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index fcf2709..478ec30 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -40,14 +40,13 @@ def check_path(path):
     """
     try:
         return (len(path) == 0 or  # Empty path
-                isinstance(path[0], State) and (
-                    len(path) == 1 or (  # [s] or [s, a, s, ...]
-                        isinstance(path[1], Action) and
-                        isinstance(path[2], State) and
-                        path[1].check(path[0], path[2]) and  # pre/post
-                        check_path(path[2:])
-                    ))
-                )
+                isinstance(path[0], State) and all(
+                    # [s] or [s, a, s, ...]
+                    isinstance(path[i], Action) and
+                    isinstance(path[i + 1], State) and
+                    path[i].check(path[i - 1], path[i + 1])  # pre/post
+                    for i in range(1, len(path), 2)
+                ))
     except IndexError:
         return False
 
-- 
2.43.0


From 2c404c0d8e92e9a639b4cc154a60d3c2630b08cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:09:03 +0000
Subject: [PATCH 38/46] fix: never-hold policy of the preference job (no setter
 for _a_next)

---
 samples/supportive_evaluation_preference_job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/supportive_evaluation_preference_job.py b/samples/supportive_evaluation_preference_job.py
index d45ef2e..1da57cd 100644
--- a/samples/supportive_evaluation_preference_job.py
+++ b/samples/supportive_evaluation_preference_job.py
@@ -33,7 +33,7 @@ class Experiment(SupportiveExperiment):
             self.policy = PolicyLongSupportiveSequence(self.model)
         elif self.parameters['policy'] == 'never-hold':
             self.policy = PolicyLongSupportiveSequence(self.model)
-            self.policy._a_next = self.policy._a_wait
+            self.policy._a_next_list = [self.policy._a_wait]
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 4ed57fa03368ed9827a47461689fc84b16792c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:09:03 +0000
Subject: [PATCH 39/46] fix: imports of moved or renamed names in sample
 scripts

---
 samples/pomcp.py          | 2 +-
 samples/supportive.py     | 2 +-
 samples/tower_scenario.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/samples/pomcp.py b/samples/pomcp.py
index 229285d..9bde2a5 100644
--- a/samples/pomcp.py
+++ b/samples/pomcp.py
@@ -3,7 +3,7 @@ import os
 import json
 from heapq import heappush, heappop
 
-from task_models.lib.pomdp import GraphPolicyBeliefRunner, POMCPPolicyRunner
+from task_models.lib.pomcp import POMCPPolicyRunner
 from task_models.task_to_pomdp import HTMToPOMDP
 from task_models.stool_scenarios import (stool_task_sequential, T_WAIT, T_ASK,
                                          T_TELL, C_INTR)
diff --git a/samples/supportive.py b/samples/supportive.py
index 93f0695..09f4fbc 100644
--- a/samples/supportive.py
+++ b/samples/supportive.py
@@ -6,7 +6,7 @@ import logging
 from task_models.task import SequentialCombination, LeafCombination
 from task_models.supportive import (SupportivePOMDP, AssembleLeg,
                                     AssembleLegToTop, NHTMHorizon)
-from task_models.lib.pomdp import POMCPPolicyRunner, export_pomcp
+from task_models.lib.pomcp import POMCPPolicyRunner, export_pomcp
 
 
 logging.getLogger().setLevel(logging.INFO)
diff --git a/samples/tower_scenario.py b/samples/tower_scenario.py
index daab940..e93de70 100644
--- a/samples/tower_scenario.py
+++ b/samples/tower_scenario.py
@@ -1,7 +1,7 @@
 import os
 
 from task_models.lib.pomdp import GraphPolicyBeliefRunner
-from task_models.bring_next_to_pomdp import task_modelsToPOMDP
+from task_models.bring_next_to_pomdp import HTMToPOMDP
 from task_models.tower_problem import TowerProblem
 
 
-- 
2.43.0


From a9c9b8770cbb214b8995f5f92438b715804deec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:09:03 +0000
Subject: [PATCH 40/46] fix: plot_var with both error bars and filled area

---
 task_models/utils/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/plot.py b/task_models/utils/plot.py
index b44a103..8a77080 100644
--- a/task_models/utils/plot.py
+++ b/task_models/utils/plot.py
@@ -104,7 +104,7 @@ def plot_var(y, x=None, color=None, var=True, var_style='fill', **kwargs):
     lines = plot_fun(x, mean, **kwargs)
     if color is None:
         color = lines[0].get_color()
-    x = lines[0].get_xdata()
+    x = lines[0].get_xdata(orig=False)
     if var and var_style in ('fill', 'both'):
         ax.fill_between(x, mean - std, mean + std, alpha=.2, linewidth=0, color=color)
     remove_chartjunk(ax, ['top', 'right'])
-- 
2.43.0


From b5c6b8084c54bf8b86eadf130482ef3f0efa0695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:09:03 +0000
Subject: [PATCH 41/46] fix: removing tick labels, of both axes

---
 task_models/utils/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/utils/plot.py b/task_models/utils/plot.py
index 8a77080..ba66bf0 100644
--- a/task_models/utils/plot.py
+++ b/task_models/utils/plot.py
@@ -208,8 +208,8 @@ def remove_chartjunk(ax, spines, grid=None, ticks=None, ticklabels=None):
     if ticklabels is not None:
         if type(ticklabels) is str:
             ticklabels = [ticklabels]
-        assert set(ticklabels) | set(('x', 'y')) > 0
+        assert set(ticklabels) <= set(('x', 'y'))
         if 'x' in ticklabels:
             ax.set_xticklabels([])
-        elif 'y' in ticklabels:
+        if 'y' in ticklabels:
             ax.set_yticklabels([])
-- 
2.43.0


From 1f247b8eec51fafa4e19232d7b25281ac9e3f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:19 +0000
Subject: [PATCH 42/46] fix: trajectories viewer, show each link with the
 observation of its own branch

The index of the link among all the links shown was used to choose the
observation in its source, which is only right for the branches of the
root when they come first.
---
 visualization/trajectories/trajectories.js | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/visualization/trajectories/trajectories.js b/visualization/trajectories/trajectories.js
index cc88747..ad8c2e0 100644
--- a/visualization/trajectories/trajectories.js
+++ b/visualization/trajectories/trajectories.js
@@ -129,16 +129,14 @@ function loadtrajectory(file)
 
     // Enter any new links at the parent's previous position.
     link.enter().insert('path', 'g')
-        .attr('class', function(d,i) {
-          console.log('Source ',d.source.observations, i, d.source.observations[i]);
-          // console.log('target ',d.target.observations, i, d.target.observations[i]);
-          return 'link ' + d.source.observations[i]; })
+        .attr('class', function(d) {
+          return 'link ' + observation(d); })
         .attr('d', function(d) {
           var o = {x: source.x0, y: source.y0};
 
           return diagonal({source: o, target: o});
         })
-        .attr('marker-end', function(d,i) { return 'url(#arrowhead_'+d.source.observations[i]+')';});
+        .attr('marker-end', function(d) { return 'url(#arrowhead_'+observation(d)+')';});
 
     // Transition links to their new position.
     link.transition()
@@ -161,6 +159,11 @@ function loadtrajectory(file)
     });
   };
 
+  // Observation leading from the source of a link to its target.
+  function observation(d) {
+    return d.source.observations[d.source.children.indexOf(d.target)];
+  }
+
   // Toggle children on click.
   function click(d) {
     if (d.children) {
-- 
2.43.0


From 9094b10bc6915584f5aeb6a3b7d4369f30897833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 43/46] fix: pomcp viewer, highlight the initial node and show
 node numbers

Since d3 v4 the exported fields are in d.data.
---
 visualization/pomcp/pomcp.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/visualization/pomcp/pomcp.js b/visualization/pomcp/pomcp.js
index 3e7149f..34b476e 100644
--- a/visualization/pomcp/pomcp.js
+++ b/visualization/pomcp/pomcp.js
@@ -149,7 +149,7 @@ function loadpomcp(file)
           });
 
     function node_class(d) {
-        return 'nodecircle' + ((d.initial) ? ' initial': '');
+        return 'nodecircle' + ((d.data.initial) ? ' initial': '');
     }
 
     nodeEnter.append('circle')
@@ -163,9 +163,9 @@ function loadpomcp(file)
         .attr('dx', function(d) { return 0;})
         .attr('dy', function(d) { return '-0.8em';})
         .attr('text-anchor', 'middle')
-        .attr('class', function(d) { if (d.initial) { return 'nodetext initial'; } return 'nodetext ';})
+        .attr('class', function(d) { if (d.data.initial) { return 'nodetext initial'; } return 'nodetext ';})
         .text(function(d) {
-          return ((d.node) ? '['+d.node+'] ' : '') + shorten_action(d.data.action);
+          return ((d.data.node != null) ? '['+d.data.node+'] ' : '') + shorten_action(d.data.action);
         });
 
     // Transition
-- 
2.43.0


From fe095e88ec1b3977dd271bbbc24d45ea208d9268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 44/46] fix: policy, trajectories and pomcp viewers, load the
 file selected

Browsers prefix the value of a file input with C:\fakepath\, as htm.js
already expects.
---
 visualization/policy/policy.js             | 3 +++
 visualization/pomcp/pomcp.js               | 3 +++
 visualization/trajectories/trajectories.js | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/visualization/policy/policy.js b/visualization/policy/policy.js
index a052db7..6f1fa45 100644
--- a/visualization/policy/policy.js
+++ b/visualization/policy/policy.js
@@ -7,6 +7,9 @@ function loadpolicy(file, errors)
 {
   if (typeof(errors)==='undefined') { errors = show_done; }
   else                              { show_done = errors; }
+  // Browsers only give a fake path for a selected file.
+  file = file.replace('C:\\fakepath\\', '');
+
   if (file == '') { file = defaultjsonfile;}
   else            { defaultjsonfile = file;};
 
diff --git a/visualization/pomcp/pomcp.js b/visualization/pomcp/pomcp.js
index 34b476e..35d5471 100644
--- a/visualization/pomcp/pomcp.js
+++ b/visualization/pomcp/pomcp.js
@@ -5,6 +5,9 @@ loadpomcp('');
 
 function loadpomcp(file)
 {
+  // Browsers only give a fake path for a selected file.
+  file = file.replace('C:\\fakepath\\', '');
+
   if (file == '') { file = defaultjsonfile;}
   else            { defaultjsonfile = file;};
 
diff --git a/visualization/trajectories/trajectories.js b/visualization/trajectories/trajectories.js
index ad8c2e0..038f295 100644
--- a/visualization/trajectories/trajectories.js
+++ b/visualization/trajectories/trajectories.js
@@ -4,6 +4,9 @@ loadtrajectory('');
 
 function loadtrajectory(file)
 {
+  // Browsers only give a fake path for a selected file.
+  file = file.replace('C:\\fakepath\\', '');
+
   if (file == '') { file = defaultjsonfile;}
   else            { defaultjsonfile = file;};
 
-- 
2.43.0


From dac62de996ceb2b5905fc0051941777c3530b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 45/46] fix: htm and pomcp viewers, show nothing of the
 previous file

Nodes with the same id kept their labels, and the tables their headers.
---
 visualization/htm/htm.js     | 6 +++++-
 visualization/pomcp/pomcp.js | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/visualization/htm/htm.js b/visualization/htm/htm.js
index 2dee7ea..7e6c4d9 100644
--- a/visualization/htm/htm.js
+++ b/visualization/htm/htm.js
@@ -82,7 +82,11 @@ var draw = vis.append('svg:g').attr('class', 'draw')
 function loadhtm(file) {
 
   if (file == '') { file = defaultjsonfile;}
-  else            { defaultjsonfile = file;};
+  else {
+    defaultjsonfile = file;
+    // The ids of another file are unrelated to those shown.
+    draw.selectAll('*').remove();
+  };
 
   file = file.replace('C:\\fakepath\\', '');
 
diff --git a/visualization/pomcp/pomcp.js b/visualization/pomcp/pomcp.js
index 35d5471..4e2337c 100644
--- a/visualization/pomcp/pomcp.js
+++ b/visualization/pomcp/pomcp.js
@@ -60,6 +60,10 @@ function loadpomcp(file)
     exploration = (json.exploration == null) ? 1. : json.exploration;
     relative_exploration = json.relative_exploration;
 
+    // Forget the file shown before
+    beliefs.selectAll('th.state, td').remove();
+    values.selectAll('th.action, td').remove();
+
     // Init the belief representation
     beliefs.select("tr.states").selectAll('th:not(.legend)').data(states).enter().append('th')
           .attr("class", "state")
-- 
2.43.0


From 17dff5a2add204755bd515dad4903b1a5d27b223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:26 +0000
Subject: [PATCH 46/46] fix: htm viewer, show tasks of a single action

The layout removes empty lists of children.
---
 visualization/htm/htm.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visualization/htm/htm.js b/visualization/htm/htm.js
index 7e6c4d9..ebe9b6d 100644
--- a/visualization/htm/htm.js
+++ b/visualization/htm/htm.js
@@ -114,7 +114,7 @@ function loadhtm(file) {
       var nodes = tree.nodes(root).reverse(),
           links = tree.links(nodes);
 
-      root.children.forEach(collapseLevel);
+      if (root.children) { root.children.forEach(collapseLevel); }
       update(root);
 
     });
-- 
2.43.0

