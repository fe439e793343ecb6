From 41a59439a8e2a654b5cc1a29dfcd247f434be1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:05 +0000
Subject: [PATCH 01/42] fix: hash conditions on their values, not on their
 memory layout

---
 task_models/action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/action.py b/task_models/action.py
index 40e3fd2..71e01b1 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -24,7 +24,8 @@ class Condition(object):
         self.value = value
 
     def __hash__(self):
-        return hash((self.mask.tostring(), self.value.tostring()))
+        return hash((tuple(self.mask.ravel().tolist()),
+                     tuple(self.value.ravel().tolist())))
 
     def __eq__(self, other):
         return (isinstance(other, Condition) and
-- 
2.43.0


From 5db1030010ac76da7adbfb77c4a5b92e9c0bc70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:08 +0000
Subject: [PATCH 02/42] fix: compare pre/post-condition actions only with their
 own kind

---
 task_models/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/action.py b/task_models/action.py
index 71e01b1..41e0c43 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -87,7 +87,7 @@ class PrePostConditionAction(Action):
         return hash((self.pre, self.post))
 
     def __eq__(self, other):
-        return (isinstance(other, Action) and
+        return (isinstance(other, PrePostConditionAction) and
                 self.pre == other.pre and
                 self.post == other.post)
 
-- 
2.43.0


From c6bf827933629a0da27727c58d5d1b561387bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:11 +0000
Subject: [PATCH 03/42] fix: make the hash of circuit states independent of
 part order

---
 task_models/snap_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/snap_circuit.py b/task_models/snap_circuit.py
index 3b120c6..88ce6e4 100644
--- a/task_models/snap_circuit.py
+++ b/task_models/snap_circuit.py
@@ -48,7 +48,7 @@ class SnapCircuitState(State):
         self._parts = set(parts)
 
     def __hash__(self):
-        return hash((self._shape, tuple(self.parts)))
+        return hash((self._shape, frozenset(self.parts)))
 
     def __eq__(self, other):
         return (isinstance(other, SnapCircuitState) and
-- 
2.43.0


From 82226a4abcedf59dad551fe5f28c8421cc1ebea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:14 +0000
Subject: [PATCH 04/42] fix: hash and compare array beliefs by value

---
 task_models/lib/belief.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/belief.py b/task_models/lib/belief.py
index 0e43555..f68757a 100644
--- a/task_models/lib/belief.py
+++ b/task_models/lib/belief.py
@@ -22,11 +22,11 @@ class ArrayBelief(BaseBelief):
         assert_normal(self.array, name='probabilities')
 
     def __hash__(self):
-        return hash(self.array.tostring())
+        return hash(tuple(self.array.tolist()))
 
     def __eq__(self, other):
         return (isinstance(other, ArrayBelief) and
-                (self.array == other.array).all())
+                np.array_equal(self.array, other.array))
 
     def sample(self):
         return np.random.choice(self.array.shape[0], p=self.array)
-- 
2.43.0


From 3483919d2e7a39d4227a4610491c796a9ecae8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:18 +0000
Subject: [PATCH 05/42] fix: define equality of N-dimensional states
 consistently with their hash

---
 task_models/state.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/task_models/state.py b/task_models/state.py
index af9bb40..38375d2 100644
--- a/task_models/state.py
+++ b/task_models/state.py
@@ -6,6 +6,8 @@ with the `task.py` module, states must be hashable and implement a method
 that yield a feature vector from the state.
 """
 
+import numpy as np
+
 
 class State(object):
     """Any kind of state. Must be hashable and are immutable.
@@ -32,7 +34,11 @@ class NDimensionalState(State):
         self.features = vector
 
     def __hash__(self):
-        return hash(self.features.tostring())
+        return hash(tuple(np.ravel(self.features).tolist()))
+
+    def __eq__(self, other):
+        return (isinstance(other, NDimensionalState) and
+                np.array_equal(self.features, other.features))
 
     @property
     def n_dim(self):
-- 
2.43.0


From b80347bba79681af3fd450f758f408ede25a44c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:36 +0000
Subject: [PATCH 06/42] fix: raise real exceptions from unsupported operations

---
 task_models/lib/belief.py    | 4 ++--
 task_models/lib/pomcp.py     | 2 +-
 task_models/state.py         | 6 +++---
 task_models/supportive.py    | 2 +-
 task_models/task_to_pomdp.py | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/task_models/lib/belief.py b/task_models/lib/belief.py
index f68757a..44e8a2f 100644
--- a/task_models/lib/belief.py
+++ b/task_models/lib/belief.py
@@ -6,10 +6,10 @@ from .utils import assert_normal
 class BaseBelief(object):
 
     def sample(self):
-        raise NotImplemented
+        raise NotImplementedError
 
     def successor(self, model, a, o):
-        raise NotImplemented
+        raise NotImplementedError
 
     def to_list(self):
         return self.array.tolist()
diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 4194f96..e9ff6b6 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -387,7 +387,7 @@ class _SearchActionNode(_SearchNode):
     def to_dict(self, model, as_policy=False, exclude_visited=None,
                 recursive=True):
         if as_policy:
-            raise NotImplemented
+            raise NotImplementedError
         else:
             base = super(_SearchActionNode, self).to_dict(
                 model, as_policy=as_policy, exclude_visited=exclude_visited)
diff --git a/task_models/state.py b/task_models/state.py
index 38375d2..c4a3855 100644
--- a/task_models/state.py
+++ b/task_models/state.py
@@ -18,13 +18,13 @@ class State(object):
 
     def get_features(self):
         """Returns a feature vector corresponding to the state."""
-        raise NotImplemented
+        raise NotImplementedError
 
     def __hash__(self):
-        raise NotImplemented
+        raise NotImplementedError
 
     def __eq__(self, other):
-        raise NotImplemented
+        raise NotImplementedError
 
 
 class NDimensionalState(State):
diff --git a/task_models/supportive.py b/task_models/supportive.py
index 800c26e..1a570cf 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -366,7 +366,7 @@ class SupportivePOMDP:
             for o, c in zip(self.objects, self.clearable)]))
 
     def belief_update(self, a, o, b):
-        raise NotImplemented
+        raise NotImplementedError
 
     def _update_for_transition(self, _s, node):
         """Computes reward and modifies state to match transition from HTM node
diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 8293350..fd4f70b 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -118,7 +118,7 @@ class _NodeToPOMDP(object):
                                         subtask_reward=subtask_reward,
                                         flags=flags)
         else:
-            raise ValueError('Unkown combination: ' + type(node))
+            raise ValueError('Unkown combination: ' + str(type(node)))
 
 
 class _LeafToPOMDP(_NodeToPOMDP):
-- 
2.43.0


From 44b1a12d0faf96eff33d82518e66689146b5cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:39 +0000
Subject: [PATCH 07/42] fix: keep the number of HTM states when copying a
 supportive state

---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 1a570cf..a64decc 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -224,7 +224,7 @@ class _SupportivePOMDPState(object):
             self.set_preference(i, 1 - self.has_preference(i))
 
     def copy(self):
-        return type(self)(self.n_htm + 1, self.n_preferences,
+        return type(self)(self.n_htm, self.n_preferences,
                           self.n_body_features, self.n_objects, s=self.s)
 
 
-- 
2.43.0


From 6911086b9b967d043e00bb9662158069d582e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:42 +0000
Subject: [PATCH 08/42] fix: marginalise preferences over the right axis

---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index a64decc..cb3417c 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -209,7 +209,7 @@ class _SupportivePOMDPState(object):
         def sum_all_but(arr, axis):
             iii = [slice(None) for _ in arr.shape]
             iii[axis] = -1
-            return arr[iii].sum()
+            return arr[tuple(iii)].sum()
 
         return [sum_all_but(pp, i) for i, _ in enumerate(pp.shape)]
 
-- 
2.43.0


From d93b68365b6c77f2bb2d2b39553a70204f349a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:03 +0000
Subject: [PATCH 09/42] fix: keep kind and attributes of actions when copying
 them

---
 task_models/action.py        | 8 ++++++++
 task_models/task.py          | 3 ---
 task_models/task_to_pomdp.py | 6 ------
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/task_models/action.py b/task_models/action.py
index 41e0c43..87c943f 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -8,6 +8,8 @@ simultaneously satisfied.
 """
 
 
+import copy
+
 import numpy as np
 
 
@@ -72,6 +74,12 @@ class Action(object):
         """
         raise NotImplementedError
 
+    def copy(self, rename_format='{}'):
+        """Returns an action of same kind that only differs by its name."""
+        new = copy.copy(self)
+        new.name = rename_format.format(self.name)
+        return new
+
 
 class PrePostConditionAction(Action):
     """Action which can apply to states verifying the pre-condition and can
diff --git a/task_models/task.py b/task_models/task.py
index 6c7866e..4a91afa 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -226,9 +226,6 @@ class AbstractAction(Action):
     def check(self, pre, post):
         return True
 
-    def copy(self, rename_format='{}'):
-        return AbstractAction(rename_format.format(self.name))
-
 
 class ConjugateTaskGraph(BaseGraph):
 
diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index fd4f70b..1c2287b 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -40,12 +40,6 @@ class CollaborativeAction(AbstractAction):
         self.no_proba = no_probability
         self.fail_proba = fail_probability
 
-    def copy(self, rename_format):
-        return CollaborativeAction(
-            rename_format.format(self.name), self.durations,
-            human_probability=self.h_proba, fail_probability=self.fail_proba,
-            no_probability=self.no_proba)
-
 
 def _name_radix(action):
     return action.name.lower().replace(' ', '-')
-- 
2.43.0


From fe27c770fc4d9312235ac1d546bbe8d3b5af826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:07 +0000
Subject: [PATCH 10/42] fix: keep the probabilities given to an alternative

---
 task_models/task.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 4a91afa..71ca616 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -470,7 +470,6 @@ class AlternativeCombination(Combination):
 
     def __init__(self, children, **xargs):
         super(AlternativeCombination, self).__init__(children, **xargs)
-        self.proba = None
 
     @property
     def proba(self):
-- 
2.43.0


From d8311ad26c4309592f42493afde38f9dc9e69deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:21 +0000
Subject: [PATCH 11/42] fix: convert meta actions to the combination of their
 kind

---
 task_models/task.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 71ca616..17b4cad 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -329,6 +329,10 @@ class MetaAction(AbstractAction):
            'parallel': '||',
            'alternative': '∨',
            }
+    COMBINATION_KINDS = {'sequence': 'Sequential',
+                         'parallel': 'Parallel',
+                         'alternative': 'Alternative',
+                         }
 
     def __init__(self, kind, actions):
         super(MetaAction, self).__init__(self._name(kind, actions))
@@ -355,7 +359,7 @@ class MetaAction(AbstractAction):
         children = [
             a.to_combination() if isinstance(a, MetaAction) else LeafCombination(a)
             for a in self.actions]
-        return COMBINATION_CLASSES[self.kind](children)
+        return COMBINATION_CLASSES[self.COMBINATION_KINDS[self.kind]](children)
 
     @classmethod
     def _name(cls, kind, actions):
-- 
2.43.0


From 733e715bf12bb60328c8f235fe9926c2d4418297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:38 +0000
Subject: [PATCH 12/42] fix: compare graphs on the transitions they contain

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 17b4cad..07f02a3 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -99,7 +99,7 @@ class BaseGraph(object):
 
     def __eq__(self, other):
         return (isinstance(other, BaseGraph) and
-                self.transitions == other.transitions)
+                set(self.all_transitions()) == set(other.all_transitions()))
 
     def add_transition(self, source, label, destination):
         if source not in self.transitions:
-- 
2.43.0


From 3fa2101093ab1529a7a7e1f6a5ee2338b3dbbefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:41 +0000
Subject: [PATCH 13/42] fix: conjugate paths that stop at or go through any
 state

---
 task_models/task.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index 07f02a3..b821b5d 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -238,18 +238,17 @@ class ConjugateTaskGraph(BaseGraph):
         tg.check_only_deterministic_transitions()
         # Add transitions of the form: initial --(s_init)--> a
         for s in tg.initial:
-            for (a, _) in tg.transitions[s]:
+            for (a, _) in tg.transitions.get(s, ()):
                 ctg.add_transition(ctg.initial, s, a)
         for outgoings in tg.transitions.values():  # Whatever origin state
             for (a, next_state) in outgoings:
                 if next_state in tg.terminal:
                     # Add transitions of the form: a --(s_term)--> terminal
                     ctg.add_transition(a, next_state, ctg.terminal)
-                else:
-                    # Look ahead...
-                    for (next_action, _) in tg.transitions[next_state]:
-                        # ...and add transitions of the form: a --(s')--> a'
-                        ctg.add_transition(a, next_state, next_action)
+                # Look ahead...
+                for (next_action, _) in tg.transitions.get(next_state, ()):
+                    # ...and add transitions of the form: a --(s')--> a'
+                    ctg.add_transition(a, next_state, next_action)
         return ctg
 
     def compact(self, nodes, new_node):
-- 
2.43.0


From 8373e4ca59f50108077c8243bddc37109ab33f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:09 +0000
Subject: [PATCH 14/42] fix: explore every node once when searching chains

---
 task_models/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index b821b5d..56efdaa 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -291,14 +291,14 @@ class ConjugateTaskGraph(BaseGraph):
                     raise AssertionError()
                 next_node = list(unique_transitions[node])[0]
                 done = False
-                if in_degree[next_node] == 1:
+                if in_degree[next_node] == 1 and next_node not in explored:
                     chain.append(next_node)
                     explored.add(next_node)
                     if len(unique_transitions[next_node]) != 1:
                         done = True
                         explore_successors(next_node)
                 else:
-                    to_explore.add(next_node)
+                    to_explore.update({next_node}.difference(explored))
                     done = True
                 if done:
                     if len(chain) > 1:
-- 
2.43.0


From a9b07087ced020840caf3e750c6c84ee99b09bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:37 +0000
Subject: [PATCH 15/42] fix: read back leaves without agent, and highlighted
 nodes

---
 task_models/json_to_htm.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/task_models/json_to_htm.py b/task_models/json_to_htm.py
index 0efbf1a..0547c9b 100644
--- a/task_models/json_to_htm.py
+++ b/task_models/json_to_htm.py
@@ -14,10 +14,14 @@ def build_htm(node):
     idx = node['id']
     parent = node['parent']
 
+    highlighted = 'highlighted' in node['attributes']
+
     # Base case, if no children than node is an action
-    if node['attributes']:
+    if 'children' not in node:
         agent = [a for a in node['attributes'] if not a == 'highlighted']
-        return LeafCombination(Action(name=name, agent=agent[0]), idx=idx, parent=parent)
+        action = Action(name=name, agent=agent[0]) if agent else Action(name=name)
+        return LeafCombination(action, idx=idx, parent=parent,
+                               highlighted=highlighted)
 
     children = []
     for c in node['children']:
@@ -25,9 +29,11 @@ def build_htm(node):
         children.append(build_htm(c))
 
     # Will wrap subtree in a combination depending on combination attribute
-    return COMBINATION_CLASSES[combination](children, name=name, idx=idx, parent=parent)
+    return COMBINATION_CLASSES[combination](children, name=name, idx=idx, parent=parent,
+                                            highlighted=highlighted)
 
 
 def json_to_htm(json_path):
-    j = json.load(open(json_path, "r", encoding="utf-8"))
+    with open(json_path, "r", encoding="utf-8") as f:
+        j = json.load(f)
     return HierarchicalTask(build_htm(j['nodes']))
-- 
2.43.0


From 7e3d1aa19248ef05e34d421006fa0e6ddad7adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:40 +0000
Subject: [PATCH 16/42] fix: write the agent of leaves, as expected when
 reading them back

---
 task_models/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 56efdaa..61951d4 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -442,7 +442,10 @@ class LeafCombination(BaseCombination):
         raise ValueError('A leaf does not have children.')
 
     def as_dictionary(self, parent, id_generator):
-        return self._meta_dictionary(parent, id_generator)
+        d = self._meta_dictionary(parent, id_generator)
+        if self.action.agent != 'None':
+            d['attributes'].append(self.action.agent)
+        return d
 
     def deep_copy(self, rename_format='{}'):
         return LeafCombination(self.action.copy(rename_format=rename_format),
-- 
2.43.0


From cdbb3304e130de16d894158cb429328fcfcf6587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:57 +0000
Subject: [PATCH 17/42] fix: reject policy graphs with transitions to a missing
 node

---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 338e83d..603c9e4 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -372,7 +372,7 @@ class POMDP:
             actions2, pg = parse_policy_graph(pf)
         assert(actions == actions2)  # policy and value function share actions
         assert(max(actions) < len(self.actions))  # actions are well-formed
-        assert(max([t for ts in pg for t in ts if t is not None]) <= len(pg))
+        assert(all(t < len(pg) for ts in pg for t in ts if t is not None))
         # (transitions are well-formed)
         action_names = [self.actions[a] for a in actions]
         return GraphPolicy(action_names, self.observations, pg, vf,
-- 
2.43.0


From 8fde71ad28b25be5e987ab6f1c6e3546754e90c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:01 +0000
Subject: [PATCH 18/42] fix: keep the current node when an observation is
 impossible

---
 task_models/lib/pomdp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 603c9e4..5108dc0 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -455,9 +455,10 @@ class GraphPolicyRunner(object):
         return self.gp.get_action(self.current)
 
     def step(self, observation):
-        self.current = self.gp.next(self.current, observation)
-        if self.current is None:
+        new = self.gp.next(self.current, observation)
+        if new is None:
             raise Impossible('Got unexpected observation')
+        self.current = new
 
 
 class GraphPolicyBeliefRunner(GraphPolicyRunner):
-- 
2.43.0


From 05c74105cd30661692cf380e2f01b543f51a7566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:04 +0000
Subject: [PATCH 19/42] fix: return one trajectory tree for each possible start

---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 5108dc0..e96f65c 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -506,7 +506,7 @@ class GraphPolicyBeliefRunner(GraphPolicyRunner):
     def trajectory_trees_from_starts(self, horizon=5):
         start = self.pomdp.start
         trees = []
-        for s in start.nonzero():
+        for s in start.nonzero()[0]:
             b = np.zeros(start.shape)
             b[s] = 1.
             self.reset(belief=b)
-- 
2.43.0


From caa28dff7a515e310505895f7339411b441db7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:07 +0000
Subject: [PATCH 20/42] fix: reject negative probabilities

---
 task_models/lib/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/task_models/lib/utils.py b/task_models/lib/utils.py
index d8b0c09..f876832 100644
--- a/task_models/lib/utils.py
+++ b/task_models/lib/utils.py
@@ -4,6 +4,8 @@ import numpy as np
 
 
 def assert_normal(array, name='array'):
+    if (array < 0).any():
+        raise ValueError("Probabilities in {} should not be negative.".format(name))
     message = "Probabilities in {} should sum to 1."
     if not np.allclose(array.sum(-1), 1.):
         raise ValueError(message.format(name))
-- 
2.43.0


From f867b37fd055c6c4a2161998a367242f071b4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:29 +0000
Subject: [PATCH 21/42] fix: stop and join the exploration thread

---
 task_models/lib/pomcp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index e9ff6b6..af28171 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -532,11 +532,12 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
             self._done = False
             self._lock = threading.Lock()
 
-        def _stop(self):
+        # Note: must not be named _stop, which would override Thread._stop
+        def _set_done(self):
             self._done = True
 
         def stop(self):
-            self.execute(self._stop)
+            self.execute(self._set_done)
 
         def execute(self, fun, *args, **kwargs):
             """Waits until current exploration is done and execute fun.
@@ -583,7 +584,7 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 
     def stop(self):
         self.thread.stop()
-        if self.thread.isAlive():
+        if self.thread.is_alive():
             self.thread.join()
 
     def execute(self, *args, **kwargs):
-- 
2.43.0


From 9d627640457f59fdc66bb9d4dc2f493e58f0326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:32 +0000
Subject: [PATCH 22/42] fix: wait for exploration to pause before following an
 observation

---
 task_models/lib/pomcp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index af28171..7460881 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -569,7 +569,9 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
         self.thread.start()
 
     def step(self, observation):
-        super(AsyncPOMCPPolicyRunner, self).step(observation)
+        # get_node may extend the tree: must not run during exploration
+        self.thread.execute(super(AsyncPOMCPPolicyRunner, self).step,
+                            observation)
         self.thread.execute(self.thread.set_node, self._node)
 
     def reset(self, belief=None):
-- 
2.43.0


From 13b535fc97b8b6d0c80389492e4bdcd831a89020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:36 +0000
Subject: [PATCH 23/42] fix: pass iterations and results through the async
 runner

---
 task_models/lib/pomcp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 7460881..ecd37fc 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -580,7 +580,8 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 
     def get_action(self, iterations=None):
         # Start with minimal number of iterations to have explored all actions
-        a = self.thread.execute(super(AsyncPOMCPPolicyRunner, self).get_action)
+        a = self.thread.execute(super(AsyncPOMCPPolicyRunner, self).get_action,
+                                iterations=iterations)
         self.thread.execute(self.thread.set_action, self._last_action)
         return a
 
@@ -590,7 +591,7 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
             self.thread.join()
 
     def execute(self, *args, **kwargs):
-        self.thread.execute(*args, **kwargs)
+        return self.thread.execute(*args, **kwargs)
 
     def __del__(self):
         self.stop()
-- 
2.43.0


From 0f9f9a780c22f79373002bfeaaed0889f301ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:03 +0000
Subject: [PATCH 24/42] fix: export observed as a position in the observations
 of the parent

---
 task_models/lib/pomcp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index ecd37fc..66565fb 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -626,8 +626,9 @@ def export_pomcp(policy, destination, belief_as_quotient=False):
                 child = children[i]
                 d['observations'] = child['observations']
                 d['children'] = child['children']
-                for c, o in zip(d['children'], d['observations']):
-                    c['observed'] = model.observations.index(o)
+                # Position in parent's observations (as in to_dict)
+                for i_o, c in enumerate(d['children']):
+                    c['observed'] = i_o
             return d
 
         dic['graphs'] = [policy.tree.map(to_dict, join_children)]
-- 
2.43.0


From 631656c36378afb2d4efab3122dcd94b3b04a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:06 +0000
Subject: [PATCH 25/42] fix: discount later rewards more in evaluated returns

---
 task_models/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index b34228f..7df3a98 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -74,12 +74,12 @@ def simulate_one_evaluation(model, pol, max_horizon=200, logger=None,
         a = model.actions.index(pol.get_action())
         h_a.append(a)
         s, o, r = model.sample_transition(a, h_s[-1])  # real transition
+        full_return += gamma ** len(h_r) * r
         h_o.append(o)
         h_r.append(r)
         horizon.decrement(a, h_s[-1], s, o)
         pol.step(model.observations[o])
         h_s.append(s)
-        full_return = r + gamma * full_return
     elapsed = get_process_elapsed_time()
     n_calls = model.n_simulator_calls - init_calls
     if logger is not None:
-- 
2.43.0


From cb3ff9ab5732ffac1adf13f07ef3c2387bcf12dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:09 +0000
Subject: [PATCH 26/42] fix: copy whether the horizon has seen a final state

---
 task_models/evaluation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index 7df3a98..4fc4cbf 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -31,7 +31,9 @@ class FinishedOrNTransitionsHorizon(NTransitionsHorizon):
         self._is_final = self.model._int_to_state(new_s).is_final()
 
     def copy(self):
-        return FinishedOrNTransitionsHorizon(self.model, self.n)
+        new = FinishedOrNTransitionsHorizon(self.model, self.n)
+        new._is_final = self._is_final
+        return new
 
     @classmethod
     def generator(cls, model, n=100):
-- 
2.43.0


From 1bd475e28491d49dc284a24b7f0bf10208e3db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:33 +0000
Subject: [PATCH 27/42] fix: normalise transitions from end states in looping
 tasks

---
 task_models/task_to_pomdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 1c2287b..a150a21 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -404,11 +404,11 @@ class HTMToPOMDP:
             self.flags.add('subtask_reward')
 
     def update_T_end(self, T, init):
+        if 'reward_state' in self.flags:
+            T[:, self.endr, self.end] = 1.  # go to end after reward
         if 'loop' in self.flags:
-            T[:, self.end, init] = 1.  # go back to start
+            T[:, self.end, init] = 1. / len(init)  # go back to start
         else:
-            if 'reward_state' in self.flags:
-                T[:, self.endr, self.end] = 1.  # go to end after reward
             T[:, self.end, self.end] = 1.  # end stats is stable
 
     def update_O_wait(self, O):
-- 
2.43.0


From 6a46d0d3c7efb3a334a15911aa5fe29f8cd6c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:35 +0000
Subject: [PATCH 28/42] fix: follow start probabilities after deterministic
 actions

---
 task_models/task_to_pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index a150a21..7e86b30 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -195,7 +195,7 @@ class _LeafToPOMDP(_NodeToPOMDP):
         if 'deterministic' in self.flags:
             T[:, s_h, s_h] = 1.
             T[a_af, s_h, s_h] = 0.
-            T[a_af, s_h, s_next] = uniform(len(s_next))
+            T[a_af, s_h, s_next] = s_next_probas
         else:
             p_h_not_finish = self._h_probas_not_finished_from_d(
                     np.asarray(durations))
-- 
2.43.0


From ceb58310d11ff61016c4b18bfd6b63554cce9e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:39 +0000
Subject: [PATCH 29/42] fix: fill rewards of structured tasks from the right
 cost and states

---
 task_models/task_to_pomdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 7e86b30..b5b5cc1 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -263,9 +263,9 @@ class _LeafToPOMDP(_NodeToPOMDP):
         # Fix the duration cost for the non-failed physical action
         R[a_phy, s_r, :, :] = self.t_rob + intr_cost
         if 'structured' in self.flags:
-            R[a_ti, :, :, :] = 100
-            R[a_ti, s_i, s_h, :] = self.t_com + intr_cost
-            R[a_ti, s_i, s_r, :] = self.t_com + intr_cost
+            R[a_ti, s_start:s_start+3, :, :] = 100
+            R[a_ti, s_i, s_h, :] = self.t_tell + intr_cost
+            R[a_ti, s_i, s_r, :] = self.t_tell + intr_cost
         if 'subtask_reward' in self.flags:
             # Value transitions to any other node
             R[:, s_start:(s_start + 3), :s_start, :] -= self.subtask_reward
-- 
2.43.0


From ec6f64c497e2fb56b40dd6f81354236e09ddad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:28 +0000
Subject: [PATCH 30/42] fix: do not record rejected observations in supportive
 sequences

---
 task_models/policy.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/task_models/policy.py b/task_models/policy.py
index 3487687..49b556d 100644
--- a/task_models/policy.py
+++ b/task_models/policy.py
@@ -90,26 +90,25 @@ class PolicyLongSupportiveSequence(PolicyRunner):
         self._last_action = a
         return self.actions[a]
 
+    def _is_expected(self, observation):
+        return (observation in ('fail', 'none') or
+                (observation == 'not-found' and
+                 not self._is_a_next(self._last_action)))
+
     def step(self, observation):
+        if not self._is_expected(observation):
+            raise self.UnexpectedObservation('{} for action {}'.format(
+                observation, self._last_action))
         super(PolicyLongSupportiveSequence, self).step(observation)
-        unexpected = self.UnexpectedObservation('{} for action {}'.format(
-            observation, self.actions[self._last_action]))
         if observation == 'fail':
             pass
-        elif observation in ('none', 'not-found'):
-            if self._last_action in [self._a_bring(o) for o in self.tools]:
-                self._to_bring.remove(self._last_action)
-            elif self._last_action in [self._a_clean(o) for o in self.tools]:
-                self._to_clean.remove(self._last_action)
-            elif self._last_action == self._a_bring_leg:
-                self._needs_leg = False
-            elif self._is_a_next(self._last_action) and observation == 'none':
-                # Next subtask
-                self._n_done += 1
-                self._needs_leg = True
-            elif self._last_action == self._a_wait:
-                pass
-            else:
-                raise unexpected
-        else:
-            raise unexpected
+        elif self._last_action in self._to_bring:
+            self._to_bring.remove(self._last_action)
+        elif self._last_action in self._to_clean:
+            self._to_clean.remove(self._last_action)
+        elif self._last_action == self._a_bring_leg:
+            self._needs_leg = False
+        elif self._is_a_next(self._last_action):
+            # Next subtask
+            self._n_done += 1
+            self._needs_leg = True
-- 
2.43.0


From b25c0ca0188feeab2e737f2a1beb63191ac27976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:31 +0000
Subject: [PATCH 31/42] fix: reject unknown combinations when flattening a
 hierarchical task

---
 task_models/supportive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index cb3417c..623dc31 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -42,6 +42,8 @@ class _HTMToDAG:
             elif isinstance(node, AlternativeCombination):
                 first = unique(chain(*first))
                 last = unique(chain(*last))
+            else:
+                raise ValueError('Unkown combination: ' + str(type(node)))
         return (first, last)
 
 
-- 
2.43.0


From 8ef3ebe2444f78f6f878072e397323c95c25900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:34 +0000
Subject: [PATCH 32/42] fix: report killed subprocesses as failed

---
 task_models/utils/multiprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/multiprocess.py b/task_models/utils/multiprocess.py
index 5f6ad23..f9700f6 100644
--- a/task_models/utils/multiprocess.py
+++ b/task_models/utils/multiprocess.py
@@ -57,7 +57,7 @@ class RepeatPool:
                         for w in self.workers]
 
     def _clean_job(self, w):
-        if w.exitcode > 0:
+        if w.exitcode != 0:
             raise RuntimeError("A subprocess has failed.")
         w.join()
         return None
-- 
2.43.0


From 59f70350447980f855b12f204c180ab84f77593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:38 +0000
Subject: [PATCH 33/42] fix: check tick labels to remove

---
 task_models/utils/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/plot.py b/task_models/utils/plot.py
index b44a103..2724e41 100644
--- a/task_models/utils/plot.py
+++ b/task_models/utils/plot.py
@@ -208,7 +208,7 @@ def remove_chartjunk(ax, spines, grid=None, ticks=None, ticklabels=None):
     if ticklabels is not None:
         if type(ticklabels) is str:
             ticklabels = [ticklabels]
-        assert set(ticklabels) | set(('x', 'y')) > 0
+        assert len(set(ticklabels) & set(('x', 'y'))) > 0
         if 'x' in ticklabels:
             ax.set_xticklabels([])
         elif 'y' in ticklabels:
-- 
2.43.0


From 597c885ba39ca3d9fb0df5ca3b14d6ec8d1b588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:14 +0000
Subject: [PATCH 34/42] fix: hash meta-actions consistently with their equality

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 61951d4..73dc8d9 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -344,7 +344,7 @@ class MetaAction(AbstractAction):
                 self.actions == other.actions)
 
     def __hash__(self):
-        return hash(self.name)
+        return hash((self.kind, tuple(self.actions)))
         # Needs to re-implement __hash__ despite inheritence (see following
         # from datamodels doc).
         # A class that overrides __eq__() and does not define __hash__() will
-- 
2.43.0


From 192f9e425ac17c89702c3fa33a9d408f8c0be1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:48:37 +0000
Subject: [PATCH 35/42] fix: do not grow the search tree when exporting it as a
 policy

---
 task_models/lib/pomcp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 66565fb..fd80a1c 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -338,7 +338,8 @@ class _SearchObservationNode(_SearchNode):
         base["belief"] = self.belief.to_list()
         if as_policy:
             a = self.get_best_action()
-            grand_children = self.safe_get_child(a).children
+            child = self.children[a]  # may not have been explored yet
+            grand_children = {} if child is None else child.children
             base.update({
                 "action": model.actions[a],
                 "observed": observed,
-- 
2.43.0


From 5ef477ce10556bb4c9614d00cdb651fc2c9a0b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:56:16 +0000
Subject: [PATCH 36/42] fix: import from the modules that define the names in
 the samples

---
 samples/pomcp.py          | 3 ++-
 samples/supportive.py     | 2 +-
 samples/tower_scenario.py | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/samples/pomcp.py b/samples/pomcp.py
index 229285d..0dc97fc 100644
--- a/samples/pomcp.py
+++ b/samples/pomcp.py
@@ -3,7 +3,8 @@ import os
 import json
 from heapq import heappush, heappop
 
-from task_models.lib.pomdp import GraphPolicyBeliefRunner, POMCPPolicyRunner
+from task_models.lib.pomdp import GraphPolicyBeliefRunner
+from task_models.lib.pomcp import POMCPPolicyRunner
 from task_models.task_to_pomdp import HTMToPOMDP
 from task_models.stool_scenarios import (stool_task_sequential, T_WAIT, T_ASK,
                                          T_TELL, C_INTR)
diff --git a/samples/supportive.py b/samples/supportive.py
index 93f0695..09f4fbc 100644
--- a/samples/supportive.py
+++ b/samples/supportive.py
@@ -6,7 +6,7 @@ import logging
 from task_models.task import SequentialCombination, LeafCombination
 from task_models.supportive import (SupportivePOMDP, AssembleLeg,
                                     AssembleLegToTop, NHTMHorizon)
-from task_models.lib.pomdp import POMCPPolicyRunner, export_pomcp
+from task_models.lib.pomcp import POMCPPolicyRunner, export_pomcp
 
 
 logging.getLogger().setLevel(logging.INFO)
diff --git a/samples/tower_scenario.py b/samples/tower_scenario.py
index daab940..e93de70 100644
--- a/samples/tower_scenario.py
+++ b/samples/tower_scenario.py
@@ -1,7 +1,7 @@
 import os
 
 from task_models.lib.pomdp import GraphPolicyBeliefRunner
-from task_models.bring_next_to_pomdp import task_modelsToPOMDP
+from task_models.bring_next_to_pomdp import HTMToPOMDP
 from task_models.tower_problem import TowerProblem
 
 
-- 
2.43.0


From 788e2d07b8d7b32293154e59b3b0c4b51ae6510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:06:08 +0000
Subject: [PATCH 37/42] fix: find the cliques of nodes that have transitions to
 themselves

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 73dc8d9..5fec8a6 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -314,7 +314,7 @@ class ConjugateTaskGraph(BaseGraph):
         unique = set((s, d) for (s, _, d) in self.all_transitions())
         symmetric = {n: set() for n in self.all_nodes()}
         for s, d in unique:
-            if (d, s) in unique:
+            if s != d and (d, s) in unique:  # loops are not edges
                 symmetric[s].add(d)
                 symmetric[d].add(s)
         return max_cliques(symmetric)
-- 
2.43.0


From 2969bc7cdcfa4d799fd9020dabe8d9e8e6dcf5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:07:03 +0000
Subject: [PATCH 38/42] fix: hash meta-actions of sets whatever the order of
 their members

---
 task_models/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 5fec8a6..d19f409 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -344,7 +344,8 @@ class MetaAction(AbstractAction):
                 self.actions == other.actions)
 
     def __hash__(self):
-        return hash((self.kind, tuple(self.actions)))
+        # members may be a set (cliques), in any order
+        return hash((self.kind, frozenset(self.actions)))
         # Needs to re-implement __hash__ despite inheritence (see following
         # from datamodels doc).
         # A class that overrides __eq__() and does not define __hash__() will
-- 
2.43.0


From aaed3a17a4af84f8b3edfb19c139aac095a6375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:26:43 +0000
Subject: [PATCH 39/42] fix: remove the tick labels of both axes when both are
 given

---
 task_models/utils/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/plot.py b/task_models/utils/plot.py
index 2724e41..74342f1 100644
--- a/task_models/utils/plot.py
+++ b/task_models/utils/plot.py
@@ -211,5 +211,5 @@ def remove_chartjunk(ax, spines, grid=None, ticks=None, ticklabels=None):
         assert len(set(ticklabels) & set(('x', 'y'))) > 0
         if 'x' in ticklabels:
             ax.set_xticklabels([])
-        elif 'y' in ticklabels:
+        if 'y' in ticklabels:
             ax.set_yticklabels([])
-- 
2.43.0


From a1bec8f1eb45ef10a95df0f6afcc8baf5369c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:42 +0000
Subject: [PATCH 40/42] fix: label the links of trajectories by the observation
 that leads to their end

---
 visualization/trajectories/trajectories.js | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/visualization/trajectories/trajectories.js b/visualization/trajectories/trajectories.js
index cc88747..111e6c0 100644
--- a/visualization/trajectories/trajectories.js
+++ b/visualization/trajectories/trajectories.js
@@ -129,16 +129,13 @@ function loadtrajectory(file)
 
     // Enter any new links at the parent's previous position.
     link.enter().insert('path', 'g')
-        .attr('class', function(d,i) {
-          console.log('Source ',d.source.observations, i, d.source.observations[i]);
-          // console.log('target ',d.target.observations, i, d.target.observations[i]);
-          return 'link ' + d.source.observations[i]; })
+        .attr('class', function(d) { return 'link ' + observed(d); })
         .attr('d', function(d) {
           var o = {x: source.x0, y: source.y0};
 
           return diagonal({source: o, target: o});
         })
-        .attr('marker-end', function(d,i) { return 'url(#arrowhead_'+d.source.observations[i]+')';});
+        .attr('marker-end', function(d) { return 'url(#arrowhead_'+observed(d)+')';});
 
     // Transition links to their new position.
     link.transition()
@@ -161,6 +158,11 @@ function loadtrajectory(file)
     });
   };
 
+  // Observation of the parent that leads to the child (same order as children)
+  function observed(link) {
+    return link.source.observations[link.source.children.indexOf(link.target)];
+  }
+
   // Toggle children on click.
   function click(d) {
     if (d.children) {
-- 
2.43.0


From 3bfde395ab53088ea478a8c63988261d321ec0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:44:54 +0000
Subject: [PATCH 41/42] fix: keep the folder in which samples write the data of
 the POMCP viewer

---
 visualization/pomcp/json/.gitkeep | 0
 1 file changed, 0 insertions(+), 0 deletions(-)
 create mode 100644 visualization/pomcp/json/.gitkeep

diff --git a/visualization/pomcp/json/.gitkeep b/visualization/pomcp/json/.gitkeep
new file mode 100644
index 0000000..e69de29
-- 
2.43.0


From 90721a4ea88a4c30be9498e2becb80282e03217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:48:43 +0000
Subject: [PATCH 42/42] fix: pad the counts of progress bars to the width of
 the total

---
 task_models/utils/term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/term.py b/task_models/utils/term.py
index b22460c..deaf8f7 100644
--- a/task_models/utils/term.py
+++ b/task_models/utils/term.py
@@ -30,7 +30,7 @@ def print_progress_bar(done, todo, count=True, size=50, color=None, prefix=''):
 
 def progress_bar(done, todo, count=True, size=50):
     count_str = ' {:{digits},d}/{:{digits},d}'.format(
-        done, todo, digits=int(todo / 10)
+        done, todo, digits=len('{:,d}'.format(todo))
         ) if count else ''
     return '[{done_bar:.<{size}} {percent:>3d}%] {count}'.format(
         done_bar='#' * int(size * done / todo),
-- 
2.43.0

