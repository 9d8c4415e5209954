From 08ec51deb66261cf8bc8e4000148614d787f60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 01/49] fix: run without an execution_id uses
 default_execution_id and no base counts

run() used the None context instead of the scheduler's default_execution_id,
and treated an unspecified base_execution_id as a request to copy the counts
and history of the None context into every new execution_id.
---
 src/graph_scheduler/scheduler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index d4d4edb..c067f74 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -856,8 +856,8 @@ class Scheduler:
     def run(
         self,
         termination_conds=None,
-        execution_id=None,
-        base_execution_id=None,
+        execution_id=NotImplemented,
+        base_execution_id=NotImplemented,
         skip_environment_state_update_time_increment=False,
         **kwargs,
     ):
@@ -868,6 +868,9 @@ class Scheduler:
         :param termination_conds: (dict) - a mapping from `TimeScale`\\s to `Condition`\\s that when met
                terminate the execution of the specified `TimeScale`
         """
+        if execution_id is NotImplemented:
+            execution_id = self.default_execution_id
+
         self._validate_run_state()
 
         if termination_conds is None:
-- 
2.43.0


From c85f910065255701b2761d7cdd5cb652fc4276af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 02/49] fix: initialize execution_timestamps for new
 execution_ids

A run with absolute time conditions in any execution_id other than the
default raised KeyError.
---
 src/graph_scheduler/scheduler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index c067f74..88461f1 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -579,6 +579,14 @@ class Scheduler:
             else:
                 self.execution_list[execution_id] = []
 
+        if execution_id not in self.execution_timestamps:
+            if base_execution_id is not NotImplemented:
+                self.execution_timestamps[execution_id] = list(
+                    self.execution_timestamps.get(base_execution_id, [])
+                )
+            else:
+                self.execution_timestamps[execution_id] = []
+
         self._init_clock(execution_id, base_execution_id)
 
     def _init_clock(self, execution_id, base_execution_id=NotImplemented):
-- 
2.43.0


From 3b9edd22f6659658b1c3e8bc8a75437a84f835b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 03/49] fix: do not modify termination_conds argument while
 iterating over it

String TimeScale keys passed to run raised RuntimeError (dict changed size
during iteration), and the caller's dict was changed.
---
 src/graph_scheduler/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 88461f1..c3c67cd 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -643,9 +643,10 @@ class Scheduler:
         )
 
         # parse string representation of TimeScale
+        termination_conds = copy.copy(termination_conds)
         parsed_conds = termination_conds
         delkeys = set()
-        for scale in termination_conds:
+        for scale in list(termination_conds):
             try:
                 parsed_conds[getattr(TimeScale, scale.upper())] = termination_conds[scale]
                 delkeys.add(scale)
-- 
2.43.0


From a5a5ea517a1ad0503ff31d22600bbfba6f7a592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 04/49] fix: JustRan is not satisfied before the first
 consideration set execution

It raised IndexError when evaluated on an empty execution history.
---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e57feca..3f27e95 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2182,6 +2182,9 @@ class JustRan(_DependencyValidation, Condition):
             logger.debug(f'checking if {dependency} in previous execution step set')
             try:
                 return dependency in scheduler.execution_list[execution_id][-1]
+            except IndexError:
+                # nothing has executed yet
+                return False
             except TypeError:
                 return dependency == scheduler.execution_list[execution_id][-1]
         super().__init__(func, dependency)
-- 
2.43.0


From a0e9659e837dcadbdfef262b790f68d7dcb2a2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 05/49] fix: reset ENVIRONMENT_SEQUENCE counts when the
 sequence ends

Call-count conditions at time_scale ENVIRONMENT_SEQUENCE kept counting
executions of sequences that had already completed.
---
 src/graph_scheduler/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index c3c67cd..1de91ad 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -684,6 +684,8 @@ class Scheduler:
             execution_id = self.default_execution_id
 
         self._increment_time(TimeScale.ENVIRONMENT_SEQUENCE, execution_id)
+        if execution_id in self.counts_total:
+            self._reset_counts_total(TimeScale.ENVIRONMENT_SEQUENCE, execution_id)
 
     def add_graph_edge(self, sender: Hashable, receiver: Hashable) -> AddEdgeTo:
         """
-- 
2.43.0


From 7bc4b41f09d994519e594dc6cb9a401af7db663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 06/49] fix: reset CONSIDERATION_SET_EXECUTION counts every
 consideration set

They were only reset every PASS, so call-count conditions at this time scale
were satisfied by executions in earlier consideration sets of the pass.
---
 src/graph_scheduler/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 1de91ad..f27eba1 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -937,6 +937,8 @@ class Scheduler:
                 and not termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
                 and not termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
             ):
+                self._reset_counts_total(TimeScale.CONSIDERATION_SET_EXECUTION, execution_id)
+
                 # all nodes to be added during this consideration set execution
                 cur_consideration_set_execution_exec = set()
                 # the current "layer/group" of nodes that MIGHT be added during this consideration set execution
-- 
2.43.0


From 403c67a9c1dbebba4d002c7e482a2739d14fc690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 07/49] fix: replacing conditions of an owner with structural
 conditions by item assignment

ConditionSet.__setitem__ called remove_condition with a wrong number of
arguments and raised TypeError.
---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 3f27e95..ab80344 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -706,7 +706,7 @@ class ConditionSet(object):
     def __setitem__(self, key, value):
         if key in self.conditions_structural:
             for cond in reversed(self.conditions_structural[key]):
-                self.remove_condition(key, cond)
+                self.remove_condition(cond)
 
         self.add_condition(key, value)
 
-- 
2.43.0


From 144cf923ada47d699b09eb74b93413623fe1c291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 08/49] fix: remove_condition returns the condition removed

It returned None when given an owner, and a condition that was not found and
not removed when given a condition.
---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index ab80344..92c2547 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -845,7 +845,7 @@ class ConditionSet(object):
         else:
             warnings.warn(f'Condition {condition} not found for owner {owner}.')
 
-        return condition
+        return condition_found
 
     def add_condition_set(
         self, conditions: Union['ConditionSet', typing_dict_condition_set]
-- 
2.43.0


From 58a8e6fa73d4fee2ec1f4ca479643d1c14de2fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 09/49] fix: rebuild the graph when a structural condition
 changes owner

Removing a structural condition and adding it again with another owner left
the graph as modified for the previous owner.
---
 src/graph_scheduler/scheduler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index f27eba1..19ad713 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -474,6 +474,7 @@ class Scheduler:
         """
         self.conditions = ConditionSet()
         self._last_handled_structural_condition_order = None
+        self._last_handled_structural_condition_owners = None
 
         self._graphs = []
         self._consideration_queues = []
@@ -1101,11 +1102,18 @@ class Scheduler:
         return self.mode is SchedulingMode.EXACT_TIME or len(self.consideration_queue) == 1
 
     def _handle_modified_structural_conditions(self):
-        if self._last_handled_structural_condition_order != self.conditions.structural_condition_order:
+        owners = [cond.owner for cond in self.conditions.structural_condition_order]
+        if (
+            self._last_handled_structural_condition_order != self.conditions.structural_condition_order
+            or self._last_handled_structural_condition_owners != owners
+        ):
             common_index = -1
             for i, cond in enumerate(self.conditions.structural_condition_order):
                 try:
-                    if self._last_handled_structural_condition_order[i] == cond:
+                    if (
+                        self._last_handled_structural_condition_order[i] == cond
+                        and self._last_handled_structural_condition_owners[i] == cond.owner
+                    ):
                         common_index = i
                     else:
                         break
@@ -1129,6 +1137,7 @@ class Scheduler:
             self._last_handled_structural_condition_order = copy.copy(
                 self.conditions.structural_condition_order
             )
+            self._last_handled_structural_condition_owners = owners
 
     def _push_graph(self, graph):
         try:
-- 
2.43.0


From 46b471d6615bd1c74874ac73df0095dc176ba8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 10/49] fix: keep the graph history consistent when a
 structural condition fails

When applying a condition raised ConditionError after others were removed,
the stored graphs were popped again on every later access, so the scheduler
stayed broken even after the failing condition was removed.
---
 src/graph_scheduler/scheduler.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 19ad713..290a21e 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1128,16 +1128,21 @@ class Scheduler:
                 for cond in self._last_handled_structural_condition_order[common_index + 1:]:
                     self._pop_graph()
 
+            # keep in step with the stored graphs, so that they remain
+            # usable if one of the new conditions can't be applied
+            self._last_handled_structural_condition_order = []
+            self._last_handled_structural_condition_owners = []
+            for cond in self.conditions.structural_condition_order[:common_index + 1]:
+                self._last_handled_structural_condition_order.append(cond)
+                self._last_handled_structural_condition_owners.append(cond.owner)
+
             # add dependency dicts for new structural conditions
             cur_graph = self._graphs[-1]
             for cond in self.conditions.structural_condition_order[common_index + 1:]:
                 cur_graph = cond.modify_graph(cur_graph)
                 self._push_graph(cur_graph)
-
-            self._last_handled_structural_condition_order = copy.copy(
-                self.conditions.structural_condition_order
-            )
-            self._last_handled_structural_condition_owners = owners
+                self._last_handled_structural_condition_order.append(cond)
+                self._last_handled_structural_condition_owners.append(cond.owner)
 
     def _push_graph(self, graph):
         try:
-- 
2.43.0


From 6c8c24662d9ad77bcdae266b627c08e2acc0f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 11/49] fix: do not share sender sets among nodes after graph
 structure operations

Operation.REPLACE and others return one of their arguments, so multiple nodes
in the modified graph could hold the same set of senders, and an edge added to
one of them was added to all.
---
 src/graph_scheduler/condition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 92c2547..718847c 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3138,7 +3138,8 @@ class _GSCWithOperations(_GSCUsingNodes):
                         sender, receiver, new_sender_nodes, new_receiver_nodes, graph, old_receiver_nodes
                     )
                     conflict_strings.extend(edge_conflicts)
-            result_graph[receiver] = new_sender_nodes[receiver]
+            # operations may return the same set for multiple nodes
+            result_graph[receiver] = set(new_sender_nodes[receiver])
 
         # sender has an operation that changes its receiver nodes
         # ([owner/subject]_receiver)
-- 
2.43.0


From 822741d3cf883e77f53829575557df9ab2be0fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 12/49] fix: report operation conflicts among nodes that are
 not strings

Creating the message raised TypeError instead of the ConditionError.
---
 src/graph_scheduler/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 718847c..51b4311 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2907,8 +2907,8 @@ class _GSCWithOperations(_GSCUsingNodes):
         except TypeError:
             pass
 
-        sources_str = ','.join(sources) if len(sources) else '{}'
-        comparisons_str = ','.join(comparisons) if len(comparisons) else '{}'
+        sources_str = ','.join([str(n) for n in sources]) if len(sources) else '{}'
+        comparisons_str = ','.join([str(n) for n in comparisons]) if len(comparisons) else '{}'
 
         return '\t{0} {1} applied on {2} with {3} against {4}'.format(
             str(operation_arg_name).ljust(self._operations_names_max_length()),
-- 
2.43.0


From f2eb301ac163e6785b544e085194d6fbda3e21c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 13/49] fix: compare nodes by equality in graph structure
 conditions

When the owner of a condition was equal to, but not the same object as, the
node in the graph, required edges could be pruned and cycles left in place.
---
 src/graph_scheduler/condition.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 51b4311..38cb287 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2921,7 +2921,7 @@ class _GSCWithOperations(_GSCUsingNodes):
     def _get_edge_conflicts(
         self, sender, receiver, new_sender_nodes, new_receiver_nodes, old_sender_nodes, old_receiver_nodes
     ):
-        if receiver is self.owner:
+        if receiver == self.owner:
             sender_operation = 'owner_senders'
             sender_sources = old_sender_nodes[self.owner]
             sender_comparisons = set().union(*[old_sender_nodes[n] for n in self.nodes])
@@ -2930,7 +2930,7 @@ class _GSCWithOperations(_GSCUsingNodes):
             sender_sources = old_sender_nodes[receiver]
             sender_comparisons = old_sender_nodes[self.owner]
 
-        if sender is self.owner:
+        if sender == self.owner:
             receiver_operation = 'owner_receivers'
             receiver_sources = old_receiver_nodes[self.owner]
             receiver_comparisons = set().union(*[old_receiver_nodes[n] for n in self.nodes])
@@ -3018,7 +3018,7 @@ class _GSCWithOperations(_GSCUsingNodes):
 
     def _prune_owner_edge(self, owner_idx, cycle, graph, base_graph):
         len_cycle = len(cycle)
-        assert cycle[owner_idx % len_cycle] is self.owner
+        assert cycle[owner_idx % len_cycle] == self.owner
 
         owner_is_full_ancestor = True
         owner_is_full_descendant = True
@@ -3069,11 +3069,11 @@ class _GSCWithOperations(_GSCUsingNodes):
                     receiver_idx = (i + 1) % len_c
                     receiver = c[receiver_idx]
 
-                    if receiver is self.owner:
+                    if receiver == self.owner:
                         self._prune_owner_edge(receiver_idx, c, graph, base_graph)
                     elif (
                         receiver in base_graph[sender]
-                        and sender is not self.owner
+                        and sender != self.owner
                         and not self._is_required_edge(sender, receiver)
                     ):
                         # may have been removed in another cycle
@@ -3307,7 +3307,7 @@ class BeforeNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if self.owner in graph[n]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender is self.owner and receiver in self.nodes
+        return sender == self.owner and receiver in self.nodes
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3364,7 +3364,7 @@ class WithNode(_GSCReposition, _GSCWithOperations, _GSCSingleNode):
         return [n for n in self.nodes if graph[n] == graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return receiver is self.node or receiver is self.owner
+        return receiver == self.node or receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3413,7 +3413,7 @@ class AfterNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if n in graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender in self.nodes and receiver is self.owner
+        return sender in self.nodes and receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
-- 
2.43.0


From b62382b1b067308a7986aac75c328bfc816911da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 14/49] fix: pass a new owner of a composite condition on to
 its components

After a composite condition was removed from one node and added to another,
its components (e.g. EveryNCalls) were still evaluated for the first node.
---
 src/graph_scheduler/condition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 38cb287..2b0ada0 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1142,10 +1142,11 @@ class Never(Condition):
 class CompositeCondition(Condition):
     @Condition.owner.setter
     def owner(self, value):
+        previous_owner = self.owner
         super(CompositeCondition, CompositeCondition).owner.__set__(self, value)
         for cond in self.args:
             logger.debug('owner setter: Setting owner of {0} to ({1})'.format(cond, value))
-            if cond.owner is None:
+            if cond.owner is None or cond.owner == previous_owner:
                 cond.owner = value
 
     @property
-- 
2.43.0


From b98c7972b01ead9f5ed0e79239eb92903e502f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 15/49] fix: Not and NWhen of absolute conditions are absolute
 conditions

Absolute time was not enabled when the only absolute conditions were inside
Not or NWhen, so the clock stayed at its initial absolute time.
---
 src/graph_scheduler/condition.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 2b0ada0..0857651 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1262,6 +1262,18 @@ class Not(Condition):
         super(Not, Not).owner.__set__(self, value)
         self.condition.owner = value
 
+    @property
+    def absolute_intervals(self):
+        return self.condition.absolute_intervals
+
+    @property
+    def absolute_fixed_points(self):
+        return self.condition.absolute_fixed_points
+
+    @property
+    def is_absolute(self):
+        return self.condition.is_absolute
+
 
 class NWhen(Condition):
     """NWhen
@@ -1288,6 +1300,18 @@ class NWhen(Condition):
         super(NWhen, NWhen).owner.__set__(self, value)
         self.condition.owner = value
 
+    @property
+    def absolute_intervals(self):
+        return self.condition.absolute_intervals
+
+    @property
+    def absolute_fixed_points(self):
+        return self.condition.absolute_fixed_points
+
+    @property
+    def is_absolute(self):
+        return self.condition.is_absolute
+
     def satis(self, condition, n, *args, scheduler=None, execution_id=None, **kwargs):
         if execution_id not in self.satisfactions:
             self.satisfactions[execution_id] = 0
-- 
2.43.0


From 5a8e69c90323f66f044a5a57197eb585e187c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 16/49] fix: Time uses its absolute time arguments

They were ignored in favor of the default values.
---
 src/graph_scheduler/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 53bf032..d4b9ed9 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -260,10 +260,10 @@ class Time(types.SimpleNamespace):
             **{
                 _time_scale_to_attr_str(ts): v for ts, v in time_scale_values.items()
             },
-            absolute=_get_pint_unit(0, 'ms'),
-            absolute_interval=_get_pint_unit(1, 'ms'),
-            absolute_time_unit_scale=TimeScale.CONSIDERATION_SET_EXECUTION,
-            absolute_enabled=False,
+            absolute=absolute,
+            absolute_interval=absolute_interval,
+            absolute_time_unit_scale=absolute_time_unit_scale,
+            absolute_enabled=absolute_enabled,
         )
 
     def __repr__(self):
-- 
2.43.0


From 3305d1e31203757aadc875cea3847a055b7a9cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 17/49] fix: TimeInterval compares start and end as times

They were compared before parsing, so strings were ordered alphabetically
('5ms' > '10ms') and mixed specifications raised errors.
---
 src/graph_scheduler/condition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 0857651..61b30f6 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1393,13 +1393,13 @@ class TimeInterval(AbsoluteCondition):
                 'At least one of "repeat", "start", "end" must be specified'
             )
 
-        if start is not None and end is not None and start > end:
-            raise ConditionError(f'Start ({start}) is later than {end}')
-
         repeat = _parse_absolute_unit(repeat, unit)
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
+        if start is not None and end is not None and start > end:
+            raise ConditionError(f'Start ({start}) is later than {end}')
+
         def func(scheduler, execution_id):
             satisfied = True
             clock = scheduler.get_clock(execution_id)
-- 
2.43.0


From 7fbadf9087637048622e87c04c772918fc146388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 18/49] fix: exact time grid includes the start of repeated
 intervals

With an exclusive start, the times start + k * repeat were not in the grid of
times considered in exact time mode, so the condition was never satisfied.
---
 src/graph_scheduler/condition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 61b30f6..acabf47 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1448,7 +1448,8 @@ class TimeInterval(AbsoluteCondition):
     @property
     def absolute_fixed_points(self):
         fp = []
-        if self.start_inclusive and self.start is not None:
+        # repeated intervals are measured from start even if it is exclusive
+        if self.start is not None and (self.start_inclusive or self.repeat is not None):
             fp.append(self.start)
         if self.end_inclusive and self.end is not None:
             fp.append(self.end)
-- 
2.43.0


From c0aa1f1a7dc754975655b6e2e0d2450df814575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 19/49] fix: do not advance the absolute clock to the end of
 intervals

A run started at the earliest of all start, end, and termination times, so
intervals without a start (e.g. TimeInterval(end=3)) began at their end, and
a run whose only fixed time was a TimeTermination ended before any execution.
---
 src/graph_scheduler/condition.py | 20 ++++++++++++++++++++
 src/graph_scheduler/scheduler.py | 13 ++++++-------
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index acabf47..9ed210c 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1030,6 +1030,14 @@ class Condition(ConditionBase):
         """
         return []
 
+    @property
+    def absolute_start(self):
+        """
+        In absolute time, a time before which this Condition cannot be
+        satisfied
+        """
+        return 0 * _unit_registry.ms
+
     @property
     def is_absolute(self):
         return False
@@ -1163,6 +1171,10 @@ class CompositeCondition(Condition):
             for c in filter(lambda a: a.is_absolute, self.args)
         ]))
 
+    @property
+    def absolute_start(self):
+        return min(a.absolute_start for a in self.args if a.is_absolute)
+
     @property
     def is_absolute(self):
         return any(a.is_absolute for a in self.args)
@@ -1308,6 +1320,10 @@ class NWhen(Condition):
     def absolute_fixed_points(self):
         return self.condition.absolute_fixed_points
 
+    @property
+    def absolute_start(self):
+        return self.condition.absolute_start
+
     @property
     def is_absolute(self):
         return self.condition.is_absolute
@@ -1456,6 +1472,10 @@ class TimeInterval(AbsoluteCondition):
 
         return fp
 
+    @property
+    def absolute_start(self):
+        return super().absolute_start if self.start is None else self.start
+
 
 class TimeTermination(AbsoluteCondition):
     """TimeTermination
diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 290a21e..796d07e 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -901,14 +901,13 @@ class Scheduler:
         if in_absolute_time_mode:
             current_time.absolute_interval = self._get_absolute_consideration_set_execution_unit(termination_conds)
             # advance absolute clock time to first necessary time
-            current_time.absolute = max(
+            current_time.absolute = max([
                 current_time.absolute,
-                min([
-                    min(c.absolute_fixed_points)
-                    if len(c.absolute_fixed_points) > 0 else 0
-                    for c in self.get_absolute_conditions(termination_conds).values()
-                ])
-            )
+                *sorted(
+                    c.absolute_start
+                    for c in self.get_absolute_conditions({}).values()
+                )[:1]
+            ])
             # convert to interval time unit to avoid pint floating point issues
             current_time.absolute = current_time.absolute.to(current_time.absolute_interval.u)
 
-- 
2.43.0


From c3873302e5b1fd8a58b7d20a69fc46d509e6d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 20/49] fix: update default conditions when the graph is
 modified between runs

The condition assigned in the first run to a node without one was kept as if
specified, so edges added or removed later did not affect when it executes.
---
 src/graph_scheduler/scheduler.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 796d07e..097f615 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -480,6 +480,10 @@ class Scheduler:
         self._consideration_queues = []
         self._consideration_queue_indices = []
 
+        # conditions assigned to nodes without one, and the dependencies
+        # they are based on
+        self._default_conditions = {}
+
         if termination_conds is None:
             termination_conds = default_termination_conds.copy()
         else:
@@ -835,6 +839,15 @@ class Scheduler:
     def _validate_conditions(self):
         unspecified_nodes = []
         for node in self.nodes:
+            # replace conditions assigned here before the graph was modified
+            default_cond, default_dependencies = self._default_conditions.get(node, (None, None))
+            if (
+                default_cond is not None
+                and self.conditions.conditions_basic.get(node) is default_cond
+                and default_dependencies != self.graph[node]
+            ):
+                self.conditions.remove_condition(default_cond)
+
             if node not in self.conditions.conditions_basic:
                 dependencies = list(self.graph[node])
                 if len(dependencies) == 0:
@@ -845,6 +858,7 @@ class Scheduler:
                     cond = All(*[EveryNCalls(x, 1) for x in dependencies])
 
                 self.add_condition(node, cond)
+                self._default_conditions[node] = (cond, set(dependencies))
                 unspecified_nodes.append(node)
         if len(unspecified_nodes) > 0:
             logger.info(
-- 
2.43.0


From ab4b07dcbafeb75c6b5c978b9bb246d91472fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 21/49] fix: restore docstrings when TimeScale aliases are
 removed

The alias warning was not removed from module docstrings, and the docstrings
of classes with more than one name, or modified by more than one alias, were
left substituted.
---
 src/graph_scheduler/time.py | 52 ++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index d4b9ed9..8beff80 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -643,10 +643,31 @@ def _multi_substitute_docstring(cls, subs: Dict[str, str]):
     except TypeError:
         pass
     else:
-        cls._old_docstring = cls.__doc__
+        # keep the original if cls has already been modified, for another
+        # alias or under another name
+        if '_old_docstring' not in cls.__dict__:
+            cls._old_docstring = cls.__doc__
         cls.__doc__ = new_docstring
 
 
+def _set_alias_docstring(cls, name: str, target: TimeScale):
+    if isinstance(cls, types.ModuleType):
+        try:
+            if _alias_docs_warning_str not in cls.__doc__:
+                cls._old_docstring = cls.__doc__
+                cls.__doc__ = f'{_alias_docs_warning_str}{cls.__doc__}'
+        except TypeError:
+            pass
+
+    _multi_substitute_docstring(
+        cls,
+        {
+            target.name: name,
+            _time_scale_to_class_str(target): _time_scale_to_class_str(name),
+        }
+    )
+
+
 def set_time_scale_alias(name: str, target: TimeScale):
     """Sets an alias named **name** of TimeScale **target**
 
@@ -690,20 +711,7 @@ def set_time_scale_alias(name: str, target: TimeScale):
         target_class_segment_name = _time_scale_to_class_str(target)
 
         if isinstance(cls, (type, types.ModuleType)):
-            if isinstance(cls, types.ModuleType):
-                try:
-                    if _alias_docs_warning_str not in cls.__doc__:
-                        cls.__doc__ = f'{_alias_docs_warning_str}{cls.__doc__}'
-                except TypeError:
-                    pass
-
-            _multi_substitute_docstring(
-                cls,
-                {
-                    target.name: name,
-                    target_class_segment_name: new_class_segment_name,
-                }
-            )
+            _set_alias_docstring(cls, name, target)
 
         if target_class_segment_name in cls_name:
             new_cls_name = cls_name.replace(
@@ -745,19 +753,15 @@ def remove_time_scale_alias(name: str):
         for cls_name, cls in graph_scheduler.__dict__.copy().items():
 
             if isinstance(cls, (type, types.ModuleType)):
-                if isinstance(cls, types.ModuleType):
-                    if len(_time_scale_aliases) == 0:
-                        try:
-                            re.sub(_alias_docs_warning_str, '', cls.__doc__)
-                        except TypeError:
-                            pass
-
                 try:
-                    cls.__doc__ = cls._old_docstring
+                    cls.__doc__ = cls.__dict__['_old_docstring']
                     del cls._old_docstring
-                except AttributeError:
+                except KeyError:
                     # not all modules have docstrings
                     pass
+                else:
+                    for other_target, other_name in _time_scale_aliases.items():
+                        _set_alias_docstring(cls, other_name, other_target)
 
             # NOTE: this could accidentally remove some unintended conditions if
             # an alias is constructed such that its determined class name is
-- 
2.43.0


From 0b0e1c009c819d4bbe9fde5336df24c41f85c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 22/49] fix: removing a TimeScale alias keeps conditions it did
 not add

remove_time_scale_alias('RUN') removed AllHaveRun.
---
 src/graph_scheduler/time.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 8beff80..707da5f 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -750,6 +750,7 @@ def remove_time_scale_alias(name: str):
         delattr(SimpleTime, name.lower())
 
         new_class_segment_name = _time_scale_to_class_str(name)
+        target_class_segment_name = _time_scale_to_class_str(name_aliased_time_scales[0])
         for cls_name, cls in graph_scheduler.__dict__.copy().items():
 
             if isinstance(cls, (type, types.ModuleType)):
@@ -763,10 +764,13 @@ def remove_time_scale_alias(name: str):
                     for other_target, other_name in _time_scale_aliases.items():
                         _set_alias_docstring(cls, other_name, other_target)
 
-            # NOTE: this could accidentally remove some unintended conditions if
-            # an alias is constructed such that its determined class name is
-            # a substring of some other Condition class name, but this is unlikely
-            if new_class_segment_name in cls_name:
+            # the alias class name may be a substring of some other Condition
+            # class name (e.g. Run in AllHaveRun)
+            orig_cls_name = cls_name.replace(
+                new_class_segment_name,
+                target_class_segment_name
+            )
+            if orig_cls_name != cls_name and hasattr(graph_scheduler, orig_cls_name):
                 delattr(graph_scheduler.condition, cls_name)
                 delattr(graph_scheduler, cls_name)
 
-- 
2.43.0


From 203970936c795dc34d9bb2bdf0000b07ec20b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 23/49] fix: pass all positional arguments that a condition
 function accepts

Positional arguments for optional parameters were silently dropped, those for
positional-only parameters were not passed, and required keyword-only
parameters were counted as positional.
---
 src/graph_scheduler/utilities.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 33496dc..c922aa0 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -55,6 +55,7 @@ def prune_unused_args(func, args=None, kwargs=None):
     has_args_param = False
     has_kwargs_param = False
     count_positional = 0
+    count_positional_closed = False
     func_kwargs_names = set()
 
     for name, param in sig.parameters.items():
@@ -62,10 +63,18 @@ def prune_unused_args(func, args=None, kwargs=None):
             has_args_param = True
         elif param.kind is inspect.Parameter.VAR_KEYWORD:
             has_kwargs_param = True
-        elif param.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD or param.kind is inspect.Parameter.KEYWORD_ONLY:
-            if param.default is inspect.Parameter.empty:
+        elif param.kind is inspect.Parameter.POSITIONAL_ONLY:
+            count_positional += 1
+        elif param.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD:
+            # an optional parameter takes an item of args if it and all
+            # before it aren't specified in kwargs
+            if param.default is not inspect.Parameter.empty and kwargs is not None and name in kwargs:
+                count_positional_closed = True
+            if not count_positional_closed:
                 count_positional += 1
             func_kwargs_names.add(name)
+        elif param.kind is inspect.Parameter.KEYWORD_ONLY:
+            func_kwargs_names.add(name)
 
     if args is not None:
         try:
-- 
2.43.0


From 85881713154542ff8b76c47761177054894d92fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 24/49] fix: graph structure conditions give the same graph in
 every process

---
 src/graph_scheduler/condition.py | 25 +++++++++++++++++++------
 src/graph_scheduler/scheduler.py |  8 ++++----
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 9ed210c..8daf2e1 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3032,8 +3032,10 @@ class _GSCWithOperations(_GSCUsingNodes):
             orig_owner_sender_nodes = base_graph[self.owner]
             orig_receivers_old = get_receivers(base_graph)
 
-            for sender in orig_owner_sender_nodes:
-                for receiver in orig_receivers_old[self.owner]:
+            # in the order of nodes in graph, because the order of items in
+            # sets varies among processes
+            for sender in [n for n in graph if n in orig_owner_sender_nodes]:
+                for receiver in [n for n in graph if n in orig_receivers_old[self.owner]]:
                     if (
                         receiver not in self.nodes
                         and self.owner in base_graph[receiver]
@@ -3095,16 +3097,27 @@ class _GSCWithOperations(_GSCUsingNodes):
             graph[receiver].remove(sender)
             logger.debug(f'Pruning edge {sender} to {receiver} in cycle {cycle}')
 
+    def _get_ordered_cycles(self, graph):
+        # cycles longest first, otherwise in the order of nodes in graph,
+        # because the order of items in sets varies among processes
+        order = {n: i for i, n in enumerate(graph)}
+        cycles = []
+        for c in get_simple_cycles(graph):
+            start = min(range(len(c)), key=lambda i: order[c[i]])
+            cycles.append(c[start:] + c[:start])
+
+        return sorted(cycles, key=lambda c: (-len(c), [order[n] for n in c]))
+
     def _handle_prune_cycles(self, graph, base_graph):
         if not self.prune_cycles:
             return graph
 
-        prev_cycles = list(get_simple_cycles(graph))
+        prev_cycles = self._get_ordered_cycles(graph)
 
         while len(prev_cycles) > 0:
-            cycles = list(get_simple_cycles(graph))
+            cycles = self._get_ordered_cycles(graph)
 
-            for c in sorted(prev_cycles, key=lambda x: -len(x)):
+            for c in prev_cycles:
                 if c not in cycles:
                     logger.debug(f'Cycle {c} already resolved')
                     continue
@@ -3130,7 +3143,7 @@ class _GSCWithOperations(_GSCUsingNodes):
                                 f'cycle not involving owner {c}'
                             )
 
-                cycles = list(get_simple_cycles(graph))
+                cycles = self._get_ordered_cycles(graph)
 
             if prev_cycles == cycles:
                 logger.debug(f'Failed to prune all cycles, remaining: {cycles}')
diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 097f615..f3d3e4f 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -503,10 +503,10 @@ class Scheduler:
             )
         else:
             # add empty dependency set for senders that aren't present
-            base_graph = {
-                **{n: set() for n in set().union(*graph.values())},
-                **clone_graph(graph)
-            }
+            base_graph = clone_graph(graph)
+            for n in set().union(*base_graph.values()):
+                if n not in base_graph:
+                    base_graph[n] = set()
 
         self._push_graph(base_graph)
 
-- 
2.43.0


From 23ed88f12943f0a6ec19abbd8a0a09a5a79753f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 25/49] fix: All and Any accept components as keyword arguments

---
 src/graph_scheduler/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 8daf2e1..3136a49 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1203,7 +1203,7 @@ class All(CompositeCondition):
 
     """
     def __init__(self, *args, **dependencies):
-        args += tuple(*[v for k, v in dependencies.items()])
+        args += tuple(v for k, v in dependencies.items())
         super().__init__(self.satis, *args)
 
     def satis(self, *conds, **kwargs):
@@ -1236,7 +1236,7 @@ class Any(CompositeCondition):
 
     """
     def __init__(self, *args, **dependencies):
-        args += tuple(*[v for k, v in dependencies.items()])
+        args += tuple(v for k, v in dependencies.items())
         super().__init__(self.satis, *args)
 
     def satis(self, *conds, **kwargs):
-- 
2.43.0


From ce320b1b8e182a6a2f23c743893e5638c9e6a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 26/49] fix: call condition functions that cannot be weakly
 referenced or hashed

---
 src/graph_scheduler/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index c922aa0..49d9cbd 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -51,6 +51,9 @@ def prune_unused_args(func, args=None, kwargs=None):
     except KeyError:
         sig = inspect.signature(func)
         _unused_args_sig_cache[func] = sig
+    except TypeError:
+        # unhashable or not weakly referenceable, can't be cached
+        sig = inspect.signature(func)
 
     has_args_param = False
     has_kwargs_param = False
-- 
2.43.0


From 211a38ace6849cbbe7abb18f36491aebc59b25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 27/49] fix: do not count executions of a consideration set
 execution interrupted by an error

---
 src/graph_scheduler/scheduler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index f3d3e4f..885c5bf 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -972,7 +972,16 @@ class Scheduler:
                         # only add each node once during a single consideration set execution, this also serves
                         # to prevent infinitely cascading adds
                         if current_node not in cur_consideration_set_execution_exec:
-                            if self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs):
+                            try:
+                                satisfied = self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs)
+                            except Exception:
+                                # this consideration set execution won't occur
+                                for ts in TimeScale:
+                                    for n in cur_consideration_set_execution_exec:
+                                        self.counts_total[execution_id][ts][n] -= 1
+                                raise
+
+                            if satisfied:
                                 cur_consideration_set_execution_exec.add(current_node)
                                 execution_list_has_changed = True
                                 cur_consideration_set_has_changed = True
-- 
2.43.0


From 5dc50d5b866ee1ecf36fbd34f1491de70f1dc109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 28/49] fix: represent absolute times in decimal units only

---
 src/graph_scheduler/condition.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 3136a49..ea1bca0 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -430,11 +430,21 @@ _additional__all__ = ['ConditionError', 'ConditionSet', 'Operation']
 
 logger = logging.getLogger(__name__)
 
+
+def _is_decimal_time_unit(unit):
+    magnitude = np.log10(float((1 * unit).to(_unit_registry.s).m))
+    return abs(magnitude - round(magnitude)) < 1e-9
+
+
+# other prefixes (e.g. semi, sesqui, kibi) are not supported
 _pint_all_time_units = sorted(
-    set([
-        getattr(_unit_registry, f'{x}s')
-        for x in _unit_registry._prefixes.keys()
-    ]),
+    filter(
+        _is_decimal_time_unit,
+        set([
+            getattr(_unit_registry, f'{x}s')
+            for x in _unit_registry._prefixes.keys()
+        ])
+    ),
     reverse=True
 )
 
-- 
2.43.0


From 10b509d06f978283036dbc6a71ba1ae50773acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:38 +0000
Subject: [PATCH 29/49] fix: compare absolute times in different units exactly

---
 src/graph_scheduler/condition.py | 51 ++++++++++++++++++++++++++------
 src/graph_scheduler/scheduler.py |  8 +++--
 2 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index ea1bca0..59e2e77 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -408,6 +408,7 @@ import abc
 import collections
 import copy
 import enum
+import fractions
 import functools
 import inspect
 import itertools
@@ -482,6 +483,35 @@ def _reduce_quantity_to_integer(q):
     return q
 
 
+@functools.lru_cache(maxsize=None)
+def _get_decimal_unit_exponent(from_unit, to_unit):
+    factor = (1 * from_unit).to(to_unit).m
+    exponent = round(np.log10(factor))
+
+    # units that don't differ by a power of ten (e.g. minutes and seconds)
+    if not np.isclose(factor, 10.0 ** exponent, rtol=1e-9, atol=0):
+        return None
+
+    return exponent
+
+
+def _convert_absolute_unit(q, unit):
+    # unlike q.to(unit), exact for integers and fractions, so that
+    # times specified in different units can be compared
+    exponent = _get_decimal_unit_exponent(q.u, unit)
+
+    if exponent is None:
+        return q.to(unit)
+    elif exponent == 0:
+        return q.m * unit
+    elif isinstance(q.m, float):
+        return q.to(unit)
+    elif exponent > 0:
+        return (q.m * 10 ** exponent) * unit
+    else:
+        return fractions.Fraction(q.m, 10 ** -exponent) * unit
+
+
 def _parse_absolute_unit(n, unit=None):
     def _get_quantity(n, unit):
         if isinstance(n, _unit_registry.Quantity):
@@ -1423,15 +1453,16 @@ class TimeInterval(AbsoluteCondition):
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
-        if start is not None and end is not None and start > end:
+        if start is not None and end is not None and start > _convert_absolute_unit(end, start.u):
             raise ConditionError(f'Start ({start}) is later than {end}')
 
         def func(scheduler, execution_id):
             satisfied = True
             clock = scheduler.get_clock(execution_id)
+            unit = clock.time.absolute.u
 
             if scheduler._in_exact_time_mode and start is not None:
-                offset = start
+                offset = _convert_absolute_unit(start, unit)
             else:
                 for i, cs in enumerate(scheduler.consideration_queue):
                     if self.owner in cs:
@@ -1439,21 +1470,21 @@ class TimeInterval(AbsoluteCondition):
 
             if repeat is not None:
                 satisfied &= round(
-                    (clock.time.absolute - offset) % repeat,
+                    (clock.time.absolute - offset) % _convert_absolute_unit(repeat, unit),
                     _unit_registry.precision
                 ) == 0
 
             if start is not None:
                 if start_inclusive:
-                    satisfied &= clock.time.absolute >= start
+                    satisfied &= clock.time.absolute >= _convert_absolute_unit(start, unit)
                 else:
-                    satisfied &= clock.time.absolute > start
+                    satisfied &= clock.time.absolute > _convert_absolute_unit(start, unit)
 
             if end is not None:
                 if end_inclusive:
-                    satisfied &= clock.time.absolute <= end
+                    satisfied &= clock.time.absolute <= _convert_absolute_unit(end, unit)
                 else:
-                    satisfied &= clock.time.absolute < end
+                    satisfied &= clock.time.absolute < _convert_absolute_unit(end, unit)
 
             return satisfied
 
@@ -1519,10 +1550,12 @@ class TimeTermination(AbsoluteCondition):
         def func(scheduler, execution_id):
             clock = scheduler.get_clock(execution_id)
 
+            time = _convert_absolute_unit(t, clock.time.absolute.u)
+
             if inclusive:
-                return clock.time.absolute >= t
+                return clock.time.absolute >= time
             else:
-                return clock.time.absolute > t
+                return clock.time.absolute > time
 
         super().__init__(func, t=t, inclusive=inclusive)
 
diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 885c5bf..16a2d59 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -324,7 +324,7 @@ from toposort import CircularDependencyError, toposort
 from graph_scheduler import _unit_registry
 from graph_scheduler.condition import (
     AddEdgeTo, All, AllHaveRun, Always, Condition, ConditionSet, EveryNCalls,
-    Never, RemoveEdgeFrom, _parse_absolute_unit,
+    Never, RemoveEdgeFrom, _convert_absolute_unit, _parse_absolute_unit,
     _quantity_as_integer, typing_condition_base,
 )
 from graph_scheduler.time import _get_pint_unit, Clock, TimeScale
@@ -923,9 +923,11 @@ class Scheduler:
                 )[:1]
             ])
             # convert to interval time unit to avoid pint floating point issues
-            current_time.absolute = current_time.absolute.to(current_time.absolute_interval.u)
+            current_time.absolute = _convert_absolute_unit(
+                current_time.absolute, current_time.absolute_interval.u
+            )
 
-            # .to auto converts to float even if magnitude is an int, undo
+            # keep an int magnitude where possible
             try:
                 current_time.absolute = _quantity_as_integer(current_time.absolute)
             except ValueError:
-- 
2.43.0


From 31ca36f98e0beb9563b611d076b151419d9b69d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 30/49] fix: integer overflow in absolute time comparisons

---
 src/graph_scheduler/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 16a2d59..2028bb3 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1060,7 +1060,8 @@ class Scheduler:
 
             # numerator is the largest possible length of a pass
             # denominator evenly divides this length by number of consideration set executions
-            numerator = np.gcd.reduce([interval.m for interval in intervals])
+            # int to avoid overflow of numpy integers in Fraction
+            numerator = int(np.gcd.reduce([interval.m for interval in intervals]))
             if self.mode == SchedulingMode.STANDARD:
                 denominator = len(self.consideration_queue)
             elif self.mode == SchedulingMode.EXACT_TIME:
-- 
2.43.0


From 7b0997ff0393a98c7c93041095a3175d23ede7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 31/49] fix: advance exact time if all specified times are 0

---
 src/graph_scheduler/scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 2028bb3..7711320 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1048,6 +1048,9 @@ class Scheduler:
             if self.mode is SchedulingMode.EXACT_TIME:
                 intervals.extend(c.absolute_fixed_points)
 
+        # a fixed point at 0 does not limit the interval
+        intervals = [i for i in intervals if i.m != 0]
+
         if len(intervals) == 0:
             return self.default_absolute_time_unit
         else:
-- 
2.43.0


From efcff747ed08eb443386e3fee7a6447e49054ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 32/49] fix: start passes in absolute time at multiples of
 their length

---
 src/graph_scheduler/scheduler.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 7711320..fc79f45 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -313,6 +313,7 @@ import datetime
 import enum
 import fractions
 import logging
+import math
 import warnings
 from typing import Dict, Hashable, Iterable, List, Set, Union
 
@@ -927,6 +928,16 @@ class Scheduler:
                 current_time.absolute, current_time.absolute_interval.u
             )
 
+            # specified times are multiples of the length of a pass, so
+            # passes must start at one
+            pass_length = self._get_absolute_pass_length(
+                current_time.absolute_interval, termination_conds
+            )
+            if pass_length is not None:
+                current_time.absolute = pass_length * math.ceil(
+                    round((current_time.absolute / pass_length).m, _unit_registry.precision)
+                )
+
             # keep an int magnitude where possible
             try:
                 current_time.absolute = _quantity_as_integer(current_time.absolute)
@@ -1076,6 +1087,20 @@ class Scheduler:
                 res = fractions.Fraction(numerator=numerator, denominator=denominator)
             return res * min_time_unit
 
+    def _get_absolute_pass_length(self, absolute_interval, termination_conds):
+        """Computes the time length of a pass, or None if passes may start
+        at any time
+        """
+        conds = self.get_absolute_conditions(termination_conds).values()
+        if self.mode is SchedulingMode.EXACT_TIME:
+            if any(t.m != 0 for c in conds for t in [*c.absolute_intervals, *c.absolute_fixed_points]):
+                return absolute_interval
+        elif not self._in_exact_time_mode:
+            if any(c.absolute_intervals for c in conds):
+                return absolute_interval * len(self.consideration_queue)
+
+        return None
+
     def get_absolute_conditions(self, termination_conds=None):
         if termination_conds is None:
             termination_conds = self.termination_conds
-- 
2.43.0


From f5ed6f9c4a5cfa4d6deb4abe15e338d8de5c575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 33/49] fix: schedulers yield the nodes of their own graph

The consideration queue was cached for graphs that compare equal, so a
scheduler yielded the node objects of another scheduler created before
if nodes are equal but not identical.
---
 src/graph_scheduler/scheduler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index fc79f45..8bc3d5c 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -330,7 +330,7 @@ from graph_scheduler.condition import (
 )
 from graph_scheduler.time import _get_pint_unit, Clock, TimeScale
 from graph_scheduler.utilities import (
-    cached_graph_function, clone_graph, networkx_digraph_to_dependency_dict,
+    clone_graph, networkx_digraph_to_dependency_dict,
     typing_graph_dependency_dict,
 )
 
@@ -359,7 +359,6 @@ class SchedulingMode(enum.Enum):
     EXACT_TIME = enum.auto()
 
 
-@cached_graph_function
 def _build_consideration_queue(
     graph: typing_graph_dependency_dict
 ) -> List[Set[Hashable]]:
-- 
2.43.0


From 8056eba00afdf3e5d8cc60e394264ed59283b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 34/49] fix: cached graph functions use a stale result if a
 changed graph has the same hash

The sets of the graph were shared with the key of the cache.
---
 src/graph_scheduler/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 49d9cbd..d57b1f8 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -286,7 +286,10 @@ def cached_graph_function(func):
     """
     @functools.wraps(func)
     def graph_function_wrapper(graph: typing_graph_dependency_dict):
-        return cached_hashable_graph_function(func, HashableDict(graph))
+        # the cached key must not change when graph does
+        return cached_hashable_graph_function(
+            func, HashableDict((k, frozenset(v)) for k, v in graph.items())
+        )
 
     return graph_function_wrapper
 
-- 
2.43.0


From 20c4a85d9aa9e2044756648fdd9ca5f94d9a8857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 35/49] fix: changing a result of get_receivers and others
 changes later results

The cached result itself was returned.
---
 src/graph_scheduler/utilities.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index d57b1f8..1c9c0d2 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -287,9 +287,14 @@ def cached_graph_function(func):
     @functools.wraps(func)
     def graph_function_wrapper(graph: typing_graph_dependency_dict):
         # the cached key must not change when graph does
-        return cached_hashable_graph_function(
+        res = cached_hashable_graph_function(
             func, HashableDict((k, frozenset(v)) for k, v in graph.items())
         )
+        # the cached result must not change when the returned one does
+        if isinstance(res, dict):
+            return {k: set(v) for k, v in res.items()}
+        else:
+            return [list(v) for v in res]
 
     return graph_function_wrapper
 
-- 
2.43.0


From 96142004191538fd4cee23e46c13ef2ae2e0273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 36/49] fix: do not modify dictionaries passed as subject
 operations

Names of operations were replaced by Operation members in the
dictionary of the caller.
---
 src/graph_scheduler/condition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 59e2e77..9cdd326 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3294,6 +3294,7 @@ class _GSCWithOperations(_GSCUsingNodes):
             operation_arg_name = 'subject_receivers'
 
         if isinstance(subject, dict):
+            subject = dict(subject)
             for n, v in subject.items():
                 if n not in nodes:
                     raise ConditionError(
-- 
2.43.0


From a7ec08df8b6dbdab4a654c74a22ac1b750fd4599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 37/49] fix: report subject operations that are missing in a
 dictionary

The check compared the sets in the wrong direction, so it never applied
and the error was raised only when modifying a graph.
---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 9cdd326..b68eb01 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3302,7 +3302,7 @@ class _GSCWithOperations(_GSCUsingNodes):
                     )
                 subject[n] = self._parse_operation_arg(v)
 
-            nodes_missing_subject_operations = subject.keys() - set(nodes)
+            nodes_missing_subject_operations = set(nodes) - subject.keys()
             if len(nodes_missing_subject_operations) > 0:
                 raise ConditionError(
                     f'{operation_arg_name} specified as a dict but does not'
-- 
2.43.0


From ee532b29cdd034a7a82224e459b87151f27d077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 38/49] fix: IndexError when removing the only structural
 condition of an owner

The condition to be returned was looked up after it was removed.
---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index b68eb01..0cb8c2c 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -871,8 +871,8 @@ class ConditionSet(object):
                         )
                     )
                 elif len(owner_struct_conds) == 1:
-                    remove_structural_condition(owner_struct_conds[0])
                     condition_found = owner_struct_conds[0]
+                    remove_structural_condition(condition_found)
         else:
             if condition is owner_basic_cond:
                 remove_basic_condition(condition)
-- 
2.43.0


From acf4f7659c6b159d933216f5f19c6499a28c1027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 39/49] fix: alias names containing another TimeScale name

Names derived from other aliases were exported and not removed, and
docstrings were substituted repeatedly.
---
 src/graph_scheduler/time.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 707da5f..3c3d95d 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -27,6 +27,8 @@ __all__ = [
 
 
 _time_scale_aliases = {}
+# names of Condition classes exported for each alias
+_alias_condition_names = {}
 _alias_docs_warning_str = """
 
 .. note:: This documentation was modified from the original due to environment-specific TimeScale renamings. If there is any confusion, please see the original documentation at https://www.github.com/kmantel/graph-scheduler
@@ -706,7 +708,13 @@ def set_time_scale_alias(name: str, target: TimeScale):
 
     # alias name in style of a class name
     new_class_segment_name = _time_scale_to_class_str(name)
+    alias_condition_names = set().union(*_alias_condition_names.values())
+    _alias_condition_names[name] = []
     for cls_name, cls in graph_scheduler.__dict__.copy().items():
+        # same as under its original name
+        if cls_name in alias_condition_names:
+            continue
+
         # make aliases of conditions that contain a TimeScale name (e.g. AtEnvironmentStateUpdate)
         target_class_segment_name = _time_scale_to_class_str(target)
 
@@ -725,6 +733,8 @@ def set_time_scale_alias(name: str, target: TimeScale):
             graph_scheduler.condition.__all__.append(new_cls_name)
             graph_scheduler.__all__.append(new_cls_name)
 
+            _alias_condition_names[name].append(new_cls_name)
+
 
 def remove_time_scale_alias(name: str):
     """Removes an alias previously set by `set_time_scale_alias`
@@ -749,10 +759,7 @@ def remove_time_scale_alias(name: str):
         delattr(Time, name.lower())
         delattr(SimpleTime, name.lower())
 
-        new_class_segment_name = _time_scale_to_class_str(name)
-        target_class_segment_name = _time_scale_to_class_str(name_aliased_time_scales[0])
-        for cls_name, cls in graph_scheduler.__dict__.copy().items():
-
+        for cls in graph_scheduler.__dict__.copy().values():
             if isinstance(cls, (type, types.ModuleType)):
                 try:
                     cls.__doc__ = cls.__dict__['_old_docstring']
@@ -764,15 +771,9 @@ def remove_time_scale_alias(name: str):
                     for other_target, other_name in _time_scale_aliases.items():
                         _set_alias_docstring(cls, other_name, other_target)
 
-            # the alias class name may be a substring of some other Condition
-            # class name (e.g. Run in AllHaveRun)
-            orig_cls_name = cls_name.replace(
-                new_class_segment_name,
-                target_class_segment_name
-            )
-            if orig_cls_name != cls_name and hasattr(graph_scheduler, orig_cls_name):
-                delattr(graph_scheduler.condition, cls_name)
-                delattr(graph_scheduler, cls_name)
+        for cls_name in _alias_condition_names.pop(name):
+            delattr(graph_scheduler.condition, cls_name)
+            delattr(graph_scheduler, cls_name)
 
-                graph_scheduler.condition.__all__.remove(cls_name)
-                graph_scheduler.__all__.remove(cls_name)
+            graph_scheduler.condition.__all__.remove(cls_name)
+            graph_scheduler.__all__.remove(cls_name)
-- 
2.43.0


From ea8dc80da8a8acff2bd44985e085570f0c607833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 40/49] fix: Threshold indices given as an iterator are used
 only once

---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 0cb8c2c..5f15801 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2590,6 +2590,9 @@ class Threshold(_DependencyValidation, Condition):
             indices = [indices.value]
         elif indices is not None and not isinstance(indices, collections.abc.Iterable):
             indices = [indices]
+        elif isinstance(indices, collections.abc.Iterator):
+            # used in each evaluation
+            indices = list(indices)
 
         def func(threshold, comparator, indices, atol, rtol, execution_id):
             param_value = self.get_parameter_value(execution_id)
-- 
2.43.0


From b61f9cb9da2995cd61f07e8e2f8abb570fdadc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:15 +0000
Subject: [PATCH 41/49] fix: do not count executions of a consideration set
 execution that is interrupted

---
 src/graph_scheduler/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 8bc3d5c..00652b8 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -986,7 +986,7 @@ class Scheduler:
                         if current_node not in cur_consideration_set_execution_exec:
                             try:
                                 satisfied = self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs)
-                            except Exception:
+                            except BaseException:
                                 # this consideration set execution won't occur
                                 for ts in TimeScale:
                                     for n in cur_consideration_set_execution_exec:
-- 
2.43.0


From 655041b1721bc1f6defabb11c355ffb38863ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 42/49] fix: custom graph structure functions without a
 signature

---
 src/graph_scheduler/condition.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 5f15801..c8efe0a 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2761,9 +2761,14 @@ class CustomGraphStructureCondition(GraphStructureCondition):
     def _process(self, graph):
         graph = super()._process(graph)
 
-        sig = inspect.signature(self.process_graph_function)
-        if 'self' in sig.parameters:
-            if next(iter(sig.parameters)) != 'self':
+        try:
+            parameters = inspect.signature(self.process_graph_function).parameters
+        except ValueError:
+            # no signature available, e.g. builtin types
+            parameters = {}
+
+        if 'self' in parameters:
+            if next(iter(parameters)) != 'self':
                 raise ConditionError(
                     "If using 'self' in process_graph_function, it must be the first argument"
                 )
-- 
2.43.0


From a7c19aedb59e485c40b3590bfb2f8a80a1a1fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 43/49] fix: dependencies that are bytes made schedulers
 unusable

---
 src/graph_scheduler/condition.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index c8efe0a..0b7f5c6 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1093,7 +1093,11 @@ class _DependencyValidation:
     def _validate_owner(self, value):
         try:
             # "dependency" or "dependencies" is always the first positional argument
-            if not isinstance(self.args[0], collections.abc.Iterable) or isinstance(self.args[0], str):
+            # anything hashable is itself a node, even if it is iterable (str, bytes, tuple, ...)
+            if (
+                not isinstance(self.args[0], collections.abc.Iterable)
+                or isinstance(self.args[0], collections.abc.Hashable)
+            ):
                 dependencies = [self.args[0]]
             else:
                 dependencies = self.args[0]
-- 
2.43.0


From 821a292b0d2cf0176187980875bfdda0540b0de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 44/49] fix: repeated TimeIntervals without a position in the
 graph raised UnboundLocalError

---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 0b7f5c6..7ecf34b 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1468,6 +1468,9 @@ class TimeInterval(AbsoluteCondition):
             if scheduler._in_exact_time_mode and start is not None:
                 offset = _convert_absolute_unit(start, unit)
             else:
+                # without a position in the graph, e.g. in a termination
+                # condition, repeats are measured from time 0
+                offset = 0 * unit
                 for i, cs in enumerate(scheduler.consideration_queue):
                     if self.owner in cs:
                         offset = i * clock.time.absolute_interval
-- 
2.43.0


From c47b3706ee997204cd400519c338d33a46e79225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 45/49] fix: keep structure conditions of a node if the
 condition assigned instead of them is rejected

---
 src/graph_scheduler/condition.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 7ecf34b..c7137cb 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -744,12 +744,14 @@ class ConditionSet(object):
         return self.conditions[key]
 
     def __setitem__(self, key, value):
-        if key in self.conditions_structural:
-            for cond in reversed(self.conditions_structural[key]):
-                self.remove_condition(cond)
+        replaced = list(self.conditions_structural.get(key, []))
 
+        # before removal, because value may be rejected
         self.add_condition(key, value)
 
+        for cond in reversed(replaced):
+            self.remove_condition(cond)
+
     def add_condition(self, owner: Hashable, condition: typing_condition_base):
         """
         Adds a `basic <graph_scheduler.condition.Condition>` or `graph
-- 
2.43.0


From 5bcd8d661cf45bdf34d945f1bfbc22715c1b416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 46/49] fix: JustRan evaluated without a scheduler raised
 AttributeError

---
 src/graph_scheduler/condition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index c7137cb..ee44494 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2285,6 +2285,8 @@ class JustRan(_DependencyValidation, Condition):
                 return False
             except TypeError:
                 return dependency == scheduler.execution_list[execution_id][-1]
+            except AttributeError as e:
+                raise ConditionError(f'{type(self).__name__}: scheduler must be supplied to is_satisfied: {e}.')
         super().__init__(func, dependency)
 
 
-- 
2.43.0


From 1270cc5249d6842f5ade967ee4ee13a299bcfc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 47/49] fix: aliases with leading, trailing or repeated
 underscores were half set, with IndexError

---
 src/graph_scheduler/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 3c3d95d..155aeb8 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -630,7 +630,7 @@ def _time_scale_to_class_str(time_scale: Union[TimeScale, str]) -> str:
     except AttributeError:
         name = time_scale
 
-    return ''.join([f'{x[0].upper()}{x[1:].lower()}' for x in name.split('_')])
+    return ''.join([f'{x[:1].upper()}{x[1:].lower()}' for x in name.split('_')])
 
 
 def _attr_str_to_time_scale(attr_str):
-- 
2.43.0


From 622d98e6bef97bc7bdd594253630b9df55751b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 48/49] fix: aliases named like a TimeScale were rejected, but
 kept for the representation of times

---
 src/graph_scheduler/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 155aeb8..773d4f7 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -693,8 +693,9 @@ def set_time_scale_alias(name: str, target: TimeScale):
     except AttributeError as e:
         raise ValueError(f'Invalid TimeScale {target}') from e
 
-    _time_scale_aliases[target] = name
+    # before the alias is stored, because names of members are rejected
     setattr(TimeScale, name, target)
+    _time_scale_aliases[target] = name
 
     def getter(self):
         return getattr(self, _time_scale_to_attr_str(target))
-- 
2.43.0


From 4b0a842eaca1929c8846e95c8393bbaf514e6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 49/49] fix: times with many digits were reduced to a wrong
 integer of a tiny unit

---
 src/graph_scheduler/condition.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index ee44494..4da9e50 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -413,7 +413,9 @@ import functools
 import inspect
 import itertools
 import logging
+import math
 import operator
+import sys
 import warnings
 from typing import Callable, Dict, Hashable, Iterable, List, Set, Union
 
@@ -466,8 +468,14 @@ typing_dict_condition_set = Dict[Hashable, Union[typing_condition_base, Iterable
 
 def _quantity_as_integer(q):
     rounded = round(q.m, _unit_registry.precision)
-    if rounded == int(rounded):
-        return int(rounded) * q.u
+    nearest = round(rounded)
+    # floats with many digits may only differ by the error of converting
+    # them to another unit
+    if rounded == nearest or (
+        isinstance(rounded, float)
+        and math.isclose(rounded, nearest, rel_tol=4 * sys.float_info.epsilon)
+    ):
+        return int(nearest) * q.u
     else:
         raise ValueError(f'{q} cannot be safely converted to integer magnitude')
 
-- 
2.43.0

