From b737964cb53993ae7043efe417ee3921bc80e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 01/44] fix: string TimeScale keys in termination conditions

---
 src/graph_scheduler/scheduler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index d4d4edb..b8a20b9 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -639,7 +639,10 @@ class Scheduler:
         delkeys = set()
         for scale in termination_conds:
             try:
-                parsed_conds[getattr(TimeScale, scale.upper())] = termination_conds[scale]
+                parsed_conds = {
+                    **parsed_conds,
+                    getattr(TimeScale, scale.upper()): termination_conds[scale]
+                }
                 delkeys.add(scale)
             except (AttributeError, TypeError):
                 pass
-- 
2.43.0


From e70ce9a412641bd7fb7a5355084c527f65724a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 02/44] fix: Scheduler.run default execution contexts

run without execution_id now uses default_execution_id, and a context
started without a base_execution_id no longer copies the history of the
context named None
---
 src/graph_scheduler/scheduler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index b8a20b9..adc7cc9 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -859,8 +859,8 @@ class Scheduler:
     def run(
         self,
         termination_conds=None,
-        execution_id=None,
-        base_execution_id=None,
+        execution_id=NotImplemented,
+        base_execution_id=NotImplemented,
         skip_environment_state_update_time_increment=False,
         **kwargs,
     ):
@@ -873,6 +873,9 @@ class Scheduler:
         """
         self._validate_run_state()
 
+        if execution_id is NotImplemented:
+            execution_id = self.default_execution_id
+
         if termination_conds is None:
             termination_conds = self.termination_conds
         else:
-- 
2.43.0


From 1defbcca7eb0cbdf372430ab577e999be6806033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 03/44] fix: KeyError in absolute time mode for new execution
 contexts

---
 src/graph_scheduler/scheduler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index adc7cc9..20f7bbe 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -579,6 +579,11 @@ class Scheduler:
             else:
                 self.execution_list[execution_id] = []
 
+        if execution_id not in self.execution_timestamps:
+            self.execution_timestamps[execution_id] = list(
+                self.execution_timestamps.get(base_execution_id, [])
+            )
+
         self._init_clock(execution_id, base_execution_id)
 
     def _init_clock(self, execution_id, base_execution_id=NotImplemented):
-- 
2.43.0


From addc1d2690727830e146c11a85cd51f0577333ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 04/44] fix: JustRan is unsatisfied before the first execution

---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e57feca..2aa3992 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2180,6 +2180,9 @@ class JustRan(_DependencyValidation, Condition):
     def __init__(self, dependency):
         def func(dependency, scheduler=None, execution_id=None):
             logger.debug(f'checking if {dependency} in previous execution step set')
+            if len(scheduler.execution_list[execution_id]) == 0:
+                return False
+
             try:
                 return dependency in scheduler.execution_list[execution_id][-1]
             except TypeError:
-- 
2.43.0


From 627ec238be28026d7c4119d8db07df8f0ed927e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 05/44] fix: ConditionSet item assignment over structural
 conditions

---
 src/graph_scheduler/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 2aa3992..810f63e 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -705,8 +705,8 @@ class ConditionSet(object):
 
     def __setitem__(self, key, value):
         if key in self.conditions_structural:
-            for cond in reversed(self.conditions_structural[key]):
-                self.remove_condition(key, cond)
+            for cond in list(reversed(self.conditions_structural[key])):
+                self.remove_condition(cond)
 
         self.add_condition(key, value)
 
-- 
2.43.0


From 8e072cbc4c852d828dec23e773635191e83d48e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 06/44] fix: remove_condition returns the removed condition

---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 810f63e..a803862 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -845,7 +845,7 @@ class ConditionSet(object):
         else:
             warnings.warn(f'Condition {condition} not found for owner {owner}.')
 
-        return condition
+        return condition_found
 
     def add_condition_set(
         self, conditions: Union['ConditionSet', typing_dict_condition_set]
-- 
2.43.0


From d85af74757b044ceb4b3fe7066cfe86a5db62855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 07/44] fix: sender sets shared between nodes by structural
 operations

---
 src/graph_scheduler/condition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index a803862..bbfa9e9 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3138,7 +3138,9 @@ class _GSCWithOperations(_GSCUsingNodes):
                         sender, receiver, new_sender_nodes, new_receiver_nodes, graph, old_receiver_nodes
                     )
                     conflict_strings.extend(edge_conflicts)
-            result_graph[receiver] = new_sender_nodes[receiver]
+            # copied because some operations return their argument, which
+            # may then be shared with other nodes
+            result_graph[receiver] = set(new_sender_nodes[receiver])
 
         # sender has an operation that changes its receiver nodes
         # ([owner/subject]_receiver)
-- 
2.43.0


From e557890042faba358beb94878d4cf5d4b63d0ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 08/44] fix: structural conditions compare nodes by equality

---
 src/graph_scheduler/condition.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index bbfa9e9..783d315 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2921,7 +2921,7 @@ class _GSCWithOperations(_GSCUsingNodes):
     def _get_edge_conflicts(
         self, sender, receiver, new_sender_nodes, new_receiver_nodes, old_sender_nodes, old_receiver_nodes
     ):
-        if receiver is self.owner:
+        if receiver == self.owner:
             sender_operation = 'owner_senders'
             sender_sources = old_sender_nodes[self.owner]
             sender_comparisons = set().union(*[old_sender_nodes[n] for n in self.nodes])
@@ -2930,7 +2930,7 @@ class _GSCWithOperations(_GSCUsingNodes):
             sender_sources = old_sender_nodes[receiver]
             sender_comparisons = old_sender_nodes[self.owner]
 
-        if sender is self.owner:
+        if sender == self.owner:
             receiver_operation = 'owner_receivers'
             receiver_sources = old_receiver_nodes[self.owner]
             receiver_comparisons = set().union(*[old_receiver_nodes[n] for n in self.nodes])
@@ -3018,7 +3018,7 @@ class _GSCWithOperations(_GSCUsingNodes):
 
     def _prune_owner_edge(self, owner_idx, cycle, graph, base_graph):
         len_cycle = len(cycle)
-        assert cycle[owner_idx % len_cycle] is self.owner
+        assert cycle[owner_idx % len_cycle] == self.owner
 
         owner_is_full_ancestor = True
         owner_is_full_descendant = True
@@ -3069,11 +3069,11 @@ class _GSCWithOperations(_GSCUsingNodes):
                     receiver_idx = (i + 1) % len_c
                     receiver = c[receiver_idx]
 
-                    if receiver is self.owner:
+                    if receiver == self.owner:
                         self._prune_owner_edge(receiver_idx, c, graph, base_graph)
                     elif (
                         receiver in base_graph[sender]
-                        and sender is not self.owner
+                        and sender != self.owner
                         and not self._is_required_edge(sender, receiver)
                     ):
                         # may have been removed in another cycle
@@ -3308,7 +3308,7 @@ class BeforeNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if self.owner in graph[n]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender is self.owner and receiver in self.nodes
+        return sender == self.owner and receiver in self.nodes
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3365,7 +3365,7 @@ class WithNode(_GSCReposition, _GSCWithOperations, _GSCSingleNode):
         return [n for n in self.nodes if graph[n] == graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return receiver is self.node or receiver is self.owner
+        return receiver == self.node or receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3414,7 +3414,7 @@ class AfterNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if n in graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender in self.nodes and receiver is self.owner
+        return sender in self.nodes and receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
-- 
2.43.0


From e2cf6c3845c94e53906418fe40d3ca9487fb5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 09/44] fix: report operation conflicts between nodes that are
 not strings

---
 src/graph_scheduler/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 783d315..914b8c9 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2907,8 +2907,8 @@ class _GSCWithOperations(_GSCUsingNodes):
         except TypeError:
             pass
 
-        sources_str = ','.join(sources) if len(sources) else '{}'
-        comparisons_str = ','.join(comparisons) if len(comparisons) else '{}'
+        sources_str = ','.join(str(n) for n in sources) if len(sources) else '{}'
+        comparisons_str = ','.join(str(n) for n in comparisons) if len(comparisons) else '{}'
 
         return '\t{0} {1} applied on {2} with {3} against {4}'.format(
             str(operation_arg_name).ljust(self._operations_names_max_length()),
-- 
2.43.0


From 7dda13a08342e27b360f6785218682b169aec6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 10/44] fix: Time ignored its absolute time arguments

---
 src/graph_scheduler/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 53bf032..d4b9ed9 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -260,10 +260,10 @@ class Time(types.SimpleNamespace):
             **{
                 _time_scale_to_attr_str(ts): v for ts, v in time_scale_values.items()
             },
-            absolute=_get_pint_unit(0, 'ms'),
-            absolute_interval=_get_pint_unit(1, 'ms'),
-            absolute_time_unit_scale=TimeScale.CONSIDERATION_SET_EXECUTION,
-            absolute_enabled=False,
+            absolute=absolute,
+            absolute_interval=absolute_interval,
+            absolute_time_unit_scale=absolute_time_unit_scale,
+            absolute_enabled=absolute_enabled,
         )
 
     def __repr__(self):
-- 
2.43.0


From e376cccbba80c4d202f443dc9ef99b75be8f7146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 11/44] fix: end_environment_sequence starts new
 ENVIRONMENT_SEQUENCE counts

---
 src/graph_scheduler/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 20f7bbe..dd06b2c 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -683,6 +683,8 @@ class Scheduler:
             execution_id = self.default_execution_id
 
         self._increment_time(TimeScale.ENVIRONMENT_SEQUENCE, execution_id)
+        if execution_id in self.counts_total:
+            self._reset_counts_total(TimeScale.ENVIRONMENT_SEQUENCE, execution_id)
 
     def add_graph_edge(self, sender: Hashable, receiver: Hashable) -> AddEdgeTo:
         """
-- 
2.43.0


From 8176c4d15e86d0f0cf239ac72751cb6ec9b4a686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 12/44] fix: TimeInterval compared start and end before parsing
 their units

---
 src/graph_scheduler/condition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 914b8c9..0304789 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1368,13 +1368,13 @@ class TimeInterval(AbsoluteCondition):
                 'At least one of "repeat", "start", "end" must be specified'
             )
 
-        if start is not None and end is not None and start > end:
-            raise ConditionError(f'Start ({start}) is later than {end}')
-
         repeat = _parse_absolute_unit(repeat, unit)
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
+        if start is not None and end is not None and start > end:
+            raise ConditionError(f'Start ({start}) is later than {end}')
+
         def func(scheduler, execution_id):
             satisfied = True
             clock = scheduler.get_clock(execution_id)
-- 
2.43.0


From 46f52fabd398f12ba2dec0b44f26b9557b9e64ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 13/44] fix: Scheduler graph after a structural condition fails
 to apply

---
 src/graph_scheduler/scheduler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index dd06b2c..df32611 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1117,15 +1117,18 @@ class Scheduler:
                 for cond in self._last_handled_structural_condition_order[common_index + 1:]:
                     self._pop_graph()
 
+            # track each condition as it is applied, so that an error in
+            # one does not leave this out of step with the graphs
+            self._last_handled_structural_condition_order = (
+                self.conditions.structural_condition_order[:common_index + 1]
+            )
+
             # add dependency dicts for new structural conditions
             cur_graph = self._graphs[-1]
             for cond in self.conditions.structural_condition_order[common_index + 1:]:
                 cur_graph = cond.modify_graph(cur_graph)
                 self._push_graph(cur_graph)
-
-            self._last_handled_structural_condition_order = copy.copy(
-                self.conditions.structural_condition_order
-            )
+                self._last_handled_structural_condition_order.append(cond)
 
     def _push_graph(self, graph):
         try:
-- 
2.43.0


From 0a05ee258e9e716ed5693d337cb75ce9358ce338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 14/44] fix: check for missing subject operations

---
 src/graph_scheduler/condition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 0304789..e2a7b7a 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3193,14 +3193,14 @@ class _GSCWithOperations(_GSCUsingNodes):
             operation_arg_name = 'subject_receivers'
 
         if isinstance(subject, dict):
-            for n, v in subject.items():
+            for n in subject:
                 if n not in nodes:
                     raise ConditionError(
                         f'{_format_arg(n)} in {operation_arg_name} but not in nodes {nodes}'
                     )
-                subject[n] = self._parse_operation_arg(v)
+            subject = {n: self._parse_operation_arg(v) for n, v in subject.items()}
 
-            nodes_missing_subject_operations = subject.keys() - set(nodes)
+            nodes_missing_subject_operations = set(nodes) - subject.keys()
             if len(nodes_missing_subject_operations) > 0:
                 raise ConditionError(
                     f'{operation_arg_name} specified as a dict but does not'
-- 
2.43.0


From 5601fde838ee2fb6cadb02c8d618992be4a8f48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 15/44] fix: node counts within a CONSIDERATION_SET_EXECUTION

---
 src/graph_scheduler/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index df32611..875ddfa 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -936,6 +936,8 @@ class Scheduler:
                 and not termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
                 and not termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
             ):
+                self._reset_counts_total(TimeScale.CONSIDERATION_SET_EXECUTION, execution_id)
+
                 # all nodes to be added during this consideration set execution
                 cur_consideration_set_execution_exec = set()
                 # the current "layer/group" of nodes that MIGHT be added during this consideration set execution
-- 
2.43.0


From c309263f25658fca5649a90c3dafcc6f5f821336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 16/44] fix: cached graph functions shared their arguments and
 results with callers

---
 src/graph_scheduler/utilities.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 33496dc..c6e616e 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import functools
 import inspect
 import logging
@@ -274,7 +275,13 @@ def cached_graph_function(func):
     """
     @functools.wraps(func)
     def graph_function_wrapper(graph: typing_graph_dependency_dict):
-        return cached_hashable_graph_function(func, HashableDict(graph))
+        # copy the graph and result because the caller may modify them
+        # later, but the cache must not change
+        res = cached_hashable_graph_function(func, HashableDict(clone_graph(graph)))
+        if isinstance(res, dict):
+            return {k: copy.copy(v) for k, v in res.items()}
+        else:
+            return [copy.copy(v) for v in res]
 
     return graph_function_wrapper
 
-- 
2.43.0


From 26700a085b30e61e6f003c5fc717a387ea7ca4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 17/44] fix: owner of conditions in a composite that is moved
 to another owner

---
 src/graph_scheduler/condition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e2a7b7a..ace5884 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1142,10 +1142,11 @@ class Never(Condition):
 class CompositeCondition(Condition):
     @Condition.owner.setter
     def owner(self, value):
+        prev_owner = self.owner
         super(CompositeCondition, CompositeCondition).owner.__set__(self, value)
         for cond in self.args:
             logger.debug('owner setter: Setting owner of {0} to ({1})'.format(cond, value))
-            if cond.owner is None:
+            if cond.owner is None or cond.owner is prev_owner:
                 cond.owner = value
 
     @property
-- 
2.43.0


From b5c6a0df7782573998a010e79a35108a5d8a1389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 18/44] fix: Not and NWhen of absolute conditions are absolute

---
 src/graph_scheduler/condition.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index ace5884..250b60d 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -420,7 +420,7 @@ import numpy as np
 import pint
 
 from graph_scheduler import _unit_registry
-from graph_scheduler.time import TimeScale
+from graph_scheduler.time import _get_pint_unit, TimeScale
 from graph_scheduler.utilities import (
     call_with_pruned_args, clone_graph, get_ancestors, get_descendants,
     get_receivers, get_simple_cycles, typing_graph_dependency_dict,
@@ -1262,6 +1262,19 @@ class Not(Condition):
         super(Not, Not).owner.__set__(self, value)
         self.condition.owner = value
 
+    @property
+    def absolute_intervals(self):
+        return self.condition.absolute_intervals
+
+    @property
+    def absolute_fixed_points(self):
+        # may be satisfied before any point at which condition is
+        return [_get_pint_unit(0, 'ms'), *self.condition.absolute_fixed_points]
+
+    @property
+    def is_absolute(self):
+        return self.condition.is_absolute
+
 
 class NWhen(Condition):
     """NWhen
@@ -1288,6 +1301,18 @@ class NWhen(Condition):
         super(NWhen, NWhen).owner.__set__(self, value)
         self.condition.owner = value
 
+    @property
+    def absolute_intervals(self):
+        return self.condition.absolute_intervals
+
+    @property
+    def absolute_fixed_points(self):
+        return self.condition.absolute_fixed_points
+
+    @property
+    def is_absolute(self):
+        return self.condition.is_absolute
+
     def satis(self, condition, n, *args, scheduler=None, execution_id=None, **kwargs):
         if execution_id not in self.satisfactions:
             self.satisfactions[execution_id] = 0
-- 
2.43.0


From 89a217735202214a1a6277f1febe04a1341914b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 19/44] fix: absolute time did not advance when only time 0
 must occur

---
 src/graph_scheduler/scheduler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 875ddfa..8b11d4e 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1035,6 +1035,10 @@ class Scheduler:
             # numerator is the largest possible length of a pass
             # denominator evenly divides this length by number of consideration set executions
             numerator = np.gcd.reduce([interval.m for interval in intervals])
+            # only time 0 must occur
+            if numerator == 0:
+                return self.default_absolute_time_unit
+
             if self.mode == SchedulingMode.STANDARD:
                 denominator = len(self.consideration_queue)
             elif self.mode == SchedulingMode.EXACT_TIME:
-- 
2.43.0


From 475c4ee987ca1a9be086fadee9124a3d024725d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 20/44] fix: absolute clock skipped times at which nodes should
 execute

The first necessary time depended on termination conditions, the end of
TimeIntervals, and ignored nodes without absolute conditions
---
 src/graph_scheduler/condition.py | 13 ++++++++++++-
 src/graph_scheduler/scheduler.py | 16 ++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 250b60d..18d3891 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1233,6 +1233,14 @@ class Any(CompositeCondition):
                 return True
         return False
 
+    @property
+    def absolute_fixed_points(self):
+        fp = super().absolute_fixed_points
+        if not all(c.is_absolute for c in self.args):
+            # may be satisfied before any point of the absolute conditions
+            fp.append(_get_pint_unit(0, 'ms'))
+        return fp
+
 
 And = All
 Or = Any
@@ -1449,8 +1457,11 @@ class TimeInterval(AbsoluteCondition):
     @property
     def absolute_fixed_points(self):
         fp = []
-        if self.start_inclusive and self.start is not None:
+        if self.start is not None and (self.start_inclusive or self.repeat is not None):
             fp.append(self.start)
+        if self.start is None or not self.start_inclusive:
+            # no specific time to wait for
+            fp.append(_get_pint_unit(0, 'ms'))
         if self.end_inclusive and self.end is not None:
             fp.append(self.end)
 
diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 8b11d4e..17055e3 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -898,14 +898,18 @@ class Scheduler:
         in_absolute_time_mode = len(self.get_absolute_conditions(termination_conds)) > 0
         if in_absolute_time_mode:
             current_time.absolute_interval = self._get_absolute_consideration_set_execution_unit(termination_conds)
-            # advance absolute clock time to first necessary time
+            # advance absolute clock time to first necessary time, the
+            # first at which any node may execute
             current_time.absolute = max(
                 current_time.absolute,
-                min([
-                    min(c.absolute_fixed_points)
-                    if len(c.absolute_fixed_points) > 0 else 0
-                    for c in self.get_absolute_conditions(termination_conds).values()
-                ])
+                min(
+                    [
+                        min(c.absolute_fixed_points)
+                        if len(c.absolute_fixed_points) > 0 else 0
+                        for c in [self.conditions.conditions_basic[n] for n in self.nodes]
+                    ],
+                    default=0
+                )
             )
             # convert to interval time unit to avoid pint floating point issues
             current_time.absolute = current_time.absolute.to(current_time.absolute_interval.u)
-- 
2.43.0


From c83585afe43767e16cfa8cd15ba69f97f792d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 21/44] fix: arguments dropped or misplaced by
 prune_unused_args

---
 src/graph_scheduler/utilities.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index c6e616e..743620e 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -56,6 +56,7 @@ def prune_unused_args(func, args=None, kwargs=None):
     has_args_param = False
     has_kwargs_param = False
     count_positional = 0
+    positional_available = True
     func_kwargs_names = set()
 
     for name, param in sig.parameters.items():
@@ -63,10 +64,21 @@ def prune_unused_args(func, args=None, kwargs=None):
             has_args_param = True
         elif param.kind is inspect.Parameter.VAR_KEYWORD:
             has_kwargs_param = True
-        elif param.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD or param.kind is inspect.Parameter.KEYWORD_ONLY:
-            if param.default is inspect.Parameter.empty:
-                count_positional += 1
+        elif param.kind is inspect.Parameter.POSITIONAL_ONLY:
+            count_positional += 1
+        else:
             func_kwargs_names.add(name)
+            if param.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD:
+                # optional arguments given by keyword can't also be given
+                # by position
+                if (
+                    param.default is not inspect.Parameter.empty
+                    and kwargs is not None
+                    and name in kwargs
+                ):
+                    positional_available = False
+                if positional_available:
+                    count_positional += 1
 
     if args is not None:
         try:
-- 
2.43.0


From f7511c1d228dcaf3903e873bdc7539c83a806fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 22/44] fix: removing a TimeScale alias removed unrelated
 conditions

---
 src/graph_scheduler/time.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index d4b9ed9..d710302 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -741,6 +741,7 @@ def remove_time_scale_alias(name: str):
         delattr(Time, name.lower())
         delattr(SimpleTime, name.lower())
 
+        target_class_segment_name = _time_scale_to_class_str(name_aliased_time_scales[0])
         new_class_segment_name = _time_scale_to_class_str(name)
         for cls_name, cls in graph_scheduler.__dict__.copy().items():
 
@@ -759,12 +760,16 @@ def remove_time_scale_alias(name: str):
                     # not all modules have docstrings
                     pass
 
-            # NOTE: this could accidentally remove some unintended conditions if
-            # an alias is constructed such that its determined class name is
-            # a substring of some other Condition class name, but this is unlikely
-            if new_class_segment_name in cls_name:
-                delattr(graph_scheduler.condition, cls_name)
-                delattr(graph_scheduler, cls_name)
+            if target_class_segment_name in cls_name:
+                new_cls_name = cls_name.replace(
+                    target_class_segment_name,
+                    new_class_segment_name
+                )
+
+                # cls_name may itself be an alias
+                if hasattr(graph_scheduler, new_cls_name):
+                    delattr(graph_scheduler.condition, new_cls_name)
+                    delattr(graph_scheduler, new_cls_name)
 
-                graph_scheduler.condition.__all__.remove(cls_name)
-                graph_scheduler.__all__.remove(cls_name)
+                    graph_scheduler.condition.__all__.remove(new_cls_name)
+                    graph_scheduler.__all__.remove(new_cls_name)
-- 
2.43.0


From 812ee8503110d127cfcee41f18180c0e43933654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 23/44] fix: wrong step length for times in half or 1.5 seconds

Times like 0.5 s were stored in non-decimal units (semisecond), but conversions between units assume powers of ten, so that the step length did not divide them and nodes missed their times.
---
 src/graph_scheduler/condition.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 18d3891..f0f5f21 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -430,11 +430,22 @@ _additional__all__ = ['ConditionError', 'ConditionSet', 'Operation']
 
 logger = logging.getLogger(__name__)
 
+
+def _is_decimal_time_unit(u):
+    exponent = np.log10(float((1 * u).to('s').m))
+    return bool(np.isclose(exponent, round(exponent), rtol=0))
+
+
+# excludes non-decimal prefixes (e.g. semi, kibi), because conversions
+# among these units assume powers of ten
 _pint_all_time_units = sorted(
-    set([
-        getattr(_unit_registry, f'{x}s')
-        for x in _unit_registry._prefixes.keys()
-    ]),
+    filter(
+        _is_decimal_time_unit,
+        set([
+            getattr(_unit_registry, f'{x}s')
+            for x in _unit_registry._prefixes.keys()
+        ])
+    ),
     reverse=True
 )
 
-- 
2.43.0


From 8768cec75924224626fdf9dcc06e59ab1fabafd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 24/44] fix: exact time runs after the first missed necessary
 times

The step length did not take into account the time at which a run starts. If an earlier run ended between two necessary times, the following run stepped over them.
---
 src/graph_scheduler/scheduler.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 17055e3..e608f92 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -325,7 +325,7 @@ from graph_scheduler import _unit_registry
 from graph_scheduler.condition import (
     AddEdgeTo, All, AllHaveRun, Always, Condition, ConditionSet, EveryNCalls,
     Never, RemoveEdgeFrom, _parse_absolute_unit,
-    _quantity_as_integer, typing_condition_base,
+    _quantity_as_integer, _reduce_quantity_to_integer, typing_condition_base,
 )
 from graph_scheduler.time import _get_pint_unit, Clock, TimeScale
 from graph_scheduler.utilities import (
@@ -897,7 +897,9 @@ class Scheduler:
 
         in_absolute_time_mode = len(self.get_absolute_conditions(termination_conds)) > 0
         if in_absolute_time_mode:
-            current_time.absolute_interval = self._get_absolute_consideration_set_execution_unit(termination_conds)
+            current_time.absolute_interval = self._get_absolute_consideration_set_execution_unit(
+                termination_conds, start=current_time.absolute
+            )
             # advance absolute clock time to first necessary time, the
             # first at which any node may execute
             current_time.absolute = max(
@@ -1013,8 +1015,13 @@ class Scheduler:
     def _increment_time(self, time_scale, execution_id):
         self.get_clock(execution_id)._increment_time(time_scale)
 
-    def _get_absolute_consideration_set_execution_unit(self, termination_conds=None):
+    def _get_absolute_consideration_set_execution_unit(self, termination_conds=None, start=None):
         """Computes the time length of the gap between two consideration set executions
+
+        Args:
+            termination_conds (optional): Defaults to `termination_conds`
+            start (optional): the time from which the gaps are counted.
+                Defaults to 0
         """
         if termination_conds is None:
             termination_conds = self.termination_conds
@@ -1026,6 +1033,15 @@ class Scheduler:
             if self.mode is SchedulingMode.EXACT_TIME:
                 intervals.extend(c.absolute_fixed_points)
 
+        # times must be reached from start, which may be between the
+        # times of a previous run
+        if (
+            self.mode is SchedulingMode.EXACT_TIME
+            and start is not None
+            and any(i.m != 0 for i in intervals)
+        ):
+            intervals.append(_reduce_quantity_to_integer(start))
+
         if len(intervals) == 0:
             return self.default_absolute_time_unit
         else:
-- 
2.43.0


From edde5c4c891c9f228aa6b600a0d8b68b4800c827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 25/44] fix: absolute times in different units compared with
 rounding errors

For example 7000 us was not >= 7 ms, so that runs ended a step late and nodes missed their times. Compare in a common unit, converted exactly.
---
 src/graph_scheduler/condition.py | 52 +++++++++++++++++++++++---------
 src/graph_scheduler/scheduler.py |  9 ++++--
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index f0f5f21..82a446e 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -483,6 +483,26 @@ def _reduce_quantity_to_integer(q):
     return q
 
 
+def _to_time_unit(q, u):
+    # all times are stored in decimal units, so this is exact, unlike
+    # pint conversions, unless the magnitude of q is already a float
+    exponent = round(np.log10(float((1 * q.u).to(u).m)))
+    if exponent >= 0:
+        return q.m * 10 ** exponent * u
+    else:
+        return q.m / 10 ** -exponent * u
+
+
+def _common_unit_magnitudes(*quantities):
+    """
+    Returns:
+        the magnitudes of **quantities** in the smallest of their units,
+        to be compared without pint floating point issues
+    """
+    u = min(q.u for q in quantities)
+    return [q.m if q.u == u else _to_time_unit(q, u).m for q in quantities]
+
+
 def _parse_absolute_unit(n, unit=None):
     def _get_quantity(n, unit):
         if isinstance(n, _unit_registry.Quantity):
@@ -1417,7 +1437,11 @@ class TimeInterval(AbsoluteCondition):
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
-        if start is not None and end is not None and start > end:
+        if (
+            start is not None
+            and end is not None
+            and operator.gt(*_common_unit_magnitudes(start, end))
+        ):
             raise ConditionError(f'Start ({start}) is later than {end}')
 
         def func(scheduler, execution_id):
@@ -1432,22 +1456,23 @@ class TimeInterval(AbsoluteCondition):
                         offset = i * clock.time.absolute_interval
 
             if repeat is not None:
+                now_m, offset_m, repeat_m = _common_unit_magnitudes(
+                    clock.time.absolute, offset, repeat
+                )
                 satisfied &= round(
-                    (clock.time.absolute - offset) % repeat,
+                    (now_m - offset_m) % repeat_m,
                     _unit_registry.precision
                 ) == 0
 
             if start is not None:
-                if start_inclusive:
-                    satisfied &= clock.time.absolute >= start
-                else:
-                    satisfied &= clock.time.absolute > start
+                satisfied &= (operator.ge if start_inclusive else operator.gt)(
+                    *_common_unit_magnitudes(clock.time.absolute, start)
+                )
 
             if end is not None:
-                if end_inclusive:
-                    satisfied &= clock.time.absolute <= end
-                else:
-                    satisfied &= clock.time.absolute < end
+                satisfied &= (operator.le if end_inclusive else operator.lt)(
+                    *_common_unit_magnitudes(clock.time.absolute, end)
+                )
 
             return satisfied
 
@@ -1511,10 +1536,9 @@ class TimeTermination(AbsoluteCondition):
         def func(scheduler, execution_id):
             clock = scheduler.get_clock(execution_id)
 
-            if inclusive:
-                return clock.time.absolute >= t
-            else:
-                return clock.time.absolute > t
+            return (operator.ge if inclusive else operator.gt)(
+                *_common_unit_magnitudes(clock.time.absolute, t)
+            )
 
         super().__init__(func, t=t, inclusive=inclusive)
 
diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index e608f92..50026d3 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -325,7 +325,8 @@ from graph_scheduler import _unit_registry
 from graph_scheduler.condition import (
     AddEdgeTo, All, AllHaveRun, Always, Condition, ConditionSet, EveryNCalls,
     Never, RemoveEdgeFrom, _parse_absolute_unit,
-    _quantity_as_integer, _reduce_quantity_to_integer, typing_condition_base,
+    _quantity_as_integer, _reduce_quantity_to_integer, _to_time_unit,
+    typing_condition_base,
 )
 from graph_scheduler.time import _get_pint_unit, Clock, TimeScale
 from graph_scheduler.utilities import (
@@ -914,9 +915,11 @@ class Scheduler:
                 )
             )
             # convert to interval time unit to avoid pint floating point issues
-            current_time.absolute = current_time.absolute.to(current_time.absolute_interval.u)
+            current_time.absolute = _to_time_unit(
+                current_time.absolute, current_time.absolute_interval.u
+            )
 
-            # .to auto converts to float even if magnitude is an int, undo
+            # may convert to float even if magnitude is an int, undo
             try:
                 current_time.absolute = _quantity_as_integer(current_time.absolute)
             except ValueError:
-- 
2.43.0


From 48e5b3ee069a565ee77cbd6bdab3b1c6933db216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 26/44] fix: decimal times converted to wrong integer times

Converting between units introduced floating point errors, so that e.g. 65.6021 s became 65602099999999984 femtoseconds instead of 656021 * 100 us, and the schedule of such times was wrong or did not end.
---
 src/graph_scheduler/condition.py | 37 ++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 82a446e..6c8e4b7 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -408,6 +408,7 @@ import abc
 import collections
 import copy
 import enum
+import fractions
 import functools
 import inspect
 import itertools
@@ -472,17 +473,6 @@ def _quantity_as_integer(q):
         raise ValueError(f'{q} cannot be safely converted to integer magnitude')
 
 
-def _reduce_quantity_to_integer(q):
-    # find the largest time unit for which q can be expressed as an integer
-    for u in filter(lambda u: u <= q.u, _pint_all_time_units):
-        try:
-            return _quantity_as_integer(q.to(u))
-        except ValueError:
-            pass
-
-    return q
-
-
 def _to_time_unit(q, u):
     # all times are stored in decimal units, so this is exact, unlike
     # pint conversions, unless the magnitude of q is already a float
@@ -493,6 +483,31 @@ def _to_time_unit(q, u):
         return q.m / 10 ** -exponent * u
 
 
+def _reduce_quantity_to_integer(q):
+    units = [u for u in _pint_all_time_units if u <= q.u]
+
+    if isinstance(q.m, float):
+        # conversions of the decimal value as written are exact
+        m = fractions.Fraction(str(q.m))
+        if q.u in units:
+            q = m * q.u
+        else:
+            # e.g. minutes
+            q = m * fractions.Fraction((1 * q.u).to('s').m) * _unit_registry.s
+        convert = functools.partial(_to_time_unit, q)
+    else:
+        convert = q.to
+
+    # find the largest time unit for which q can be expressed as an integer
+    for u in units:
+        try:
+            return _quantity_as_integer(convert(u))
+        except ValueError:
+            pass
+
+    return q
+
+
 def _common_unit_magnitudes(*quantities):
     """
     Returns:
-- 
2.43.0


From ade4949aafd1898245a37e70c81bac7567e297b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 27/44] fix: absolute time moved backwards at the start of a
 run

The first necessary time was compared to the clock with rounding errors (and overflowing numpy integers), so that a run could start before the end of the previous one.
---
 src/graph_scheduler/scheduler.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 50026d3..11e4711 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -312,7 +312,10 @@ import copy
 import datetime
 import enum
 import fractions
+import functools
 import logging
+import math
+import operator
 import warnings
 from typing import Dict, Hashable, Iterable, List, Set, Union
 
@@ -324,7 +327,7 @@ from toposort import CircularDependencyError, toposort
 from graph_scheduler import _unit_registry
 from graph_scheduler.condition import (
     AddEdgeTo, All, AllHaveRun, Always, Condition, ConditionSet, EveryNCalls,
-    Never, RemoveEdgeFrom, _parse_absolute_unit,
+    Never, RemoveEdgeFrom, _common_unit_magnitudes, _parse_absolute_unit,
     _quantity_as_integer, _reduce_quantity_to_integer, _to_time_unit,
     typing_condition_base,
 )
@@ -903,17 +906,18 @@ class Scheduler:
             )
             # advance absolute clock time to first necessary time, the
             # first at which any node may execute
-            current_time.absolute = max(
-                current_time.absolute,
-                min(
-                    [
-                        min(c.absolute_fixed_points)
-                        if len(c.absolute_fixed_points) > 0 else 0
-                        for c in [self.conditions.conditions_basic[n] for n in self.nodes]
-                    ],
-                    default=0
-                )
+            first_time = min(
+                [
+                    min(c.absolute_fixed_points)
+                    if len(c.absolute_fixed_points) > 0 else 0
+                    for c in [self.conditions.conditions_basic[n] for n in self.nodes]
+                ],
+                default=0
             )
+            if first_time != 0 and operator.lt(
+                *_common_unit_magnitudes(current_time.absolute, first_time)
+            ):
+                current_time.absolute = first_time
             # convert to interval time unit to avoid pint floating point issues
             current_time.absolute = _to_time_unit(
                 current_time.absolute, current_time.absolute_interval.u
@@ -1057,7 +1061,7 @@ class Scheduler:
 
             # numerator is the largest possible length of a pass
             # denominator evenly divides this length by number of consideration set executions
-            numerator = np.gcd.reduce([interval.m for interval in intervals])
+            numerator = functools.reduce(math.gcd, [interval.m for interval in intervals])
             # only time 0 must occur
             if numerator == 0:
                 return self.default_absolute_time_unit
-- 
2.43.0


From 06297a0ebf7b73acf292a810a57018566bd45dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 28/44] fix: clock time in between default steps compared with
 rounding errors

A clock time that is not a whole number of the unit of the step was kept as float, and a node could miss its start at exactly that time.
---
 src/graph_scheduler/condition.py | 2 +-
 src/graph_scheduler/scheduler.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 6c8e4b7..c7a1808 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -480,7 +480,7 @@ def _to_time_unit(q, u):
     if exponent >= 0:
         return q.m * 10 ** exponent * u
     else:
-        return q.m / 10 ** -exponent * u
+        return q.m * fractions.Fraction(1, 10 ** -exponent) * u
 
 
 def _reduce_quantity_to_integer(q):
diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 11e4711..d5fc25a 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -923,7 +923,7 @@ class Scheduler:
                 current_time.absolute, current_time.absolute_interval.u
             )
 
-            # may convert to float even if magnitude is an int, undo
+            # may convert to fraction even if magnitude is an int, undo
             try:
                 current_time.absolute = _quantity_as_integer(current_time.absolute)
             except ValueError:
-- 
2.43.0


From 6da10a1a8145f62a0244e4711f31ce045f706d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 29/44] fix: IndexError removing a structural condition by its
 owner

---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index c7a1808..ba18111 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -877,8 +877,8 @@ class ConditionSet(object):
                         )
                     )
                 elif len(owner_struct_conds) == 1:
-                    remove_structural_condition(owner_struct_conds[0])
                     condition_found = owner_struct_conds[0]
+                    remove_structural_condition(condition_found)
         else:
             if condition is owner_basic_cond:
                 remove_basic_condition(condition)
-- 
2.43.0


From 27c50d9ce553a795cd2568adaa37a3e49c427afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 30/44] fix: failing item assignment removed structural
 conditions

---
 src/graph_scheduler/condition.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index ba18111..053a2cf 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -750,12 +750,14 @@ class ConditionSet(object):
         return self.conditions[key]
 
     def __setitem__(self, key, value):
-        if key in self.conditions_structural:
-            for cond in list(reversed(self.conditions_structural[key])):
-                self.remove_condition(cond)
+        old_structural_conditions = list(self.conditions_structural.get(key, []))
 
+        # first, because it may raise an error
         self.add_condition(key, value)
 
+        for cond in old_structural_conditions:
+            self.remove_condition(cond)
+
     def add_condition(self, owner: Hashable, condition: typing_condition_base):
         """
         Adds a `basic <graph_scheduler.condition.Condition>` or `graph
-- 
2.43.0


From 2701a6e2bbbb804b565eca93ee250d4b17f4fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 31/44] fix: names left behind by overlapping TimeScale aliases

---
 src/graph_scheduler/time.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index d710302..4fa1bad 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -27,6 +27,8 @@ __all__ = [
 
 
 _time_scale_aliases = {}
+# names added to the package by each alias
+_time_scale_alias_names = {}
 _alias_docs_warning_str = """
 
 .. note:: This documentation was modified from the original due to environment-specific TimeScale renamings. If there is any confusion, please see the original documentation at https://www.github.com/kmantel/graph-scheduler
@@ -683,6 +685,10 @@ def set_time_scale_alias(name: str, target: TimeScale):
     setattr(Time, name.lower(), prop)
     setattr(SimpleTime, name.lower(), prop)
 
+    # names made by other aliases are not aliased again
+    other_alias_names = set().union(*_time_scale_alias_names.values())
+    _time_scale_alias_names[name] = []
+
     # alias name in style of a class name
     new_class_segment_name = _time_scale_to_class_str(name)
     for cls_name, cls in graph_scheduler.__dict__.copy().items():
@@ -705,12 +711,13 @@ def set_time_scale_alias(name: str, target: TimeScale):
                 }
             )
 
-        if target_class_segment_name in cls_name:
+        if target_class_segment_name in cls_name and cls_name not in other_alias_names:
             new_cls_name = cls_name.replace(
                 target_class_segment_name,
                 new_class_segment_name
             )
 
+            _time_scale_alias_names[name].append(new_cls_name)
             setattr(graph_scheduler.condition, new_cls_name, cls)
             setattr(graph_scheduler, new_cls_name, cls)
 
@@ -741,10 +748,7 @@ def remove_time_scale_alias(name: str):
         delattr(Time, name.lower())
         delattr(SimpleTime, name.lower())
 
-        target_class_segment_name = _time_scale_to_class_str(name_aliased_time_scales[0])
-        new_class_segment_name = _time_scale_to_class_str(name)
-        for cls_name, cls in graph_scheduler.__dict__.copy().items():
-
+        for cls in list(graph_scheduler.__dict__.values()):
             if isinstance(cls, (type, types.ModuleType)):
                 if isinstance(cls, types.ModuleType):
                     if len(_time_scale_aliases) == 0:
@@ -760,16 +764,9 @@ def remove_time_scale_alias(name: str):
                     # not all modules have docstrings
                     pass
 
-            if target_class_segment_name in cls_name:
-                new_cls_name = cls_name.replace(
-                    target_class_segment_name,
-                    new_class_segment_name
-                )
-
-                # cls_name may itself be an alias
-                if hasattr(graph_scheduler, new_cls_name):
-                    delattr(graph_scheduler.condition, new_cls_name)
-                    delattr(graph_scheduler, new_cls_name)
+        for cls_name in _time_scale_alias_names.pop(name):
+            delattr(graph_scheduler.condition, cls_name)
+            delattr(graph_scheduler, cls_name)
 
-                    graph_scheduler.condition.__all__.remove(new_cls_name)
-                    graph_scheduler.__all__.remove(new_cls_name)
+            graph_scheduler.condition.__all__.remove(cls_name)
+            graph_scheduler.__all__.remove(cls_name)
-- 
2.43.0


From a3240112da3b67b85379da49bddb6030307f2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 32/44] fix: custom functions that are not hashable or weakly
 referenceable

---
 src/graph_scheduler/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 743620e..c09d663 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -52,6 +52,9 @@ def prune_unused_args(func, args=None, kwargs=None):
     except KeyError:
         sig = inspect.signature(func)
         _unused_args_sig_cache[func] = sig
+    except TypeError:
+        # func is not hashable or not weakly referenceable
+        sig = inspect.signature(func)
 
     has_args_param = False
     has_kwargs_param = False
-- 
2.43.0


From a54c02712c18730f918b9c31005826a3f9e29eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 33/44] fix: own execution_id argument of a Condition

---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 053a2cf..cf73687 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1053,12 +1053,12 @@ class Condition(ConditionBase):
         # update so that kwargs can override self.kwargs
         kwargs_to_pass = self.kwargs.copy()
         kwargs_to_pass.update(kwargs)
+        kwargs_to_pass['execution_id'] = execution_id
 
         return call_with_pruned_args(
             self.func,
             *self.args,
             *args,
-            execution_id=execution_id,
             **kwargs_to_pass
         )
 
-- 
2.43.0


From 059c8c04d26d8acddeabbb3c93040328f9ead204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:08 +0000
Subject: [PATCH 34/44] fix: invalid termination conditions given with string
 TimeScales are rejected

---
 src/graph_scheduler/scheduler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index d5fc25a..863a65c 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -657,7 +657,7 @@ class Scheduler:
                 pass
 
         try:
-            parsed_conds = {
+            valid_conds = {
                 k: parsed_conds[k]
                 for k in parsed_conds
                 if (
@@ -670,12 +670,12 @@ class Scheduler:
             raise TypeError(err_msg)
         else:
             invalid_conds = {
-                k: termination_conds[k]
-                for k in termination_conds.keys() - parsed_conds.keys() - delkeys
+                k: parsed_conds[k]
+                for k in parsed_conds.keys() - valid_conds.keys() - delkeys
             }
             if len(invalid_conds) > 0:
                 raise SchedulerError(f"{err_msg} Invalid: {invalid_conds}")
-            return parsed_conds
+            return valid_conds
 
     def end_environment_sequence(self, execution_id=NotImplemented):
         """Signals that an `ENVIRONMENT_SEQUENCE` has completed
-- 
2.43.0


From cba4eb025111c93b55dd2e41982045f12f7dab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 35/44] fix: cycles left by ordering conditions although other
 edges can be pruned

---
 src/graph_scheduler/condition.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index cf73687..b866dd3 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3138,6 +3138,20 @@ class _GSCWithOperations(_GSCUsingNodes):
             graph[receiver].remove(sender)
             logger.debug(f'Pruning edge {sender} to {receiver} in cycle {cycle}')
 
+    def _get_other_prunable_edges(self, cycles, base_graph):
+        edges = collections.Counter(
+            (c[i - 1], c[i])
+            for c in cycles
+            for i in range(len(c))
+            if len(c) > 1 and not self._is_required_edge(c[i - 1], c[i])
+        )
+        # prefer new edges, and those that are part of the most cycles
+        new_edges = [(s, r) for s, r in edges if s not in base_graph[r]]
+        candidates = new_edges or [e for e in edges if self.owner in e]
+        max_cycles = max([edges[e] for e in candidates], default=0)
+
+        return [e for e in candidates if edges[e] == max_cycles]
+
     def _handle_prune_cycles(self, graph, base_graph):
         if not self.prune_cycles:
             return graph
@@ -3176,8 +3190,17 @@ class _GSCWithOperations(_GSCUsingNodes):
                 cycles = list(get_simple_cycles(graph))
 
             if prev_cycles == cycles:
-                logger.debug(f'Failed to prune all cycles, remaining: {cycles}')
-                break
+                # none of the edges preferred to be pruned can be
+                edges = self._get_other_prunable_edges(cycles, base_graph)
+                if len(edges) == 0:
+                    logger.debug(f'Failed to prune all cycles, remaining: {cycles}')
+                    break
+
+                for sender, receiver in edges:
+                    graph[receiver].remove(sender)
+                    logger.debug(f'Pruning edge {sender} to {receiver}')
+
+                cycles = list(get_simple_cycles(graph))
 
             prev_cycles = cycles
 
-- 
2.43.0


From ac363798ea5af88b9c833cefdfe438abd6387a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 36/44] fix: alias targets which are not TimeScales are
 rejected before they have effect

---
 src/graph_scheduler/time.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 4fa1bad..7f766b0 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -672,6 +672,9 @@ def set_time_scale_alias(name: str, target: TimeScale):
     except AttributeError as e:
         raise ValueError(f'Invalid TimeScale {target}') from e
 
+    if not isinstance(target, TimeScale):
+        raise ValueError(f'Invalid TimeScale {target}')
+
     _time_scale_aliases[target] = name
     setattr(TimeScale, name, target)
 
-- 
2.43.0


From 3bdd9eb3650253c50d424bca63028f924f7cede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 37/44] fix: alias names in use by TimeScale or times are
 rejected

---
 src/graph_scheduler/time.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 7f766b0..a111ba4 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -665,6 +665,13 @@ def set_time_scale_alias(name: str, target: TimeScale):
     if len(name_aliased_time_scales) > 0:
         raise ValueError(f"'{name}' is already aliased to {name_aliased_time_scales[0]}")
 
+    if (
+        hasattr(TimeScale, name)
+        or hasattr(Time(), name.lower())
+        or hasattr(SimpleTime, name.lower())
+    ):
+        raise ValueError(f"'{name}' is already in use")
+
     try:
         target = getattr(TimeScale, target)
     except TypeError:
-- 
2.43.0


From 22ad57338e0586f0b23e8d3a0c552f9281a9c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 38/44] fix: alias names with leading or doubled underscores

---
 src/graph_scheduler/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index a111ba4..736ecb9 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -630,7 +630,7 @@ def _time_scale_to_class_str(time_scale: Union[TimeScale, str]) -> str:
     except AttributeError:
         name = time_scale
 
-    return ''.join([f'{x[0].upper()}{x[1:].lower()}' for x in name.split('_')])
+    return ''.join([f'{x[:1].upper()}{x[1:].lower()}' for x in name.split('_')])
 
 
 def _attr_str_to_time_scale(attr_str):
-- 
2.43.0


From 124b6a3e5a59b9323f801ade38d1ca8fd39bcf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 39/44] fix: parts of a composite with an equal owner are moved
 along with it

---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index b866dd3..95a03a1 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1194,7 +1194,7 @@ class CompositeCondition(Condition):
         super(CompositeCondition, CompositeCondition).owner.__set__(self, value)
         for cond in self.args:
             logger.debug('owner setter: Setting owner of {0} to ({1})'.format(cond, value))
-            if cond.owner is None or cond.owner is prev_owner:
+            if cond.owner is None or cond.owner == prev_owner:
                 cond.owner = value
 
     @property
-- 
2.43.0


From c6ecb57ee21805c911f3e6d046a1931558efd442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:40 +0000
Subject: [PATCH 40/44] fix: self-referential edges added in reconnecting
 receivers

---
 src/graph_scheduler/condition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 95a03a1..5d9742b 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3079,6 +3079,10 @@ class _GSCWithOperations(_GSCUsingNodes):
                 for receiver in orig_receivers_old[self.owner]:
                     if (
                         receiver not in self.nodes
+                        and (
+                            sender != receiver
+                            or not self.remove_new_self_referential_edges
+                        )
                         and self.owner in base_graph[receiver]
                         and sender in base_graph[self.owner]
                         and (
-- 
2.43.0


From 9e05ccab18dfabcf27320345b5dfa571b8683166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:44 +0000
Subject: [PATCH 41/44] fix: cycle warning names the condition that creates the
 cycle

---
 src/graph_scheduler/scheduler.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 863a65c..e0e7efc 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1160,17 +1160,15 @@ class Scheduler:
             cur_graph = self._graphs[-1]
             for cond in self.conditions.structural_condition_order[common_index + 1:]:
                 cur_graph = cond.modify_graph(cur_graph)
-                self._push_graph(cur_graph)
+                self._push_graph(cur_graph, cond)
                 self._last_handled_structural_condition_order.append(cond)
 
-    def _push_graph(self, graph):
+    def _push_graph(self, graph, cond=None):
         try:
             consideration_queue = _build_consideration_queue(graph)
         except CircularDependencyError as e:
             consideration_queue = [set()]
-            try:
-                cond = self.conditions.structural_condition_order[-1]
-            except IndexError:
+            if cond is None:
                 cond_str = 'Base graph'
             else:
                 cond_str = f'Condition {cond} for {cond.owner} creates a cycle: {e}'
-- 
2.43.0


From c5eec763591f1259d914ed7f41b599b5146b03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:19 +0000
Subject: [PATCH 42/44] fix: docstrings are restored when time scale aliases
 are removed

---
 src/graph_scheduler/time.py | 75 +++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 736ecb9..a27d232 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -29,6 +29,8 @@ __all__ = [
 _time_scale_aliases = {}
 # names added to the package by each alias
 _time_scale_alias_names = {}
+# docstrings of classes and modules before any alias was set
+_original_docstrings = {}
 _alias_docs_warning_str = """
 
 .. note:: This documentation was modified from the original due to environment-specific TimeScale renamings. If there is any confusion, please see the original documentation at https://www.github.com/kmantel/graph-scheduler
@@ -645,10 +647,44 @@ def _multi_substitute_docstring(cls, subs: Dict[str, str]):
     except TypeError:
         pass
     else:
-        cls._old_docstring = cls.__doc__
         cls.__doc__ = new_docstring
 
 
+def _restore_docstrings():
+    """Restores the docstrings from before any alias was set"""
+    while len(_original_docstrings) > 0:
+        obj, docstring = _original_docstrings.popitem()
+        obj.__doc__ = docstring
+
+
+def _apply_alias_to_docstrings(name: str, target: TimeScale):
+    import graph_scheduler
+
+    # an object may have several names in the package
+    objs = {
+        obj for obj in graph_scheduler.__dict__.values()
+        if isinstance(obj, (type, types.ModuleType))
+    }
+    for obj in objs:
+        # not all modules and classes have docstrings
+        if obj.__doc__ is None:
+            continue
+
+        _original_docstrings.setdefault(obj, obj.__doc__)
+
+        if isinstance(obj, types.ModuleType):
+            if _alias_docs_warning_str not in obj.__doc__:
+                obj.__doc__ = f'{_alias_docs_warning_str}{obj.__doc__}'
+
+        _multi_substitute_docstring(
+            obj,
+            {
+                target.name: name,
+                _time_scale_to_class_str(target): _time_scale_to_class_str(name),
+            }
+        )
+
+
 def set_time_scale_alias(name: str, target: TimeScale):
     """Sets an alias named **name** of TimeScale **target**
 
@@ -695,6 +731,8 @@ def set_time_scale_alias(name: str, target: TimeScale):
     setattr(Time, name.lower(), prop)
     setattr(SimpleTime, name.lower(), prop)
 
+    _apply_alias_to_docstrings(name, target)
+
     # names made by other aliases are not aliased again
     other_alias_names = set().union(*_time_scale_alias_names.values())
     _time_scale_alias_names[name] = []
@@ -705,22 +743,6 @@ def set_time_scale_alias(name: str, target: TimeScale):
         # make aliases of conditions that contain a TimeScale name (e.g. AtEnvironmentStateUpdate)
         target_class_segment_name = _time_scale_to_class_str(target)
 
-        if isinstance(cls, (type, types.ModuleType)):
-            if isinstance(cls, types.ModuleType):
-                try:
-                    if _alias_docs_warning_str not in cls.__doc__:
-                        cls.__doc__ = f'{_alias_docs_warning_str}{cls.__doc__}'
-                except TypeError:
-                    pass
-
-            _multi_substitute_docstring(
-                cls,
-                {
-                    target.name: name,
-                    target_class_segment_name: new_class_segment_name,
-                }
-            )
-
         if target_class_segment_name in cls_name and cls_name not in other_alias_names:
             new_cls_name = cls_name.replace(
                 target_class_segment_name,
@@ -758,21 +780,10 @@ def remove_time_scale_alias(name: str):
         delattr(Time, name.lower())
         delattr(SimpleTime, name.lower())
 
-        for cls in list(graph_scheduler.__dict__.values()):
-            if isinstance(cls, (type, types.ModuleType)):
-                if isinstance(cls, types.ModuleType):
-                    if len(_time_scale_aliases) == 0:
-                        try:
-                            re.sub(_alias_docs_warning_str, '', cls.__doc__)
-                        except TypeError:
-                            pass
-
-                try:
-                    cls.__doc__ = cls._old_docstring
-                    del cls._old_docstring
-                except AttributeError:
-                    # not all modules have docstrings
-                    pass
+        # aliases may be removed in any order
+        _restore_docstrings()
+        for other_target, other_name in _time_scale_aliases.items():
+            _apply_alias_to_docstrings(other_name, other_target)
 
         for cls_name in _time_scale_alias_names.pop(name):
             delattr(graph_scheduler.condition, cls_name)
-- 
2.43.0


From 75786b4005155bbc5131a854556f9e35a5532014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:47 +0000
Subject: [PATCH 43/44] fix: several aliases of one time scale work and can be
 removed

---
 src/graph_scheduler/time.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index a27d232..191aa95 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -26,7 +26,10 @@ __all__ = [
 ]
 
 
+# the alias of each TimeScale that is displayed
 _time_scale_aliases = {}
+# all aliases in the order in which they were set
+_time_scale_alias_targets = {}
 # names added to the package by each alias
 _time_scale_alias_names = {}
 # docstrings of classes and modules before any alias was set
@@ -255,9 +258,9 @@ class Time(types.SimpleNamespace):
             time_scale_values[ts] = locals()[_time_scale_to_attr_str(ts)]
 
         time_scale_values.update({
-            ts: alias_time_values[_time_scale_aliases[ts].lower()]
-            for ts in _time_scale_aliases
-            if _time_scale_aliases[ts].lower() in alias_time_values
+            ts: alias_time_values[alias.lower()]
+            for alias, ts in _time_scale_alias_targets.items()
+            if alias.lower() in alias_time_values
         })
 
         super().__init__(
@@ -719,6 +722,7 @@ def set_time_scale_alias(name: str, target: TimeScale):
         raise ValueError(f'Invalid TimeScale {target}')
 
     _time_scale_aliases[target] = name
+    _time_scale_alias_targets[name] = target
     setattr(TimeScale, name, target)
 
     def getter(self):
@@ -765,24 +769,24 @@ def remove_time_scale_alias(name: str):
     """
     import graph_scheduler
 
-    name_aliased_time_scales = list(filter(
-        lambda e: _time_scale_aliases[e] == name,
-        _time_scale_aliases
-    ))
-    assert len(name_aliased_time_scales) <= 1
-
     try:
-        del _time_scale_aliases[name_aliased_time_scales[0]]
-    except (IndexError, KeyError):
+        target = _time_scale_alias_targets.pop(name)
+    except KeyError:
         return
     else:
+        # display the latest of the other aliases of target, if any
+        del _time_scale_aliases[target]
+        for other_name, other_target in _time_scale_alias_targets.items():
+            if other_target is target:
+                _time_scale_aliases[target] = other_name
+
         delattr(TimeScale, name)
         delattr(Time, name.lower())
         delattr(SimpleTime, name.lower())
 
         # aliases may be removed in any order
         _restore_docstrings()
-        for other_target, other_name in _time_scale_aliases.items():
+        for other_name, other_target in _time_scale_alias_targets.items():
             _apply_alias_to_docstrings(other_name, other_target)
 
         for cls_name in _time_scale_alias_names.pop(name):
-- 
2.43.0


From 792045132a3a809d528de346fc23acd0e0953534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:07 +0000
Subject: [PATCH 44/44] fix: aliases which would replace names of the package
 are rejected

---
 src/graph_scheduler/time.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 191aa95..49672d6 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -721,6 +721,16 @@ def set_time_scale_alias(name: str, target: TimeScale):
     if not isinstance(target, TimeScale):
         raise ValueError(f'Invalid TimeScale {target}')
 
+    # names made by other aliases are not aliased again
+    other_alias_names = set().union(*_time_scale_alias_names.values())
+    class_segment_name = _time_scale_to_class_str(target)
+    for cls_name in graph_scheduler.__dict__.keys() - other_alias_names:
+        new_cls_name = cls_name.replace(
+            class_segment_name, _time_scale_to_class_str(name)
+        )
+        if class_segment_name in cls_name and hasattr(graph_scheduler, new_cls_name):
+            raise ValueError(f"'{name}' is already in use in {new_cls_name}")
+
     _time_scale_aliases[target] = name
     _time_scale_alias_targets[name] = target
     setattr(TimeScale, name, target)
@@ -737,8 +747,6 @@ def set_time_scale_alias(name: str, target: TimeScale):
 
     _apply_alias_to_docstrings(name, target)
 
-    # names made by other aliases are not aliased again
-    other_alias_names = set().union(*_time_scale_alias_names.values())
     _time_scale_alias_names[name] = []
 
     # alias name in style of a class name
-- 
2.43.0

