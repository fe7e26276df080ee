From 491e6f9dc77b977c73c80ab481d23a8e8df8e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:10 +0000
Subject: [PATCH 01/31] fix: treat an inactive parent as not satisfying a
 not-equals condition

In vector form an inactive hyperparameter is nan, and nan differs from every
value, so a NotEqualsCondition on an inactive parent counted as satisfied.
Sampling then returned configurations with inactive hyperparameters set, and
spaces with valid defaults were refused. The value form already answered False.
---
 src/ConfigSpace/conditions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index f7bd20d..f19ba27 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -239,6 +239,18 @@ class NotEqualsCondition(BinaryOpCondition):
     _OP = operator.ne
     _VECTOR_OP = operator.ne
 
+    # NOTE: An inactive parent is `nan` in vector form, which is `!=` to everything.
+    # As for every other condition, an inactive parent does not satisfy it.
+    @override
+    def satisfied_by_vector(self, vector: Array[f64]) -> bool:
+        parent_value = vector[self.parent_vector_id]
+        return bool(parent_value != self.vector_value and not np.isnan(parent_value))
+
+    @override
+    def satisfied_by_vector_array(self, arr: Array[f64]) -> Mask:
+        vector = arr[self.parent_vector_id]
+        return (vector != self.vector_value) & ~np.isnan(vector)  # type: ignore
+
 
 class LessThanCondition(BinaryOpCondition):
     """Hyperparameter `child` is conditional on the `parent` hyperparameter
-- 
2.43.0


From 5942deffbd9519882302b085fbf0cfae879a6be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:38 +0000
Subject: [PATCH 02/31] fix: report hyperparameters activated through an
 or-condition as active

A hyperparameter whose or-condition holds through one parent was reported
inactive as soon as any other parent was inactive, although sampling and
validation treat it as active. Conditions already answer False for inactive
parents, so the extra nan check is not needed.
---
 src/ConfigSpace/configuration_space.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index c0c0ecc..29d27c9 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -510,23 +510,9 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
         for hp_name in self.keys():
             conditions = self.parent_conditions_of[hp_name]
 
-            active = True
-            for condition in conditions:
-                parent_vector_idx: np.intp | Array[np.intp]
-                if isinstance(condition, Conjunction):
-                    assert condition.parent_vector_ids is not None
-                    parent_vector_idx = condition.parent_vector_ids
-                else:
-                    parent_vector_idx = np.asarray(condition.parent_vector_id)
-
-                if np.isnan(vector[parent_vector_idx]).any():
-                    active = False
-                    break
-
-                if not condition.satisfied_by_vector(vector):
-                    active = False
-                    break
-
+            active = all(
+                condition.satisfied_by_vector(vector) for condition in conditions
+            )
             if active:
                 active_hyperparameters.add(hp_name)
 
-- 
2.43.0


From e5841fd3b0dfa25a790b012b4ff2ea631249d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:09 +0000
Subject: [PATCH 03/31] fix: decide conditions only after all of their parents

Conditions were ordered by their shallowest parent. A condition with one shallow
and one deep parent was therefore evaluated before the deep parent had been
switched off, leaving its child active. Order them by the deepest parent.
---
 src/ConfigSpace/_condition_tree.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 30fbac9..58f536c 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -589,10 +589,12 @@ class DAG:
             if a is not b:
                 assert a.unique_children.keys().isdisjoint(b.unique_children.keys())
 
-        def shallowest_parent(_x: ConditionNode) -> int:
-            return min(self.nodes[_p].maximum_depth for _p in _x.node_parents())
+        # A condition can only be decided once all of its parents have been, i.e. it
+        # must come after the condition of its deepest parent.
+        def deepest_parent(_x: ConditionNode) -> int:
+            return max(self.nodes[_p].maximum_depth for _p in _x.node_parents())
 
-        self.minimum_conditions = sorted(minimum_conditions, key=shallowest_parent)
+        self.minimum_conditions = sorted(minimum_conditions, key=deepest_parent)
 
         condition_trees = {id(c): c for c in self.minimum_conditions}
         updated = True
@@ -605,12 +607,12 @@ class DAG:
 
                 if b.depends_on(a):
                     a.dependants.append(b)
-                    a.dependants = sorted(a.dependants, key=shallowest_parent)
+                    a.dependants = sorted(a.dependants, key=deepest_parent)
                     if id(b) in condition_trees:
                         condition_trees.pop(id(b))
                     updated = True
 
-        sorted_condition_trees = sorted(condition_trees.values(), key=shallowest_parent)
+        sorted_condition_trees = sorted(condition_trees.values(), key=deepest_parent)
 
         # Now we go through the trees and update the lookup
         # Note that it's possible to have reconverging paths, i.e.
@@ -627,7 +629,7 @@ class DAG:
                     self.change_hp_lookup[parent].extend([tree, *tree.dependants])
                     self.change_hp_lookup[parent] = sorted(
                         self.change_hp_lookup[parent],
-                        key=shallowest_parent,
+                        key=deepest_parent,
                     )
 
             trees.extend(tree.dependants)
-- 
2.43.0


From b3b7a11d2aa86f7317751779ec21d1a565026bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:37 +0000
Subject: [PATCH 04/31] fix: list every neighbour of a discretised value
 exactly once

When all values of a normal or beta integer were requested as neighbours, the
values below the current one were spread over one step too many. That produced
values off the integer grid and the current value itself.
---
 src/ConfigSpace/hyperparameters/distributions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 993e72a..dba3986 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -659,11 +659,16 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
                 stepsize = (upper - lower) / (self.steps - 1)
 
                 # Edge case for when qcenter is the lower bound
-                steps_to_take = int((qvector - lower) / stepsize) + 1
+                steps_to_take = int(np.rint((qvector - lower) / stepsize)) + 1
                 if steps_to_take == 1:
                     bottom = np.array([])
                 else:
-                    bottom = np.linspace(lower, qvector, steps_to_take, endpoint=False)
+                    bottom = np.linspace(
+                        lower,
+                        qvector,
+                        steps_to_take - 1,
+                        endpoint=False,
+                    )
 
                 top = np.linspace(qvector + stepsize, upper, steps - steps_to_take)
 
-- 
2.43.0


From 51c0711f3d64f58ae8679e743042b56821fb1db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:30 +0000
Subject: [PATCH 05/31] fix: sample log-scaled normal and beta integers on the
 integer grid

The samples and neighbours of these two types were rounded to uniform steps of
the unit interval, although integers are not uniformly spaced on a log scale.
The resulting vectors failed the legality check and did not match conditions and
forbidden clauses on the integer they decode to. Density values are unchanged.
---
 src/ConfigSpace/hyperparameters/beta_integer.py   | 3 +++
 src/ConfigSpace/hyperparameters/distributions.py  | 9 ++++++++-
 src/ConfigSpace/hyperparameters/normal_integer.py | 3 +++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/beta_integer.py b/src/ConfigSpace/hyperparameters/beta_integer.py
index a1495aa..c6fb6ff 100644
--- a/src/ConfigSpace/hyperparameters/beta_integer.py
+++ b/src/ConfigSpace/hyperparameters/beta_integer.py
@@ -145,6 +145,9 @@ class BetaIntegerHyperparameter(IntegerHyperparameter):
             steps=size,
             lower_vectorized=f64(0.0),
             upper_vectorized=f64(1.0),
+            log_scale=self.log,
+            transformer=scaler,
+            log_density=False,
         )
 
         super().__init__(
diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index dba3986..f37a100 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -394,6 +394,13 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
     This is used on log-scale transformation.
     """
 
+    log_density: bool = True
+    """Whether the density is normalized over the log-scaled steps.
+
+    If `False`, it is normalized over uniform steps of the vectorized space. Has no
+    effect if `log_scale=False`.
+    """
+
     def __post_init__(self) -> None:
         if self.steps < 1:
             raise ValueError("The number of steps must be at least 1.")
@@ -482,7 +489,7 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
         qlow, qhigh = self._quantize(x=np.array([lower, upper]))
 
         # If we're not on a log-scale, we do simple uniform distance steps
-        if not self.log_scale:
+        if not self.log_scale or not self.log_density:
             stepsize = (upper - lower) / (self.steps - 1)
             steps_intermediate = (qhigh - qlow) / stepsize + 1
             return linspace_chunked(
diff --git a/src/ConfigSpace/hyperparameters/normal_integer.py b/src/ConfigSpace/hyperparameters/normal_integer.py
index a975068..5b18c7f 100644
--- a/src/ConfigSpace/hyperparameters/normal_integer.py
+++ b/src/ConfigSpace/hyperparameters/normal_integer.py
@@ -149,6 +149,9 @@ class NormalIntegerHyperparameter(IntegerHyperparameter):
             steps=int(size),
             lower_vectorized=f64(0.0),
             upper_vectorized=f64(1.0),
+            log_scale=self.log,
+            transformer=scaler,
+            log_density=False,
         )
         super().__init__(
             name=name,
-- 
2.43.0


From 5b128ee68d763ff4298d3d304fb212fa3292c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:22 +0000
Subject: [PATCH 06/31] fix: never return a forbidden one-exchange neighbour

Changing a parent activates its children with their default values. Only the
forbidden clauses mentioning the parent were checked, so a clause on a newly
activated child was missed. Check all clauses when the value has dependants.
---
 src/ConfigSpace/util.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index f93baab..779b95e 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -325,8 +325,15 @@ def get_one_exchange_neighbourhood(
                 index=hp_idx,
             )
 
+            # Changing a parent may activate children with their default value, which
+            # can be forbidden by clauses that do not mention the parent itself.
+            if hp_name in dag.change_hp_lookup:
+                forbiddens = dag.fast_forbidden_checks
+            else:
+                forbiddens = dag.forbidden_lookup.get(hp_name, [])
+
             is_valid = True
-            for forbidden in space._dag.forbidden_lookup.get(hp_name, []):
+            for forbidden in forbiddens:
                 if forbidden.is_forbidden_vector(new_arr):
                     is_valid = False
                     break
-- 
2.43.0


From 91208d06edc7611139eb8316a3dc80727942db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:15 +0000
Subject: [PATCH 07/31] fix: make neighbours of discretised values
 bit-identical to samples

The exhaustive neighbour list used linspace, which is off by one rounding error
for some values. Such neighbours escaped equality conditions and forbidden
clauses. Use the same expression as the quantisation of samples.
---
 .../hyperparameters/distributions.py          | 20 +++++--------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index f37a100..ab51af3 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -663,21 +663,11 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
 
                 top = self.transformer.to_vector(top_orig)
             else:
-                stepsize = (upper - lower) / (self.steps - 1)
-
-                # Edge case for when qcenter is the lower bound
-                steps_to_take = int(np.rint((qvector - lower) / stepsize)) + 1
-                if steps_to_take == 1:
-                    bottom = np.array([])
-                else:
-                    bottom = np.linspace(
-                        lower,
-                        qvector,
-                        steps_to_take - 1,
-                        endpoint=False,
-                    )
-
-                top = np.linspace(qvector + stepsize, upper, steps - steps_to_take)
+                # Same expression as used for quantization, such that the neighbors are
+                # exactly the values which can be sampled.
+                grid = np.arange(steps) / (steps - 1) * (upper - lower) + lower
+                center = int(np.argmin(np.abs(grid - qvector)))
+                bottom, top = grid[:center], grid[center + 1 :]
 
             return np.concatenate((bottom, top))
 
-- 
2.43.0


From f72ef41a09e5c80ca84ef86bf7399a0625d15058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:15 +0000
Subject: [PATCH 08/31] fix: quantise log-scaled integers to their exact vector
 representation

Quantisation on the log scale left a rounding error in some sampled vectors.
These integers escaped equality conditions and forbidden clauses, which compare
vectors exactly.
---
 src/ConfigSpace/hyperparameters/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index ab51af3..ffd98c2 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -540,13 +540,18 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
             return quantize(x, bounds=vectorized_bounds, bins=self.steps)
 
         assert self.original_value_scale
-        return quantize_log(
+        quantized = quantize_log(
             x,
             bounds=vectorized_bounds,
             scale_slice=(self.original_value_scale),
             bins=self.steps,
         )
 
+        # Going through the values removes the rounding errors of the above, such that
+        # the result is exactly the vectorized representation of a value.
+        assert self.transformer is not None
+        return self.transformer.to_vector(self.transformer.to_value(quantized))
+
     def pdf_vector(self, vector: Array[f64]) -> Array[f64]:
         """Calculate the probability density function (pdf) of all elements in `vector`.
 
-- 
2.43.0


From ded93a1d9eb042755400c9717654b87c32049378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:58 +0000
Subject: [PATCH 09/31] fix: do not merge an and-condition with an or-condition

Conditions that look the same are evaluated once for all their children. And- and
or-conjunctions over the same parts were treated as the same condition, and parts
were compared in one direction only, so a child could follow the wrong one.
---
 src/ConfigSpace/conditions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index f19ba27..3367d89 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -471,17 +471,20 @@ class Conjunction:
 
     def equivalent_condition_on_parent(self, other: ConditionLike) -> bool:
         # Not entirely true but it's a good enough approximation
-        if not isinstance(other, Conjunction):
+        if not isinstance(other, self.__class__):
             return False
 
         if len(self.components) != len(other.components):
             return False
 
-        # Each condition must match at one of the other conditions, which is of the same
-        # conjunction type and has equal amount of components
+        # Each condition must match at one of the other conditions and vice versa, which
+        # is of the same conjunction type and has equal amount of components
         return all(
             any(c.equivalent_condition_on_parent(o) for o in other.components)
             for c in self.components
+        ) and all(
+            any(c.equivalent_condition_on_parent(o) for c in self.components)
+            for o in other.components
         )
 
     @abstractmethod
-- 
2.43.0


From 8d70f9781d4797b0340e26e84d5f380ce7bb593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:58 +0000
Subject: [PATCH 10/31] fix: keep the names of a space intact when it is nested
 into another one

Copies of forbidden clauses shared the hyperparameter with the original. Nesting
renames the copies, which renamed the hyperparameters of the source space.
---
 src/ConfigSpace/forbidden.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/forbidden.py b/src/ConfigSpace/forbidden.py
index 5eb535d..050b427 100644
--- a/src/ConfigSpace/forbidden.py
+++ b/src/ConfigSpace/forbidden.py
@@ -360,7 +360,10 @@ class ForbiddenEqualsClause(ForbiddenClause):
         return f"Forbidden: {self.hyperparameter.name} == {self.value!r}"
 
     def __copy__(self) -> Self:
-        return self.__class__(hyperparameter=self.hyperparameter, value=self.value)
+        return self.__class__(
+            hyperparameter=copy(self.hyperparameter),
+            value=self.value,
+        )
 
     @override
     def is_forbidden_value(self, values: dict[str, Any]) -> bool:
@@ -452,7 +455,10 @@ class ForbiddenInClause(ForbiddenClause):
         return all(value in other.values for value in self.values)
 
     def __copy__(self) -> Self:
-        return self.__class__(hyperparameter=self.hyperparameter, values=self.values)
+        return self.__class__(
+            hyperparameter=copy(self.hyperparameter),
+            values=self.values,
+        )
 
     @override
     def is_forbidden_value(self, values: dict[str, Any]) -> bool:
-- 
2.43.0


From 0f7ddc8f5053c37ec7f5dd312ae5c2a52e4dfcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:02 +0000
Subject: [PATCH 11/31] fix: leave a space unchanged when adding to it fails

A rejected or interrupted call to add() left behind whatever had been added up to
that point, and sometimes stale caches. Apply the additions to a copy of the
internal graph and go back to the previous graph on any error.
---
 src/ConfigSpace/_condition_tree.py     | 44 ++++++++++++++++++++++----
 src/ConfigSpace/configuration_space.py | 34 +++++++++++++-------
 2 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 58f536c..c02ceff 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -33,7 +33,7 @@ from __future__ import annotations
 
 from collections import deque
 from contextlib import contextmanager
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from itertools import chain, product
 from typing import TYPE_CHECKING, ClassVar, Iterator
 from typing_extensions import Self
@@ -563,11 +563,7 @@ class DAG:
         self.conditions = list(unique_everseen(conditions, key=str))
 
         # Update indices of conditions and forbiddens
-        for forbidden in self.forbiddens:
-            forbidden.set_vector_idx(self.index_of)
-
-        for condition in self.conditions:
-            condition.set_vector_idx(self.index_of)
+        self.set_vector_idx()
 
         # Create children and parent of dictionaries
         self.children_of = {}
@@ -634,6 +630,42 @@ class DAG:
 
             trees.extend(tree.dependants)
 
+    def set_vector_idx(self) -> None:
+        """Set the vector indices of all conditions and forbidden clauses."""
+        for forbidden in self.forbiddens:
+            forbidden.set_vector_idx(self.index_of)
+
+        for condition in self.conditions:
+            condition.set_vector_idx(self.index_of)
+
+    def copy(self) -> DAG:
+        """Copy the structure of the DAG.
+
+        The hyperparameters, conditions and forbidden clauses themselves are shared. The
+        cached state is only valid once the copy has been updated.
+        """
+        nodes = {
+            name: replace(node, children={}, parents={}, forbiddens=[*node.forbiddens])
+            for name, node in self.nodes.items()
+        }
+        for name, node in self.nodes.items():
+            nodes[name].children = {
+                child: (nodes[child], cond) for child, (_, cond) in node.children.items()
+            }
+            nodes[name].parents = {
+                parent: (nodes[parent], cond)
+                for parent, (_, cond) in node.parents.items()
+            }
+
+        return replace(
+            self,
+            nodes=nodes,
+            roots={name: nodes[name] for name in self.roots},
+            non_roots={name: nodes[name] for name in self.non_roots},
+            unconditional_forbiddens=[*self.unconditional_forbiddens],
+            conditional_forbiddens=[*self.conditional_forbiddens],
+        )
+
     @property
     def forbiddens(self) -> list[ForbiddenLike]:
         """Get all the forbidden clauses in the DAG."""
diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index 29d27c9..127afdb 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -337,18 +337,28 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
         for a in args:
             _put_to_list(a)
 
-        with self._dag.update():
-            for hp in hps:
-                self._dag.add(hp)
-
-            for condition in conditions:
-                self._dag.add_condition(condition)
-
-            for forbidden in forbiddens:
-                self._dag.add_forbidden(forbidden)
-
-        self._len = len(self._dag.nodes)
-        self._check_default_configuration()
+        # Everything is added to a copy, such that the space is left as it was if any
+        # of it is rejected.
+        dag = self._dag
+        try:
+            self._dag = dag.copy()
+            with self._dag.update():
+                for hp in hps:
+                    self._dag.add(hp)
+
+                for condition in conditions:
+                    self._dag.add_condition(condition)
+
+                for forbidden in forbiddens:
+                    self._dag.add_forbidden(forbidden)
+
+            self._len = len(self._dag.nodes)
+            self._check_default_configuration()
+        except BaseException:
+            self._dag = dag
+            self._len = len(dag.nodes)
+            dag.set_vector_idx()
+            raise
 
     def add_configuration_space(
         self,
-- 
2.43.0


From b9a208a810197f42318483bd5cf8bf531f44000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:26 +0000
Subject: [PATCH 12/31] fix: add a nested space and its parent condition in one
 step

The parent condition of a nested space was added after the nested space itself.
If the condition was rejected, the nested hyperparameters stayed in the space
without it.
---
 src/ConfigSpace/configuration_space.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index 127afdb..9aa83ef 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -436,10 +436,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
                     forb_dlc.hyperparameter.name = _new_name(forb_dlc.hyperparameter)
             forbiddens_to_add.append(new_forbidden)
 
-        self.add(new_parameters, conditions_to_add, forbiddens_to_add)
-
         # Finally, we may need to add conditions to the added search space
-        conditions_to_add = []
         if parent_hyperparameter is not None:
             parent = parent_hyperparameter["parent"]
             value = parent_hyperparameter["value"]
@@ -447,13 +444,14 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
             # Only add a condition if the parameter is a top-level parameter of the new
             # configuration space (this will be some kind of tree structure).
             root_params = [
-                hp for hp in new_parameters if len(self.parents_of[hp.name]) == 0
+                new_hp
+                for hp, new_hp in zip(configuration_space.values(), new_parameters)
+                if len(configuration_space.parents_of[hp.name]) == 0
             ]
             for param in root_params:
                 conditions_to_add.append(EqualsCondition(param, parent, value))
 
-        if len(conditions_to_add) > 0:
-            self.add(conditions_to_add)
+        self.add(new_parameters, conditions_to_add, forbiddens_to_add)
 
         return configuration_space
 
-- 
2.43.0


From 89bfc6a1123a232a912e17ecb195b0e0fff2f451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:48 +0000
Subject: [PATCH 13/31] fix: stop looking for a random neighbour after 10000
 rejections

The documentation promises a ValueError in this case. The rejections were not
counted, so the call never returned when every change was rejected.
---
 src/ConfigSpace/util.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 779b95e..1874b23 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -381,6 +381,7 @@ def get_random_neighbor(configuration: Configuration, seed: int) -> Configuratio
     """
     random = np.random.RandomState(seed)
     rejected = True
+    n_rejected = 0
     values = copy.deepcopy(dict(configuration))
     new_configuration = None
 
@@ -430,8 +431,14 @@ def get_random_neighbor(configuration: Configuration, seed: int) -> Configuratio
         try:
             new_configuration = Configuration(configuration.config_space, values=values)
             rejected = False
-        except ValueError:
+        except ValueError as e:
             values[hp.name] = previous_value
+            n_rejected += 1
+            if n_rejected > 10000:
+                raise ValueError(
+                    "Could not find a valid neighbor, more than 10000 configurations"
+                    " were rejected.",
+                ) from e
 
     assert new_configuration is not None
     return new_configuration
-- 
2.43.0


From ca33fd57690eb56590b38bd29ae24c3f7e7d304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:10 +0000
Subject: [PATCH 14/31] fix: check unconditional hyperparameters when
 validating a vector

Only values of conditional hyperparameters were checked for legality. A vector
with an out-of-range value for an unconditional one was reported as valid.
---
 src/ConfigSpace/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 1874b23..8074581 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -594,6 +594,9 @@ def check_configuration(  # noqa: D103
         if not activated[hp_idx]:
             raise ActiveHyperparameterNotSetError(root.hp)
 
+        if not root.hp._transformer.legal_vector_single(vector[hp_idx]):
+            raise IllegalVectorizedValueError(root.hp, vector[hp_idx])
+
     for cnode in space._dag.minimum_conditions:
         # Everything for the condition is satisfied, make sure active
         # hyperparameters are set, legal and not forbidden
-- 
2.43.0


From 36dc3d000e6a83684f1af2913e48f16b3cb799f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:44 +0000
Subject: [PATCH 15/31] fix: do not truncate an existing file when a space is
 not serialisable

to_json() opened the file before encoding the space. A value that JSON can not
represent then left a partial file in place of the previous content.
---
 src/ConfigSpace/configuration_space.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index 9aa83ef..f0e04b2 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -1090,12 +1090,14 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
                 function. If not provided, the default encoders will be used.
             **kwargs: Additional arguments to pass to `json.dump`
         """
-        serialized = self.to_serialized_dict(encoders=encoders)
+        # Encode everything before touching the file, such that an existing file is not
+        # lost if the space can not be represented as JSON.
+        serialized = json.dumps(self.to_serialized_dict(encoders=encoders), **kwargs)
         if isinstance(path, (str, Path)):
             with open(path, "w") as f:
-                json.dump(serialized, f, **kwargs)
+                f.write(serialized)
         else:
-            json.dump(serialized, path, **kwargs)
+            path.write(serialized)
 
     @classmethod
     def from_json(
-- 
2.43.0


From 763de5378f59399f55c3ab61e163ed0a6876431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:06 +0000
Subject: [PATCH 16/31] fix: do not modify the dictionary a space is decoded
 from

Decoding removed keys from the dictionaries of the caller, so the same dictionary
could not be decoded a second time.
---
 src/ConfigSpace/configuration_space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index f0e04b2..7fd933a 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -1028,6 +1028,8 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
                 cs: ConfigurationSpace,
                 _dec: _Decoder,
             ) -> Any:
+                # Decoders remove keys, leave the dictionary of the caller as it is
+                item = {**item}
                 _type = item.pop("type", None)
                 if _type is None:
                     raise KeyError(
-- 
2.43.0


From 9ae8988ed429b4f285510d89e3d54947ac2e5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:37 +0000
Subject: [PATCH 17/31] fix: return at most n neighbours of a small categorical

For up to five choices all other choices were returned, whatever n was.
---
 src/ConfigSpace/hyperparameters/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index bf39514..b95e759 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -78,7 +78,7 @@ class NeighborhoodCat(Neighborhood):
         if self._cached_neighbors is not None:
             choices = self._cached_neighbors[pivot].copy()
             seed.shuffle(choices)
-            return choices
+            return choices[:n]
 
         if self._cached_arange is not None:
             _range = self._cached_arange
-- 
2.43.0


From 5e2cbac1778f5aca0f58c5e123c908a0e1eb334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:00 +0000
Subject: [PATCH 18/31] fix: do not share a scratch array between unrelated
 spaces

Building the conditions of a space went through an array stored on the class. Two
threads building different spaces could replace it under each other, after which
changing a value of a configuration failed with a shape error.
---
 src/ConfigSpace/_condition_tree.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index c02ceff..55a069a 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -35,7 +35,7 @@ from collections import deque
 from contextlib import contextmanager
 from dataclasses import dataclass, field, replace
 from itertools import chain, product
-from typing import TYPE_CHECKING, ClassVar, Iterator
+from typing import TYPE_CHECKING, Iterator
 from typing_extensions import Self
 
 import numpy as np
@@ -75,16 +75,6 @@ class ConditionNode:
     These have a large interplay with [`HPNode`][ConfigSpace._condition_tree.HPNode].
     """
 
-    CACHED_NAN_ARRAY: ClassVar[Array[f64]] = np.array([np.nan], dtype=f64)
-    """A cached array of NaNs.
-
-    We require nans when masking out inactive hyperparameters.
-    Rather than regenerate nan arrays every time, we store one here and
-    slice it as required.
-
-    This will grow to the largest required size by any condition node.
-    """
-
     condition: ConditionLike
     """The condition that this node represents."""
 
@@ -101,10 +91,13 @@ class ConditionNode:
     """A pre-allocated array of indices into the children hyperparameters."""
 
     nan_arr: Array[f64] = field(
-        default_factory=lambda: ConditionNode.CACHED_NAN_ARRAY[:0],
+        default_factory=lambda: np.array((), dtype=f64),
         compare=False,
     )
-    """A slice of the cached NaN array, used for masking inactive hyperparameters."""
+    """A pre-allocated array of NaNs, used for masking inactive hyperparameters.
+
+    The condition nodes of a DAG all have a slice of the same array.
+    """
 
     def node_parents(self) -> list[str]:
         """Get the names of the parents of this node."""
@@ -839,14 +832,9 @@ class DAG:
             largest_required = max(
                 len(v.children_indices) for v in base_conditions.values()
             )
-            # this is a global
-            ConditionNode.CACHED_NAN_ARRAY = np.full(
-                largest_required,
-                np.nan,
-                dtype=f64,
-            )
+            nan_arr = np.full(largest_required, np.nan, dtype=f64)
             for v in base_conditions.values():
-                v.nan_arr = ConditionNode.CACHED_NAN_ARRAY[: len(v.children_indices)]
+                v.nan_arr = nan_arr[: len(v.children_indices)]
 
         # We return the base conditions such that conditions relying on
         # earlier shallower hps are first
-- 
2.43.0


From 4c10f3426ce97e4de3215c9d6c994feb0c728b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:27 +0000
Subject: [PATCH 19/31] fix: keep equality independent of densities computed
 before

Normal and beta integers cache their maximum density on first use. The cached
value took part in the comparison, so asking one of two equal hyperparameters for
its density made them different.
---
 src/ConfigSpace/hyperparameters/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index ffd98c2..bd4358d 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -433,6 +433,10 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
             return NotImplemented
 
         for key in self.__dict__:
+            # These are calculated on first use and follow from the other fields
+            if key in ("_max_density", "_pdf_norm"):
+                continue
+
             if key == "rv":
                 if not _compare_rv(self.__dict__[key], value.__dict__[key]):
                     return False
-- 
2.43.0


From 51a916eafec26c43b0cf44c287abf93bff3bee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:35 +0000
Subject: [PATCH 20/31] fix: add deep chains of conditions in reasonable time

The nodes depending on a condition were followed once per path leading to them.
Adding a chain of 16 conditional hyperparameters took half a minute and each
further one several times as long. Follow every node once.
---
 src/ConfigSpace/_condition_tree.py | 36 +++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 55a069a..7fc6fab 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -111,10 +111,18 @@ class ConditionNode:
 
     def dependant_names(self) -> set[str]:
         """Get the names of all the dependant nodes."""
-        _dep = {node.name for node in self.unique_children.values()}
-        for dep in self.dependants:
-            _dep.update(dep.dependant_names())
-        return _dep
+        names: set[str] = set()
+        # NOTE: The same node can be reached on many paths, only follow it once
+        seen: set[int] = {id(self)}
+        stack: list[ConditionNode] = [self]
+        while stack:
+            cnode = stack.pop()
+            names.update(node.name for node in cnode.unique_children.values())
+            for dep in cnode.dependants:
+                if id(dep) not in seen:
+                    seen.add(id(dep))
+                    stack.append(dep)
+        return names
 
     @classmethod
     def from_node(cls, node: HPNode) -> ConditionNode:
@@ -606,20 +614,22 @@ class DAG:
         # Now we go through the trees and update the lookup
         # Note that it's possible to have reconverging paths, i.e.
         # the same condition node might appear when starting from two
-        # different roots.
+        # different roots. It only needs to be handled once.
         self.change_hp_lookup: dict[str, list[ConditionNode]] = {}
         trees: deque[ConditionNode] = deque(sorted_condition_trees)
+        seen: set[int] = set()
         while trees:
             tree = trees.popleft()
+            if id(tree) in seen:
+                continue
+            seen.add(id(tree))
+
             for parent in tree.node_parents():
-                if parent not in self.change_hp_lookup:
-                    self.change_hp_lookup[parent] = [tree, *tree.dependants]
-                else:
-                    self.change_hp_lookup[parent].extend([tree, *tree.dependants])
-                    self.change_hp_lookup[parent] = sorted(
-                        self.change_hp_lookup[parent],
-                        key=deepest_parent,
-                    )
+                affected = self.change_hp_lookup.get(parent, [])
+                self.change_hp_lookup[parent] = sorted(
+                    unique_everseen([*affected, tree, *tree.dependants], key=id),
+                    key=deepest_parent,
+                )
 
             trees.extend(tree.dependants)
 
-- 
2.43.0


From bb3b10def028ff1e2b8d5cf5ff5379f74b94c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:18 +0000
Subject: [PATCH 21/31] fix: keep draws at the end of a normal range inside the
 bounds

The scaled truncated normal can miss its bounds by a rounding error when the
generator draws the very end of the interval. Such samples were then rejected
as illegal.
---
 src/ConfigSpace/hyperparameters/distributions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index bd4358d..930c317 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -1204,7 +1204,14 @@ class ScipyContinuousDistribution(Distribution):
         seed: RandomState | None = None,
     ) -> Array[f64]:
         """Sample `n` values from the distribution."""
-        return self.rv.rvs(size=n, random_state=seed).astype(f64)  # type: ignore
+        samples = self.rv.rvs(size=n, random_state=seed).astype(f64)
+
+        # Draws at the very end of the range can miss the bounds by a rounding error
+        return np.clip(  # type: ignore
+            samples,
+            self.lower_vectorized,
+            self.upper_vectorized,
+        )
 
     def max_density(self) -> float:
         """Return the maximum density of the distribution."""
-- 
2.43.0


From 6c16da0fd3d12a041a98ef43eebf4e79e959935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:28 +0000
Subject: [PATCH 22/31] fix: return no neighbours for a constant

The neighbourhood of a constant came back as a zero-dimensional array holding
uninitialised memory. It is an empty array now.
---
 src/ConfigSpace/hyperparameters/constant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/constant.py b/src/ConfigSpace/hyperparameters/constant.py
index 0fe8a58..b4a044d 100644
--- a/src/ConfigSpace/hyperparameters/constant.py
+++ b/src/ConfigSpace/hyperparameters/constant.py
@@ -20,7 +20,7 @@ CONSTANT_VECTOR_VALUE_NO = f64(0)
 
 
 def _empty_neighborhood(*_: Any, **__: Any) -> Array[f64]:
-    return np.ndarray([], dtype=f64)
+    return np.empty(0, dtype=f64)
 
 
 @dataclass(init=False)
-- 
2.43.0


From e139955ead6f2e13be9ffd3bb8ff180131d806ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:39 +0000
Subject: [PATCH 23/31] fix: compare clauses of a space independent of the
 order they were added in

The clauses kept per hyperparameter were listed in the order of earlier calls,
so two spaces with the same definition could compare unequal.
---
 src/ConfigSpace/_condition_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 7fc6fab..01f8c64 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -479,6 +479,9 @@ class DAG:
             at.append(n.name)
             hyperparameters.append(n.hp)
 
+            # Collected again below, so that their order is always the same
+            n.forbiddens = []
+
             nodes[n.name] = n
 
         self.roots = roots
-- 
2.43.0


From d498e6255f876ec85aa757fd23a71aa04f1f3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:01 +0000
Subject: [PATCH 24/31] fix: keep the message for an unknown hyperparameter in
 a clause short

It printed the whole graph, which takes exponential time when conditions
reconverge, so that rejecting such a clause could hang.
---
 src/ConfigSpace/_condition_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 01f8c64..e202929 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -778,7 +778,8 @@ class DAG:
             if hp.name not in self.nodes:
                 raise HyperparameterNotFoundError(
                     f"Cannot add '{tmp_clause}' because it references '{hp.name}'"
-                    f"\nHyperparameter {hp.name} not found in space.\n{self}",
+                    f"\nHyperparameter {hp.name} not found in space."
+                    f"\nKnown ones: {list(self.nodes)}",
                 )
 
         if isinstance(forbidden, ForbiddenClause):
-- 
2.43.0


From 4a45cec070f68c4b26ed03ca46955fab5d984aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:39 +0000
Subject: [PATCH 25/31] fix: keep a pickled normal or beta hyperparameter equal
 to the original

The parameters of the underlying distribution contain NaN. Comparing them relied on
both sides holding the same NaN object, which is no longer so once one was pickled.
---
 src/ConfigSpace/hyperparameters/distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 930c317..da3b661 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -57,7 +57,11 @@ def _compare_rv(a: Any, b: Any) -> bool:
     bdict = b.__dict__
     for key in adict:
         if key == "dist":
-            if adict[key]._ctor_param != bdict[key]._ctor_param:
+            # NOTE: The value marking bad arguments is NaN by default, and a NaN that
+            # was pickled is no longer the same object.
+            aparam, bparam = dict(adict[key]._ctor_param), dict(bdict[key]._ctor_param)
+            abad, bbad = aparam.pop("badvalue"), bparam.pop("badvalue")
+            if aparam != bparam or not np.array_equal(abad, bbad, equal_nan=True):
                 return False
 
         elif adict[key] != bdict[key]:
-- 
2.43.0


From c1c9c5cb5ec968b026a1ec8fabf33a330550e835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:51 +0000
Subject: [PATCH 26/31] fix: let equal configurations hash the same

The hash was taken from the representation. A value decoded from a vector can be a
numpy scalar, which is equal to the plain value but is represented differently.
---
 src/ConfigSpace/configuration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index 1b556f7..cbf3b9a 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -245,7 +245,13 @@ class Configuration(Mapping[str, Any]):
         return NotImplemented
 
     def __hash__(self) -> int:
-        return hash(self.__repr__())
+        # NOTE: Equal values need not have the same representation, e.g. `np.str_("a")`
+        # decoded from a vector and `"a"` given by the user, but they hash the same.
+        try:
+            return hash(frozenset(self.items()))
+        except TypeError:
+            # Some of the values are not hashable
+            return hash(frozenset(self))
 
     def __str__(self) -> str:
         values = dict(self)
-- 
2.43.0


From abce2056c4425a24b2e5eb8680d0b80d9db072f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:13 +0000
Subject: [PATCH 27/31] fix: let callers change a serialised space without
 changing the space

The serialised form of in-conditions and forbidden in-clauses shared its list
of values with the objects of the space. Changing the serialised form changed
the conditions and clauses of the space it came from.
---
 src/ConfigSpace/read_and_write/dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/dictionary.py b/src/ConfigSpace/read_and_write/dictionary.py
index 360b874..234c57c 100644
--- a/src/ConfigSpace/read_and_write/dictionary.py
+++ b/src/ConfigSpace/read_and_write/dictionary.py
@@ -496,7 +496,7 @@ def _encode_in_condition(
     return {
         "child": cond.child.name,
         "parent": cond.parent.name,
-        "values": cond.values,
+        "values": list(cond.values),
     }
 
 
@@ -531,7 +531,7 @@ def _encode_forbidden_in(
     cond: ForbiddenInClause,
     encode: _Encoder,  # noqa: ARG001
 ) -> dict[str, Any]:
-    return {"name": cond.hyperparameter.name, "values": cond.values}
+    return {"name": cond.hyperparameter.name, "values": list(cond.values)}
 
 
 def _encode_forbidden_and(
-- 
2.43.0


From b171c9391b536df0f5d5c81ba6bc790d2d9106cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:52 +0000
Subject: [PATCH 28/31] fix: keep draws at the upper end of a normal range from
 being NaN

The inverse distribution function returns NaN for the largest uniform draws
when the upper bound lies far in the tail. Such a draw now gives the upper
bound, as its neighbours do.
---
 src/ConfigSpace/hyperparameters/distributions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index da3b661..6dd8758 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -540,7 +540,10 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
         seed: RandomState | None = None,
     ) -> Array[f64]:
         """Sample `n` values from the distribution."""
-        return self._quantize(x=self.rv.rvs(size=n, random_state=seed))
+        samples = self.rv.rvs(size=n, random_state=seed)
+
+        # Draws at the very end of the range can be NaN, `fmin` replaces them
+        return self._quantize(x=np.fmin(samples, self.upper_vectorized))
 
     def _quantize(self, x: Array[f64]) -> Array[f64]:
         vectorized_bounds = (self.lower_vectorized, self.upper_vectorized)
@@ -1210,11 +1213,11 @@ class ScipyContinuousDistribution(Distribution):
         """Sample `n` values from the distribution."""
         samples = self.rv.rvs(size=n, random_state=seed).astype(f64)
 
-        # Draws at the very end of the range can miss the bounds by a rounding error
-        return np.clip(  # type: ignore
-            samples,
+        # Draws at the very end of the range can miss the bounds by a rounding error, at
+        # the upper end they may even be NaN, which `fmin` replaces by the bound.
+        return np.fmax(  # type: ignore
+            np.fmin(samples, self.upper_vectorized),
             self.lower_vectorized,
-            self.upper_vectorized,
         )
 
     def max_density(self) -> float:
-- 
2.43.0


From 60cd7672119fe04531e8ec7ab945e890c8285e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:50 +0000
Subject: [PATCH 29/31] fix: order clauses that are written the same by their
 type

A relation between two hyperparameters and a clause on a value have the
same text when a hyperparameter is named like that value. They were then
kept in the order in which they were added, so two spaces with the same
definition could compare unequal.
---
 src/ConfigSpace/_condition_tree.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index e202929..c67a371 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -499,6 +499,12 @@ class DAG:
         unconditional_forbiddens = []
         conditional_forbiddens = []
 
+        # A relation `a == b` and a clause `a == 2` are written the same if the
+        # hyperparameter `b` is called "2", so the types take part in the order
+        def _sort_key(_f: ForbiddenLike) -> tuple[str, list[str]]:
+            literals = _f.dlcs if isinstance(_f, ForbiddenConjunction) else (_f,)
+            return str(_f), [type(literal).__name__ for literal in literals]
+
         def _sort_forbiddens(_f: ForbiddenLike, append: bool = True) -> None:
             if append:
                 if self._is_unconditional_forbidden(_f):
@@ -510,7 +516,7 @@ class DAG:
                 hp_name = _f.hyperparameter.name
                 self.nodes[hp_name].forbiddens.append(_f)
             elif isinstance(_f, ForbiddenConjunction):
-                for dlc in sorted(_f.dlcs, key=str):
+                for dlc in sorted(_f.dlcs, key=_sort_key):
                     _sort_forbiddens(dlc, append=False)
             elif isinstance(_f, ForbiddenRelation):
                 left_name = _f.left.name
@@ -521,7 +527,7 @@ class DAG:
                 raise NotImplementedError(type(_f))
 
         # Sort forbiddens so it's always same order
-        for forbidden in sorted(self.forbiddens, key=str):
+        for forbidden in sorted(self.forbiddens, key=_sort_key):
             _sort_forbiddens(forbidden)
 
         # Now we reduce the set of all forbiddens to ensure equivalence on nodes.
-- 
2.43.0


From 78f72bfecf0095289aff11d4614d6180021ff048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:44 +0000
Subject: [PATCH 30/31] fix: compare choices which are sequences of different
 lengths

Hyperparameters whose choices are lists were not equal to their own copy when
the lists differ in length, because numpy can not build an array from them.
---
 src/ConfigSpace/hyperparameters/hp_components.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index bafc306..c1e97d1 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -163,10 +163,14 @@ class TransformerSeq(Transformer[Any]):
         if not isinstance(value, TransformerSeq):
             return False
 
-        return (
-            np.array_equal(self.seq, value.seq)
-            and self.lower_vectorized == value.lower_vectorized
-        )
+        # NOTE: Values which are sequences may differ in length, where numpy would
+        # fail to build an array to compare
+        if isinstance(self.seq, list) and isinstance(value.seq, list):
+            equal = self.seq == value.seq
+        else:
+            equal = np.array_equal(self.seq, value.seq)
+
+        return equal and self.lower_vectorized == value.lower_vectorized
 
     @override
     def to_value(self, vector: Array[f64]) -> Array[Any]:
-- 
2.43.0


From 44e2d01d942037c5625c35ae6f4a187056cd826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:44 +0000
Subject: [PATCH 31/31] fix: look up numbers among choices which are sequences

A number was compared to a list as a numpy scalar, which compares it to each
element and raises an error. Compare plain Python values instead.
---
 src/ConfigSpace/hyperparameters/hp_components.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index c1e97d1..b9921d8 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -203,7 +203,8 @@ class TransformerSeq(Transformer[Any]):
         if isinstance(self.seq, np.ndarray):
             return np.flatnonzero(np.isin(self.seq, value)).astype(f64)
 
-        return np.array([self.seq.index(v) for v in value], dtype=f64)
+        # NOTE: Comparing a numpy scalar to a list compares it to each element
+        return np.array([self.seq.index(v) for v in value.tolist()], dtype=f64)
 
     @override
     def legal_value(self, value: Array[Any]) -> Mask:
@@ -213,7 +214,7 @@ class TransformerSeq(Transformer[Any]):
         if isinstance(self.seq, np.ndarray):
             return np.isin(value, self.seq)
 
-        return np.array([v in self.seq for v in value], dtype=np.bool_)
+        return np.array([v in self.seq for v in value.tolist()], dtype=np.bool_)
 
     @override
     def legal_vector(self, vector: Array[f64]) -> Mask:
@@ -227,6 +228,8 @@ class TransformerSeq(Transformer[Any]):
     def legal_value_single(self, value: Any) -> bool:
         if self._lookup is not None:
             return value in self._lookup
+        if isinstance(self.seq, list) and isinstance(value, np.generic):
+            value = value.item()
         return value in self.seq
 
     @override
-- 
2.43.0

