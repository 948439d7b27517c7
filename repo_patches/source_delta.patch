From 14faae42164b1deda28881792a34c9d91d4d239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:42 +0000
Subject: [PATCH 01/36] fix: honour seed=0 in SawatabiSolver

---
 sawatabi/solver/sawatabi_solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 39437be..ec7b70b 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -67,10 +67,7 @@ class SawatabiSolver(AbstractSolver):
                 raise ValueError("reverse_options must contain 'reverse_temperature'")
 
         # Use a rangom generator so that this random sequence is isolated
-        if seed:
-            self._rng = np.random.default_rng(seed)
-        else:
-            self._rng = np.random.default_rng()
+        self._rng = np.random.default_rng(seed)
 
         bqm = model.to_bqm(sign=1.0)
         self._original_bqm = bqm
-- 
2.43.0


From b080d26aa68112b4df4ade4f1960ed40cbd6fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:42 +0000
Subject: [PATCH 02/36] fix: do not overwrite the caller's initial_states in
 SawatabiSolver

---
 sawatabi/solver/sawatabi_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index ec7b70b..bae9060 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -78,10 +78,8 @@ class SawatabiSolver(AbstractSolver):
 
             # Convert initial states as well
             if initial_states:
-                for i, initial_state in enumerate(initial_states):
-                    for k, v in initial_state.items():
-                        if v == 0:
-                            initial_states[i][k] = -1
+                # Note: Do not overwrite the states given by the caller
+                initial_states = [{k: (-1 if v == 0 else v) for k, v in initial_state.items()} for initial_state in initial_states]
 
         self._model = model
         self._bqm = bqm
-- 
2.43.0


From def73a19ce0685fa70da6dee8f7763c12e6bd7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:42 +0000
Subject: [PATCH 03/36] fix: treat empty reverse_options as forward annealing
 in SawatabiSolver

---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index bae9060..c8868fc 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -166,7 +166,7 @@ class SawatabiSolver(AbstractSolver):
             reverse_target_temperature = reverse_options["reverse_temperature"]  # The max temperature when the phase is reverse annealing
 
         energy = initial_energy
-        reversing_phase = reverse_options is not None
+        reversing_phase = bool(reverse_options)
         sweep = 0
 
         energy_hist = []
-- 
2.43.0


From 0f1798b4a9def37e87df0fcc0de2d37bee85b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:42 +0000
Subject: [PATCH 04/36] fix: update_interaction must use the time of the call,
 not of the import

---
 sawatabi/model/logical_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f528bda..dca7944 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -206,7 +206,7 @@ class LogicalModel(AbstractModel):
         coefficient=None,
         scale=None,
         attributes=None,
-        timestamp=current_time(),
+        timestamp=None,
     ):
         if (not target) and (not name):
             raise ValueError("Either 'target' or 'name' must be specified.")
@@ -219,8 +219,9 @@ class LogicalModel(AbstractModel):
             self._check_argument_type("scale", scale, numbers.Number)
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
-        if timestamp is not None:
-            self._check_argument_type("timestamp", timestamp, (int, float))
+        if timestamp is None:
+            timestamp = current_time()
+        self._check_argument_type("timestamp", timestamp, (int, float))
 
         if target is not None:
             interaction_info = self._get_interaction_info_from_target(target)
-- 
2.43.0


From 299b48313168de0d147aeeafbf5254175f1a3dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:42 +0000
Subject: [PATCH 05/36] fix: keep attributes when update_interaction adds a
 missing interaction

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index dca7944..e5317f3 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -239,7 +239,7 @@ class LogicalModel(AbstractModel):
                 warnings.warn(f"An interaction named '{internal_name}' does not exist yet in the model, but will be added instead of updating it.")
                 _coefficient = 0.0 if coefficient is None else coefficient
                 _scale = 1.0 if scale is None else scale
-                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, timestamp=timestamp)
+                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, attributes=attributes, timestamp=timestamp)
 
         if self._is_removed(internal_name):
             raise ValueError(f"An interaction named '{internal_name}' is already removed.")
-- 
2.43.0


From b5a4b9b8e817f179d8de9083dfb6163d5983799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:42 +0000
Subject: [PATCH 06/36] fix: register attributes which are introduced by
 update_interaction

---
 sawatabi/model/logical_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index e5317f3..1fa5f27 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -256,6 +256,7 @@ class LogicalModel(AbstractModel):
                 attrs_key = f"attributes.{k}"
                 if attrs_key not in self._interactions_array:
                     self._interactions_array[attrs_key] = [np.nan] * self._interactions_length
+                    self._interactions_attrs.append(attrs_key)
                 self._interactions_array[attrs_key][update_idx] = v
         self._interactions_array["timestamp"][update_idx] = timestamp
         self._interactions_array["dirty"][update_idx] = True
-- 
2.43.0


From 2fcf0020beabd09726c7e6fe00303649ae98cf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:42 +0000
Subject: [PATCH 07/36] fix: ignore removed interactions in fix_variable

---
 sawatabi/model/logical_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 1fa5f27..1eb26ae 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -391,7 +391,8 @@ class LogicalModel(AbstractModel):
         self._fixed[target.label] = True
 
         # Update related interations
-        selected = self.select_interactions_by_variable(target)
+        # Note: Already removed interactions must not contribute to the fixed model.
+        selected = [s for s in self.select_interactions_by_variable(target) if not self._is_removed(s)]
 
         if len(selected) <= 0:
             warnings.warn("No interactions updated.")
-- 
2.43.0


From 7fb32ed3a18231e4e279fd1ffc5965edf06d7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:20 +0000
Subject: [PATCH 08/36] fix: delete_variable with constraints that do not
 contain the variable or are equality constraints

---
 sawatabi/model/constraint/abstract_constraint.py        | 6 ++++++
 sawatabi/model/constraint/equality_constraint.py        | 4 ++++
 sawatabi/model/constraint/n_hot_constraint.py           | 3 +++
 sawatabi/model/constraint/zero_or_one_hot_constraint.py | 3 +++
 sawatabi/model/logical_model.py                         | 4 ++--
 5 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 7197ea2..7464a9b 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -44,6 +44,12 @@ class AbstractConstraint(BaseMixin):
             variables = [variables]
         return set(variables)
 
+    def _discard_variable(self, target):
+        """
+        Removes the variable with the label of the target from the constraint, if the constraint has it.
+        """
+        raise NotImplementedError("#{self.class}##{__method__} must be implemented.")
+
     def get_constraint_class(self):
         return self._constraint_class
 
diff --git a/sawatabi/model/constraint/equality_constraint.py b/sawatabi/model/constraint/equality_constraint.py
index 91a13a2..6ded54d 100644
--- a/sawatabi/model/constraint/equality_constraint.py
+++ b/sawatabi/model/constraint/equality_constraint.py
@@ -54,6 +54,10 @@ class EqualityConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables_2 = self._variables_2.difference(variables_set)
 
+    def _discard_variable(self, target):
+        self._variables_1 = {v for v in self._variables_1 if v.label != target.label}
+        self._variables_2 = {v for v in self._variables_2 if v.label != target.label}
+
     def get_variables_1(self):
         return self._variables_1
 
diff --git a/sawatabi/model/constraint/n_hot_constraint.py b/sawatabi/model/constraint/n_hot_constraint.py
index 91b437d..8863410 100644
--- a/sawatabi/model/constraint/n_hot_constraint.py
+++ b/sawatabi/model/constraint/n_hot_constraint.py
@@ -44,6 +44,9 @@ class NHotConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables = self._variables.difference(variables_set)
 
+    def _discard_variable(self, target):
+        self._variables = {v for v in self._variables if v.label != target.label}
+
     def get_variables(self):
         return self._variables
 
diff --git a/sawatabi/model/constraint/zero_or_one_hot_constraint.py b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
index 5bcea72..4df5b5d 100644
--- a/sawatabi/model/constraint/zero_or_one_hot_constraint.py
+++ b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
@@ -44,6 +44,9 @@ class ZeroOrOneHotConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables = self._variables.difference(variables_set)
 
+    def _discard_variable(self, target):
+        self._variables = {v for v in self._variables if v.label != target.label}
+
     def get_variables(self):
         return self._variables
 
diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 1eb26ae..e852f70 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -362,8 +362,8 @@ class LogicalModel(AbstractModel):
         self._deleted[target.label] = True
 
         # Deal with constraints
-        for k, v in self.get_constraints().items():
-            v.remove_variable(variables=target)
+        for constraint in self.get_constraints().values():
+            constraint._discard_variable(target)
 
         # Remove related interations
         removed = self.select_interactions_by_variable(target)
-- 
2.43.0


From 6a78da5b62e97b5a52cf190aaaade925c1478274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:20 +0000
Subject: [PATCH 09/36] fix: apply fixed variables to constraints in
 to_physical

---
 sawatabi/model/logical_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index e852f70..751e669 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -388,7 +388,7 @@ class LogicalModel(AbstractModel):
                 raise ValueError("'value' must be one of [1, 0] because the model is a QUBO model.")
 
         # TODO: Delete variable physically
-        self._fixed[target.label] = True
+        self._fixed[target.label] = value
 
         # Update related interations
         # Note: Already removed interactions must not contribute to the fixed model.
@@ -519,6 +519,11 @@ class LogicalModel(AbstractModel):
         # Resolve constraints, and convert them to the interactions
         for label, constraint in self._constraints.items():
             constraint_model = constraint.to_model()
+            # Variables fixed in this model must be fixed in the constraint as well
+            constraint_keys = set(constraint_model._interactions_array["key_0"]) | set(constraint_model._interactions_array["key_1"])
+            for fixed_label, fixed_value in self._fixed.items():
+                if fixed_label in constraint_keys:
+                    constraint_model.fix_variable(pyqubo.Binary(fixed_label), 1 if fixed_value == 1 else 0)
             self.merge(constraint_model)
 
         # group by key
-- 
2.43.0


From 7a185fd2d2f969e21b12e40c7ec84728420f33c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:20 +0000
Subject: [PATCH 10/36] fix: take scale into account in to_ising and to_qubo

---
 sawatabi/model/logical_model.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 751e669..319dcd1 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -729,7 +729,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 0.5)
-                self._offset += coeff * 0.5
+                self._offset += coeff * 0.5 * h["scale"]
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -737,12 +737,18 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=coeff * 0.25)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][0],
+                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=coeff * 0.25,
+                    scale=J["scale"],
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][1],
+                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=coeff * 0.25,
+                    scale=J["scale"],
                 )
-                self._offset += coeff * 0.25
+                self._offset += coeff * 0.25 * J["scale"]
         else:
             warnings.warn("The model is already an Ising model.")
 
@@ -764,7 +770,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 2.0)
-                self._offset -= coeff
+                self._offset -= coeff * h["scale"]
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -772,12 +778,18 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][0],
+                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=-coeff * 2.0,
+                    scale=J["scale"],
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][1],
+                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=-coeff * 2.0,
+                    scale=J["scale"],
                 )
-                self._offset += coeff
+                self._offset += coeff * J["scale"]
         else:
             warnings.warn("The model is already a QUBO model.")
 
-- 
2.43.0


From 1869c836d7ee10f9d53f80b03e7c6c45c38489c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:20 +0000
Subject: [PATCH 11/36] fix: allow placeholders in update_interaction, so that
 models with placeholders can be converted

---
 sawatabi/model/logical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 319dcd1..6955107 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -214,9 +214,9 @@ class LogicalModel(AbstractModel):
             raise ValueError("Both 'target' and 'name' cannot be specified simultaneously.")
 
         if coefficient is not None:
-            self._check_argument_type("coefficient", coefficient, numbers.Number)
+            self._check_argument_type("coefficient", coefficient, (numbers.Number, pyqubo.core.Express, pyqubo.core.Coefficient))
         if scale is not None:
-            self._check_argument_type("scale", scale, numbers.Number)
+            self._check_argument_type("scale", scale, (numbers.Number, pyqubo.core.Express))
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
         if timestamp is None:
-- 
2.43.0


From 2f8fa35bcd09e3e77ba150a63810028a48aa500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 12/36] fix: remove interactions by position in to_physical
 since merging constraints may rename them

---
 sawatabi/model/logical_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 6955107..d88ba78 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -529,7 +529,7 @@ class LogicalModel(AbstractModel):
         # group by key
         for i in range(self._interactions_length):
             if self._interactions_array["removed"][i]:
-                will_remove.append(self._interactions_array["name"][i])
+                will_remove.append(i)
                 continue
 
             # Resolve placeholders for coefficients and scales, using PyQUBO.
@@ -603,8 +603,10 @@ class LogicalModel(AbstractModel):
 
         # Remove interactions
         # TODO: Physically remove the logically removed interactions
-        for rm in will_remove:
-            idx = self._interactions_array["name"].index(rm)
+        for idx in reversed(will_remove):
+            if idx >= original_interactions_length:
+                # This is an interaction from constraints
+                continue
             for k in self._interactions_array.keys():
                 self._interactions_array[k].pop(idx)
             self._interactions_length -= 1
-- 
2.43.0


From 7351fd50cd61eab71e9ae914899d09cea224f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 13/36] fix: restore the model when to_physical fails

---
 sawatabi/model/logical_model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index d88ba78..6df15b0 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -499,6 +499,17 @@ class LogicalModel(AbstractModel):
     ################################
 
     def to_physical(self, placeholder=None):
+        original = copy.copy(self)
+        original._deleted = copy.deepcopy(self._deleted)
+        original._fixed = copy.deepcopy(self._fixed)
+        try:
+            return self._to_physical(placeholder)
+        except Exception:
+            # Do not leave interactions from constraints in the model when the conversion fails (e.g., a placeholder is missing)
+            self.__dict__.update(original.__dict__)
+            raise
+
+    def _to_physical(self, placeholder=None):
         if placeholder is None:
             placeholder = {}
         physical = PhysicalModel(mtype=self._mtype)
-- 
2.43.0


From a173cabdeefe39185a584a372a99fbb92b2aee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 14/36] fix: assign an index to every variable in the physical
 model

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 6df15b0..32f9e92 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -594,7 +594,7 @@ class LogicalModel(AbstractModel):
         for val in self._variables.values():
             flattened = list(Functions._flatten(val.bit_list))
             for v in flattened:
-                if (v.label not in self._deleted) and (v.label in physical._variables_set):
+                if v.label in physical._variables_set:
                     physical._label_to_index[v.label] = current_index
                     physical._index_to_label[current_index] = v.label
                     current_index += 1
-- 
2.43.0


From 69069c4870eded2ed8b9a8641daf0a64fbe040de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 15/36] fix: merge must not change the given model, nor this
 model when it fails

---
 sawatabi/model/logical_model.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 32f9e92..a9ac57f 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -633,9 +633,10 @@ class LogicalModel(AbstractModel):
     def merge(self, other):
         self._check_argument_type("other", other, LogicalModel)
 
-        # Check type
-        if self._mtype != other._mtype:
-            other._convert_mtype()
+        # Check constraints
+        # If both models have a constraint with the same label, cannnot merge currently
+        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
+            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
 
         # Check variables
         for key, value in self._variables.items():
@@ -643,6 +644,13 @@ class LogicalModel(AbstractModel):
                 if len(value.shape) != len(other._variables[key].shape):
                     raise ValueError(f"Cannot merge model since the dimension of '{key}' is different.")
 
+        # Check type
+        # Note: The given model must not be changed
+        other_id = id(other)
+        if self._mtype != other._mtype:
+            other = copy.deepcopy(other)
+            other._convert_mtype()
+
         # Merge variables
         for key, value in other._variables.items():
             if key not in self._variables:
@@ -673,7 +681,7 @@ class LogicalModel(AbstractModel):
                 if idx < self._interactions_length:
                     model_id = id(self)
                 else:
-                    model_id = id(other)
+                    model_id = other_id
                 merged_interactions_with_duplication["name"][idx] = f"{name} ({model_id})"
 
         self._interactions_array = merged_interactions_with_duplication
@@ -681,10 +689,7 @@ class LogicalModel(AbstractModel):
         self._interactions_length = self._interactions_length + other._interactions_length
 
         # Merge constraints
-        # If both models have a constraint with the same label, cannnot merge currently
-        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
-            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
-        self._constraints.update(other._constraints)
+        self._constraints.update(copy.deepcopy(other._constraints))
 
         # Merge other fields
         self._offset += other._offset
-- 
2.43.0


From 7e5f3d8b5f19837ec377e53f422a334e45c14316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 16/36] fix: count a variable that is both fixed and deleted
 only once in get_size

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index a9ac57f..bb1abb4 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -843,7 +843,7 @@ class LogicalModel(AbstractModel):
         """
         Returns the number of all alive variables (i.e., variables which are not removed or fixed).
         """
-        return self.get_all_size() - self.get_deleted_size() - self.get_fixed_size()
+        return self.get_all_size() - len(self._deleted.keys() | self._fixed.keys())
 
     def get_deleted_size(self):
         """
-- 
2.43.0


From 6876c9dc1a30c599d4659bc9d5f54affaedc5831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 17/36] fix: reject append with a different number of
 dimensions, and accept numpy integers for new variables

---
 sawatabi/model/logical_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index bb1abb4..6bc4b31 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -88,7 +88,10 @@ class LogicalModel(AbstractModel):
         if name not in self._variables:
             # raise KeyError(f"Variables name '{name}' is not defined in the model.")
             warnings.warn(f"Variables name '{name}' is not defined in the model, but will be created instead of appending it.")
-            return self.variables(name, shape)
+            return self.variables(name, tuple(int(s) for s in shape))
+
+        if len(shape) != len(self._variables[name].shape):
+            raise ValueError(f"Cannot append variables since the dimension of '{name}' is different.")
 
         # tuple elementwise addition
         new_shape = Functions.elementwise_add(self._variables[name].shape, shape)
-- 
2.43.0


From ec087bab0e03cdc3a90a60f8c6b98b5655483a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:43 +0000
Subject: [PATCH 18/36] fix: partial algorithm must neither duplicate elements
 nor lose outgoing elements

---
 sawatabi/algorithm/abstract_algorithm.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 60b28ef..d8b018a 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -113,16 +113,22 @@ class AbstractAlgorithm(BaseMixin):
             elif algorithm == sawatabi.constants.ALGORITHM_PARTIAL:
                 filter_fn = algorithm_options["filter_fn"]
                 filtered = filter(filter_fn, prev_elements)
-                sorted_elements = list(filtered) + sorted_elements
+                # Note: Elements in an overlapped part of windows must not be duplicated.
+                # An element is identified by its timestamp and its index.
+                current = {(e[0], e[1][0]) for e in sorted_elements}
+                filtered = [e for e in filtered if (e[0], e[1][0]) not in current]
+                sorted_elements = filtered + sorted_elements
                 sorted_elements = sorted(sorted_elements)
 
             # Resolve outgoing elements in this iteration
             def resolve_outgoing(prev_elements, sorted_elements):
+                # Note: An old element may remain (e.g., in partial algorithm) while a newer element goes out,
+                # so we need to check all of the previous elements.
                 outgoing = []
+                current = {(e[0], e[1][0]) for e in sorted_elements}
                 for p in prev_elements:
-                    if p[0] >= sorted_elements[0][0]:
-                        break
-                    outgoing.append(p)
+                    if (p[0], p[1][0]) not in current:
+                        outgoing.append(p)
                 return outgoing
 
             outgoing = resolve_outgoing(prev_elements, sorted_elements)
-- 
2.43.0


From 7b1ecca03a7fb727dc10dbafc8dfa1fadd3cd46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:43 +0000
Subject: [PATCH 19/36] fix: attenuation must accept interactions without the
 attribute, instead of stopping the pipeline

---
 sawatabi/algorithm/abstract_algorithm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index d8b018a..08c2daa 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -170,12 +170,16 @@ class AbstractAlgorithm(BaseMixin):
             # Attenuation: Update scale based on data timestamp.
             if algorithm == sawatabi.constants.ALGORITHM_ATTENUATION:
                 model.to_physical()  # Resolve removed interactions. TODO: Deal with placeholders.
-                ref_timestamp = model._interactions_array[algorithm_options["attenuation.key"]]
-                min_ts = min(ref_timestamp)
-                max_ts = max(ref_timestamp)
+                ref_timestamp = model._interactions_array.get(algorithm_options["attenuation.key"], [])
+                # Note: Interactions which do not have the attribute (i.e., nan) are not attenuated.
+                valid_timestamp = [t for t in ref_timestamp if t == t]
+                min_ts = min(valid_timestamp, default=0.0)
+                max_ts = max(valid_timestamp, default=0.0)
                 min_scale = algorithm_options["attenuation.min_scale"]
                 if min_ts < max_ts:
                     for i, t in enumerate(ref_timestamp):
+                        if t != t:
+                            continue
                         new_scale = (1.0 - min_scale) / (max_ts - min_ts) * (t - min_ts) + min_scale
                         model._interactions_array["scale"][i] = new_scale
 
-- 
2.43.0


From 1d55b42d0a059f79be060c7dd37c3e62b7f40540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:43 +0000
Subject: [PATCH 20/36] fix: windows before the epoch are not outdated when
 nothing has been processed yet

---
 sawatabi/algorithm/abstract_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 08c2daa..149d720 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -79,7 +79,7 @@ class AbstractAlgorithm(BaseMixin):
 
             # Extract the previous timestamp, elements, and model from state
             if len(timestamp_state_as_list) == 0:
-                prev_timestamp = -1.0
+                prev_timestamp = float("-inf")
             else:
                 prev_timestamp = timestamp_state_as_list[-1]
             if len(elements_state_as_list) == 0:
-- 
2.43.0


From b287b62d2ea6929603e623b5a4a866ab9fb38777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:43 +0000
Subject: [PATCH 21/36] fix: report the timestamp of the already processed
 event for an outdated event

---
 sawatabi/algorithm/abstract_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 149d720..8acffb7 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -100,7 +100,7 @@ class AbstractAlgorithm(BaseMixin):
             if float(timestamp) < float(prev_timestamp):
                 yield (
                     f"The received event is outdated: Timestamp is {timestamp.to_utc_datetime()}, "
-                    + f"while an event with timestamp of {timestamp.to_utc_datetime()} has been already processed."
+                    + f"while an event with timestamp of {prev_timestamp.to_utc_datetime()} has been already processed."
                 )
                 return
 
-- 
2.43.0


From e898cacd85ddf4de6f21086d24a92b17dc2548e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:43 +0000
Subject: [PATCH 22/36] fix: enumerate all partitions in NPP with DP including
 empty partitions and zeros

---
 sawatabi/utils/npp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sawatabi/utils/npp.py b/sawatabi/utils/npp.py
index 3012fb4..3f28a87 100644
--- a/sawatabi/utils/npp.py
+++ b/sawatabi/utils/npp.py
@@ -33,8 +33,13 @@ def solve_npp_with_dp(numbers, enumerate_all=False, print_dp_table=False):
     dp = [[(None, []) for i in range(n + 1)] for j in range(s + 1)]
 
     # Initialize the top row with True
+    # (When enumerating all, the empty set and the sets consisting of only zeros compose the sum of 0)
     for j in range(n + 1):
-        dp[0][j] = (True, [])
+        dp[0][j] = (True, [[]] if enumerate_all else [])
+        if enumerate_all and (j > 0):
+            dp[0][j] = dp[0][j - 1]
+            if numbers[j - 1] == 0:
+                dp[0][j] = (True, dp[0][j - 1][1] + [p + [j - 1] for p in dp[0][j - 1][1]])
 
     # Initialize the left column with False (except 0)
     for i in range(1, s + 1):
@@ -53,7 +58,7 @@ def solve_npp_with_dp(numbers, enumerate_all=False, print_dp_table=False):
                     dp[i][j] = (True, dp[i - current_val][j - 1][1] + [j - 1])
                 else:
                     if i == current_val:
-                        dp[i][j] = (True, dp[i][j][1] + [[j - 1]])
+                        dp[i][j] = (True, dp[i][j][1] + [p + [j - 1] for p in dp[0][j - 1][1]])
                     else:
                         solution = []
                         for prev in dp[i - current_val][j - 1][1]:
-- 
2.43.0


From 12364285579d706c2c66d6bb3f37fecbc6c07b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 23/36] fix: from_pyqubo must load Ising coefficients into an
 Ising model

---
 sawatabi/model/logical_model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 6bc4b31..83c22bd 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -469,7 +469,14 @@ class LogicalModel(AbstractModel):
         compiled_qubo = pyqubo_model.compiled_qubo
         structure = pyqubo_model.structure
 
-        for k, v in compiled_qubo.qubo.items():
+        if self._mtype == constants.MODEL_ISING:
+            # Coefficients of QUBO are not valid for an Ising model
+            linear, quadratic, offset = pyqubo_model.to_ising()
+            terms = {**{(k, k): v for k, v in linear.items()}, **quadratic}
+        else:
+            terms, offset = compiled_qubo.qubo, compiled_qubo.offset
+
+        for k, v in terms.items():
             # For the first variable.
             # - structure[k[0]][0] holds the variable name,
             # - structure[k[0]][1:] holds the variable index as tuple.
@@ -495,7 +502,7 @@ class LogicalModel(AbstractModel):
                 # 2-body
                 self.add_interaction(target=(target_0, target_1), coefficient=coeff)
 
-        self._offset = compiled_qubo.offset
+        self._offset = offset
 
     ################################
     # Converts
-- 
2.43.0


From 9a350ce14ee7b7cb5eb7406f6ffa988c64e750a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:26 +0000
Subject: [PATCH 24/36] fix: keep interaction names unique when the same model
 is merged repeatedly

---
 sawatabi/model/logical_model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 83c22bd..1cfa17a 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -694,6 +694,17 @@ class LogicalModel(AbstractModel):
                     model_id = other_id
                 merged_interactions_with_duplication["name"][idx] = f"{name} ({model_id})"
 
+        # The names with suffix may still be duplicate if the same model is merged repeatedly
+        used_names = set()
+        for idx, name in enumerate(merged_interactions_with_duplication["name"]):
+            unique_name = name
+            count = 1
+            while unique_name in used_names:
+                count += 1
+                unique_name = f"{name} ({count})"
+            merged_interactions_with_duplication["name"][idx] = unique_name
+            used_names.add(unique_name)
+
         self._interactions_array = merged_interactions_with_duplication
         self._interactions_attrs = merged_attrs
         self._interactions_length = self._interactions_length + other._interactions_length
-- 
2.43.0


From b0769ca43832d30bb5c6477c45d959f445e952e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:12 +0000
Subject: [PATCH 25/36] fix: do not divide by zero in SawatabiSolver when the
 temperature underflows

---
 sawatabi/solver/sawatabi_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index c8868fc..58c2fad 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -245,6 +245,9 @@ class SawatabiSolver(AbstractSolver):
         """
         if diff <= 0.0:
             return True
+        if temperature <= 0.0:
+            # The temperature may underflow to zero after many sweeps
+            return False
         p = math.exp(-diff / temperature)  # Note: np.exp is slow here
         self._accept_randoms_idx += 1
         if self._accept_randoms[self._accept_randoms_idx] < p:
-- 
2.43.0


From f99e6b73ceebe443b7bfb484a2eb734ee6f81b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:12 +0000
Subject: [PATCH 26/36] fix: take the offset into account in the energy history
 of SawatabiSolver

---
 sawatabi/solver/sawatabi_solver.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 58c2fad..baaa8d3 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -156,6 +156,8 @@ class SawatabiSolver(AbstractSolver):
         # logger.info(f"initial_spins: {initial_sample}")
         initial_energy = self._bqm.energy(initial_sample) * -1.0  # Note that the signs of original bqm is opposite from ours
         # logger.info(f"initial_energy: {initial_energy}")
+        # Deal with offset (so that the energy history is also consistent with the model)
+        initial_energy += self._original_bqm.offset * 2
 
         if not reverse_options:
             # Forward (normal) annealing
@@ -222,9 +224,6 @@ class SawatabiSolver(AbstractSolver):
         # recalc_energy = self._bqm.energy(sample) * -1.0
         # assert math.isclose(energy, recalc_energy, rel_tol=1e-9, abs_tol=1e-9)
 
-        # Deal with offset
-        energy += self._original_bqm.offset * 2
-
         return sample, energy, energy_hist, temperature_hist, acceptance_hist
 
     def calc_energy_diff(self, idx, x):
-- 
2.43.0


From 2d841ac7b268a801926c1043a0fb2fd099cc5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 27/36] fix: incoming elements must contain elements which
 arrived late

---
 sawatabi/algorithm/abstract_algorithm.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 8acffb7..ebaaee1 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -135,14 +135,13 @@ class AbstractAlgorithm(BaseMixin):
 
             # Resolve incoming elements in this iteration
             def resolve_incoming(prev_elements, sorted_elements):
+                # Note: An element may arrive late, i.e., it may be older than the previous elements,
+                # so we need to check all of the current elements.
                 incoming = []
-                if len(prev_elements) == 0:
-                    incoming = sorted_elements
-                else:
-                    for v in reversed(sorted_elements):
-                        if v[0] <= prev_elements[-1][0]:
-                            break
-                        incoming.insert(0, v)
+                previous = {(e[0], e[1][0]) for e in prev_elements}
+                for v in sorted_elements:
+                    if (v[0], v[1][0]) not in previous:
+                        incoming.append(v)
                 return incoming
 
             incoming = resolve_incoming(prev_elements, sorted_elements)
-- 
2.43.0


From e675f7460cddc4e9409fdff9a83366ed53d0fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 28/36] fix: a failed mapping must not affect the model given
 to the following windows

---
 sawatabi/algorithm/abstract_algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index ebaaee1..e59da6e 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import copy
 import traceback
 
 import apache_beam as beam
@@ -155,7 +156,8 @@ class AbstractAlgorithm(BaseMixin):
 
             # Map problem input to the model
             try:
-                model = map_fn(prev_model, prev_sampleset, sorted_elements, incoming, outgoing)
+                # Note: The model in the state must not be affected if map_fn updates the given model and then fails
+                model = map_fn(copy.deepcopy(prev_model), prev_sampleset, sorted_elements, incoming, outgoing)
             except Exception as e:
                 yield f"Failed to map: {e}\n{traceback.format_exc()}"
                 return
-- 
2.43.0


From 4bc7b6eaf27c3c1f45c1c4a4f32ad56903b63469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:57 +0000
Subject: [PATCH 29/36] fix: an equality constraint with a variable on both
 sides could not be compiled

---
 .../model/constraint/equality_constraint.py   | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/sawatabi/model/constraint/equality_constraint.py b/sawatabi/model/constraint/equality_constraint.py
index 6ded54d..f4271be 100644
--- a/sawatabi/model/constraint/equality_constraint.py
+++ b/sawatabi/model/constraint/equality_constraint.py
@@ -69,21 +69,26 @@ class EqualityConstraint(AbstractConstraint):
 
         # Equality constraint:
         #   E = ( \sum{ x_i } - \sum{ y_i } )^2
-        for var in self._variables_1.union(self._variables_2):
+        # Note: A variable which is on both sides cancels out
+        labels_1 = {v.label for v in self._variables_1}
+        labels_2 = {v.label for v in self._variables_2}
+        variables_1 = {v for v in self._variables_1 if v.label not in labels_2}
+        variables_2 = {v for v in self._variables_2 if v.label not in labels_1}
+        for var in variables_1.union(variables_2):
             coeff = -1.0 * self._strength
             model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=coeff)
-        for var in self._variables_1:
-            for adj in self._variables_1:
+        for var in variables_1:
+            for adj in variables_1:
                 if var.label < adj.label:
                     coeff = -2.0 * self._strength
                     model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
-        for var in self._variables_2:
-            for adj in self._variables_2:
+        for var in variables_2:
+            for adj in variables_2:
                 if var.label < adj.label:
                     coeff = -2.0 * self._strength
                     model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
-        for var in self._variables_1:
-            for adj in self._variables_2:
+        for var in variables_1:
+            for adj in variables_2:
                 coeff = 2.0 * self._strength
                 model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
 
-- 
2.43.0


From fb127125d589b42790dd1f5b8a3f16fea52044f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:38 +0000
Subject: [PATCH 30/36] fix: a model restored from its serialized form was not
 equal to the original one

---
 sawatabi/model/logical_model.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 1cfa17a..48dccb4 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -925,12 +925,25 @@ class LogicalModel(AbstractModel):
     # Built-in functions
     ################################
 
+    def _has_same_interactions(self, other):
+        # Note: nan is not equal to itself (unless it is the same object), e.g., after the model is serialized
+        def is_same(a, b):
+            return (a is b) or (a == b) or (isinstance(a, float) and isinstance(b, float) and a != a and b != b)
+
+        if self._interactions_array.keys() != other._interactions_array.keys():
+            return False
+        for key, values in self._interactions_array.items():
+            other_values = other._interactions_array[key]
+            if len(values) != len(other_values) or not all(is_same(a, b) for a, b in zip(values, other_values)):
+                return False
+        return True
+
     def __eq__(self, other):
         return (
             isinstance(other, LogicalModel)
             and (self._mtype == other._mtype)
             and (self._variables == other._variables)
-            and (self._interactions_array == other._interactions_array)
+            and self._has_same_interactions(other)
             and (self._interactions_attrs == other._interactions_attrs)
             and (self._interactions_length == other._interactions_length)
             and (self._constraints == other._constraints)
-- 
2.43.0


From cc5799cb3f67597b048d3f80e1351e0a52442eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:38 +0000
Subject: [PATCH 31/36] fix: timestamp options of a pipeline could not be
 turned off with False

---
 sawatabi/algorithm/abstract_algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index e59da6e..15ccac4 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -241,7 +241,7 @@ class AbstractAlgorithm(BaseMixin):
             | "Prepare key" >> beam.Map(lambda element: (None, element))
             | "Assign global index for Ising variables" >> beam.ParDo(AbstractAlgorithm.IndexAssigningStatefulDoFn()))
 
-        if "input.reassign_timestamp" in algorithm_options:
+        if algorithm_options.get("input.reassign_timestamp"):
             # Add (Re-assign) event timestamp based on the index
             # - element[0]: index
             # - element[1]: data
@@ -275,7 +275,7 @@ class AbstractAlgorithm(BaseMixin):
         # Output part
         # --------------------------------
 
-        if "output.with_timestamp" in algorithm_options:
+        if algorithm_options.get("output.with_timestamp"):
             solved = (solved
                 | "With timestamp for each window" >> beam.ParDo(AbstractAlgorithm.WithTimestampStrFn()))
 
-- 
2.43.0


From f3c0b057b182ddebb0a8315d02c966e3808b5bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:38 +0000
Subject: [PATCH 32/36] fix: a constraint shared the set of variables with the
 caller

---
 sawatabi/model/constraint/abstract_constraint.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 7464a9b..2d4dba6 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -36,8 +36,6 @@ class AbstractConstraint(BaseMixin):
         self._check_argument_type("variables", variables, (pyqubo.Array, pyqubo.Spin, pyqubo.Binary, list, set))
         if isinstance(variables, (list, set)):
             self._check_argument_type_in_list("variables", variables, (pyqubo.Spin, pyqubo.Binary))
-        if isinstance(variables, set):
-            return variables
         if isinstance(variables, pyqubo.Array):
             variables = list(Functions._flatten(variables.bit_list))
         elif isinstance(variables, (pyqubo.Spin, pyqubo.Binary)):
-- 
2.43.0


From 1eb23fdd61ead6029a83a6560d379bd205d4cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:08 +0000
Subject: [PATCH 33/36] fix: variables of a constraint could not be edited
 after the model was converted to another type

---
 sawatabi/model/constraint/abstract_constraint.py  | 15 +++++++++++++++
 sawatabi/model/constraint/equality_constraint.py  | 14 ++++----------
 sawatabi/model/constraint/n_hot_constraint.py     |  7 ++-----
 .../constraint/zero_or_one_hot_constraint.py      |  7 ++-----
 4 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 2d4dba6..7364a65 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -42,6 +42,21 @@ class AbstractConstraint(BaseMixin):
             variables = [variables]
         return set(variables)
 
+    @staticmethod
+    def _union_by_label(variables, variables_set):
+        # Note: The type of a variable (Spin or Binary) may be different from that in the constraint after the model is converted
+        labels = {v.label for v in variables}
+        return variables.union({v for v in variables_set if v.label not in labels})
+
+    @staticmethod
+    def _difference_by_label(variables, variables_set):
+        labels = {v.label for v in variables}
+        for v in variables_set:
+            if v.label not in labels:
+                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
+        labels_to_remove = {v.label for v in variables_set}
+        return {v for v in variables if v.label not in labels_to_remove}
+
     def _discard_variable(self, target):
         """
         Removes the variable with the label of the target from the constraint, if the constraint has it.
diff --git a/sawatabi/model/constraint/equality_constraint.py b/sawatabi/model/constraint/equality_constraint.py
index f4271be..507c947 100644
--- a/sawatabi/model/constraint/equality_constraint.py
+++ b/sawatabi/model/constraint/equality_constraint.py
@@ -34,25 +34,19 @@ class EqualityConstraint(AbstractConstraint):
 
     def add_variable_to_1(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        self._variables_1 = self._variables_1.union(variables_set)
+        self._variables_1 = self._union_by_label(self._variables_1, variables_set)
 
     def add_variable_to_2(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        self._variables_2 = self._variables_2.union(variables_set)
+        self._variables_2 = self._union_by_label(self._variables_2, variables_set)
 
     def remove_variable_from_1(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        for v in variables_set:
-            if v not in self._variables_1:
-                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
-        self._variables_1 = self._variables_1.difference(variables_set)
+        self._variables_1 = self._difference_by_label(self._variables_1, variables_set)
 
     def remove_variable_from_2(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        for v in variables_set:
-            if v not in self._variables_2:
-                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
-        self._variables_2 = self._variables_2.difference(variables_set)
+        self._variables_2 = self._difference_by_label(self._variables_2, variables_set)
 
     def _discard_variable(self, target):
         self._variables_1 = {v for v in self._variables_1 if v.label != target.label}
diff --git a/sawatabi/model/constraint/n_hot_constraint.py b/sawatabi/model/constraint/n_hot_constraint.py
index 8863410..ca7e379 100644
--- a/sawatabi/model/constraint/n_hot_constraint.py
+++ b/sawatabi/model/constraint/n_hot_constraint.py
@@ -35,14 +35,11 @@ class NHotConstraint(AbstractConstraint):
 
     def add_variable(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        self._variables = self._variables.union(variables_set)
+        self._variables = self._union_by_label(self._variables, variables_set)
 
     def remove_variable(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        for v in variables_set:
-            if v not in self._variables:
-                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
-        self._variables = self._variables.difference(variables_set)
+        self._variables = self._difference_by_label(self._variables, variables_set)
 
     def _discard_variable(self, target):
         self._variables = {v for v in self._variables if v.label != target.label}
diff --git a/sawatabi/model/constraint/zero_or_one_hot_constraint.py b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
index 4df5b5d..f611e2c 100644
--- a/sawatabi/model/constraint/zero_or_one_hot_constraint.py
+++ b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
@@ -35,14 +35,11 @@ class ZeroOrOneHotConstraint(AbstractConstraint):
 
     def add_variable(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        self._variables = self._variables.union(variables_set)
+        self._variables = self._union_by_label(self._variables, variables_set)
 
     def remove_variable(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        for v in variables_set:
-            if v not in self._variables:
-                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
-        self._variables = self._variables.difference(variables_set)
+        self._variables = self._difference_by_label(self._variables, variables_set)
 
     def _discard_variable(self, target):
         self._variables = {v for v in self._variables if v.label != target.label}
-- 
2.43.0


From feee070f6906050bf4752756837da83bb62dd00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:35 +0000
Subject: [PATCH 34/36] fix: a model with constraints must be compiled
 reproducibly regardless of the hash randomization

---
 sawatabi/model/constraint/equality_constraint.py        | 7 ++++---
 sawatabi/model/constraint/n_hot_constraint.py           | 6 ++++--
 sawatabi/model/constraint/zero_or_one_hot_constraint.py | 6 ++++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/sawatabi/model/constraint/equality_constraint.py b/sawatabi/model/constraint/equality_constraint.py
index 507c947..272ee96 100644
--- a/sawatabi/model/constraint/equality_constraint.py
+++ b/sawatabi/model/constraint/equality_constraint.py
@@ -66,9 +66,10 @@ class EqualityConstraint(AbstractConstraint):
         # Note: A variable which is on both sides cancels out
         labels_1 = {v.label for v in self._variables_1}
         labels_2 = {v.label for v in self._variables_2}
-        variables_1 = {v for v in self._variables_1 if v.label not in labels_2}
-        variables_2 = {v for v in self._variables_2 if v.label not in labels_1}
-        for var in variables_1.union(variables_2):
+        # Note: The order of variables must not depend on the order in the set, so that the model is reproducible
+        variables_1 = sorted((v for v in self._variables_1 if v.label not in labels_2), key=lambda v: v.label)
+        variables_2 = sorted((v for v in self._variables_2 if v.label not in labels_1), key=lambda v: v.label)
+        for var in variables_1 + variables_2:
             coeff = -1.0 * self._strength
             model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=coeff)
         for var in variables_1:
diff --git a/sawatabi/model/constraint/n_hot_constraint.py b/sawatabi/model/constraint/n_hot_constraint.py
index ca7e379..a2c2a35 100644
--- a/sawatabi/model/constraint/n_hot_constraint.py
+++ b/sawatabi/model/constraint/n_hot_constraint.py
@@ -55,10 +55,12 @@ class NHotConstraint(AbstractConstraint):
 
         # N-hot constraint:
         #   E = ( \sum{ x_i } - 1 )^2
-        for var in self._variables:
+        # Note: The order of variables must not depend on the order in the set, so that the model is reproducible
+        variables = sorted(self._variables, key=lambda v: v.label)
+        for var in variables:
             coeff = -1.0 * self._strength * (1 - 2 * self._n)
             model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=coeff)
-            for adj in self._variables:
+            for adj in variables:
                 if var.label < adj.label:
                     coeff = -2.0 * self._strength
                     model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
diff --git a/sawatabi/model/constraint/zero_or_one_hot_constraint.py b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
index f611e2c..348472a 100644
--- a/sawatabi/model/constraint/zero_or_one_hot_constraint.py
+++ b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
@@ -52,8 +52,10 @@ class ZeroOrOneHotConstraint(AbstractConstraint):
 
         # Zero-or-One-hot constraint:
         #   E = \sum{ x_i } * ( \sum{ x_i } - 1 )
-        for var in self._variables:
-            for adj in self._variables:
+        # Note: The order of variables must not depend on the order in the set, so that the model is reproducible
+        variables = sorted(self._variables, key=lambda v: v.label)
+        for var in variables:
+            for adj in variables:
                 if var.label < adj.label:
                     coeff = -2.0 * self._strength
                     model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
-- 
2.43.0


From ef5c19dbf49b25f30c92e4752898e2186e9b1c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:35 +0000
Subject: [PATCH 35/36] fix: attributes of a merged model must be in a
 reproducible order

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 48dccb4..d742936 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -673,7 +673,7 @@ class LogicalModel(AbstractModel):
 
         # Merge interactions
         merged_interactions_with_duplication = {k: [] for k in self._default_keys}
-        merged_attrs = list(set(self._interactions_attrs) | set(other._interactions_attrs))
+        merged_attrs = self._interactions_attrs + [attr for attr in other._interactions_attrs if attr not in self._interactions_attrs]
         for k in self._default_keys:
             merged_interactions_with_duplication[k] = self._interactions_array[k] + other._interactions_array[k]
         for attr in merged_attrs:
-- 
2.43.0


From ffccfdea91013ca63b115a04b10c87caa0eafde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:35 +0000
Subject: [PATCH 36/36] fix: from_pyqubo must not leave a part of the
 expression in the model when it fails

---
 sawatabi/model/logical_model.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index d742936..269883d 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -476,6 +476,7 @@ class LogicalModel(AbstractModel):
         else:
             terms, offset = compiled_qubo.qubo, compiled_qubo.offset
 
+        interactions = []
         for k, v in terms.items():
             # For the first variable.
             # - structure[k[0]][0] holds the variable name,
@@ -497,10 +498,19 @@ class LogicalModel(AbstractModel):
 
             if k[0] == k[1]:
                 # 1-body
-                self.add_interaction(target=target_0, coefficient=coeff)
+                interactions.append((target_0, coeff))
             else:
                 # 2-body
-                self.add_interaction(target=(target_0, target_1), coefficient=coeff)
+                interactions.append(((target_0, target_1), coeff))
+
+        # Do not leave a part of the interactions in the model when any of them cannot be added
+        for target, _ in interactions:
+            internal_name = self._get_interaction_info_from_target(target)["name"]
+            if self._has_name(internal_name):
+                raise ValueError(f"An interaction named '{internal_name}' already exists. Cannot add the same name.")
+
+        for target, coeff in interactions:
+            self.add_interaction(target=target, coefficient=coeff)
 
         self._offset = offset
 
-- 
2.43.0

