From 4cb4da53e9a70ad7f8ae6d5d30e0f65270eca525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 01/14] fix: compile with primitives given as an array

---
 stoqcompiler/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index d8f1c59..2a7c4c0 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -98,7 +98,7 @@ class Compiler:
         :rtype: CompilerResult
         '''
         assert isinstance(target_unitary, Unitary)
-        assert self.unitary_primitives
+        assert len(self.unitary_primitives) > 0
 
         initial_time = time.perf_counter()
         compiled_sequence, cost_by_step = self._compile(
-- 
2.43.0


From c25396a0b3d3836c4047a632080fbf158a1abdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 02/14] fix: keep probabilities aligned when a primitive cannot
 be applied anywhere

---
 stoqcompiler/compiler/compiler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 2a7c4c0..984c990 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -214,10 +214,18 @@ class Compiler:
         '''
         # choose from unitary_primitives where the allowed_apply_to list
         # is not empty
+        usable = [
+            (u.get_allowed_apply_to() is None
+             or len(u.get_allowed_apply_to()) > 0)
+            for u in unitary_primitives]
         unitary_primitives = [
-            u for u in unitary_primitives
-            if (u.get_allowed_apply_to() is None
-                or len(u.get_allowed_apply_to()) > 0)]
+            u for u, is_usable in zip(unitary_primitives, usable)
+            if is_usable]
+        if probabilities is not None and not np.all(usable):
+            probabilities = np.array([
+                p for p, is_usable in zip(probabilities, usable)
+                if is_usable])
+            probabilities = probabilities / np.sum(probabilities)
 
         # randomly choose one of the unitary primitives and assign random
         # parameter values
-- 
2.43.0


From fc3cc73e69364cd671248b6b39b42acfa42ca6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 03/14] fix: accept the documented threshold None in RAV
 generation

---
 stoqcompiler/verification/verification.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stoqcompiler/verification/verification.py b/stoqcompiler/verification/verification.py
index 63b1e7e..5d661c3 100644
--- a/stoqcompiler/verification/verification.py
+++ b/stoqcompiler/verification/verification.py
@@ -66,7 +66,8 @@ class Verification:
             primitive.get_unitary().get_dimension() <= dimension
             for primitive in unitary_primitives])
         assert sequence_length >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert (threshold is None
+                or (threshold >= 0.0 and threshold <= 1.0))
 
         # Generate a random sequence of the desired length
         random_sequence = UnitarySequence(dimension)
@@ -146,7 +147,8 @@ class Verification:
             isinstance(count, int)
             for count in unitary_primitive_counts.values()])
         assert layer_count >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert (threshold is None
+                or (threshold >= 0.0 and threshold <= 1.0))
 
         # Generate a random sequence of the desired number of layers
         # Total sequence length will therefore be
-- 
2.43.0


From 11cdda91b7e877f59635f89b4490a146052e1563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 04/14] fix: apply a floating-point tolerance when comparing
 with a threshold

---
 stoqcompiler/unitary/unitary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary.py b/stoqcompiler/unitary/unitary.py
index 5dbbe85..6957d40 100644
--- a/stoqcompiler/unitary/unitary.py
+++ b/stoqcompiler/unitary/unitary.py
@@ -298,7 +298,8 @@ class Unitary:
         distance = self.distance_from(u)
         if threshold is not None:
             max_distance = 1.0 - threshold
-            return distance <= max_distance
+            return (distance <= max_distance
+                    or np.isclose(distance, max_distance, rtol=0.0))
 
         return np.isclose(distance, 0.0)
 
-- 
2.43.0


From e685cd64ac9735fbb4c59734b56461681b0687dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 05/14] fix: start every compilation with the initial annealing
 parameter

---
 stoqcompiler/compiler/compiler.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 984c990..3002ae7 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -166,18 +166,19 @@ class Compiler:
         '''
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
+        beta = self.beta
 
         while (not compiled_sequence.product().close_to(
                 target_unitary, threshold)
                and len(cost_by_step) < max_step_count):
-            self.beta = min(self.beta + self.annealing_rate, self.max_beta)
+            beta = min(beta + self.annealing_rate, self.max_beta)
             product_before_change = compiled_sequence.product()
             self._make_random_change(compiled_sequence)
             current_cost = target_unitary.distance_from(product_before_change)
             proposed_cost = target_unitary.distance_from(
                 compiled_sequence.product())
             accept = self._accept_proposed_change(
-                target_unitary, current_cost, proposed_cost)
+                target_unitary, current_cost, proposed_cost, beta)
             if accept:
                 cost_by_step.append(proposed_cost)
             else:
@@ -264,11 +265,12 @@ class Compiler:
         '''
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
+        beta = self.beta
 
         while (not compiled_sequence.product().close_to(
                 target_unitary, threshold)
                and len(cost_by_step) < max_step_count):
-            self.beta = min(self.beta + self.annealing_rate, self.max_beta)
+            beta = min(beta + self.annealing_rate, self.max_beta)
             product_before_change = compiled_sequence.product()
             self._make_random_change_layered(
                 compiled_sequence, unitary_primitive_counts)
@@ -276,7 +278,7 @@ class Compiler:
             proposed_cost = target_unitary.distance_from(
                 compiled_sequence.product())
             accept = self._accept_proposed_change(
-                target_unitary, current_cost, proposed_cost)
+                target_unitary, current_cost, proposed_cost, beta)
             if accept:
                 cost_by_step.append(proposed_cost)
             else:
@@ -399,12 +401,13 @@ class Compiler:
         self,
         target_unitary: Unitary,
         current_cost: float,
-        proposed_cost: float
+        proposed_cost: float,
+        beta: float
     ) -> bool:
         '''
         Determines whether to accept the proposed change, given the current
-        cost and proposed cost and current annealing parameter value beta.
+        cost and proposed cost and the given annealing parameter value beta.
         '''
         cost_difference = proposed_cost - current_cost
-        acceptance_probability = min(1.0, np.exp(-self.beta * cost_difference))
+        acceptance_probability = min(1.0, np.exp(-beta * cost_difference))
         return bool(np.random.uniform() < acceptance_probability)
-- 
2.43.0


From d2a352454d6d34396745b715e555f087f6abea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 06/14] fix: copy the placement lists given to a primitive

---
 stoqcompiler/unitary/unitary_primitive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_primitive.py b/stoqcompiler/unitary/unitary_primitive.py
index 188cac4..872f04f 100644
--- a/stoqcompiler/unitary/unitary_primitive.py
+++ b/stoqcompiler/unitary/unitary_primitive.py
@@ -28,7 +28,8 @@ class UnitaryPrimitive:
         Creates a UnitaryPrimitive object.
         '''
         if allowed_apply_to is not None:
-            allowed_apply_to = list(allowed_apply_to)
+            allowed_apply_to = [
+                list(apply_to) for apply_to in allowed_apply_to]
             assert np.all([
                 len(apply_to) == len(set(apply_to))
                 for apply_to in allowed_apply_to])
-- 
2.43.0


From 023b951ece8745fa41b6ed8e8c0aac9c2aff22ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 07/14] fix: reject a parameterized gate function that returns
 no matrix

---
 stoqcompiler/unitary/parameterized_unitary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/parameterized_unitary.py b/stoqcompiler/unitary/parameterized_unitary.py
index cbf49df..6eb239c 100644
--- a/stoqcompiler/unitary/parameterized_unitary.py
+++ b/stoqcompiler/unitary/parameterized_unitary.py
@@ -98,11 +98,14 @@ class ParameterizedUnitary:
             self.get_parameters()[i].is_valid(p)
             for i, p in enumerate(parameter_values)])
 
+        matrix = self.parameterized_matrix(*parameter_values)
+        assert isinstance(matrix, np.ndarray), type(matrix)
+
         parameter_dict = {
             p.get_parameter_name(): (parameter_values[i], p.get_is_angle())
             for i, p in enumerate(self.get_parameters())}
         return Unitary(
             self.get_dimension(),
-            self.parameterized_matrix(*parameter_values),
+            matrix,
             self.get_operation_name(),
             parameter_dict)
-- 
2.43.0


From fc6cd8fba3c9123be9dfa4a4baef879e0fb35787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 08/14] fix: edit sequences that were built from an array of
 entries

---
 stoqcompiler/unitary/unitary_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index 897e003..2b14c2c 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -35,7 +35,7 @@ class UnitarySequence:
                 or isinstance(sequence_entries, np.ndarray))
         [self._assert_is_entry_valid(entry) for entry in sequence_entries]
 
-        self.sequence_entries = copy.deepcopy(sequence_entries)
+        self.sequence_entries = copy.deepcopy(list(sequence_entries))
         self.sequence_product = None
 
         self.previous_entries = None
-- 
2.43.0


From 93dea242d9a570bceeb621aaf7c2e7ec95781213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 09/14] fix: invert each entry once when an entry object occurs
 repeatedly

---
 stoqcompiler/unitary/unitary_sequence.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index 2b14c2c..295e53d 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -256,11 +256,10 @@ class UnitarySequence:
         :rtype: UnitarySequence.
         '''
         inverse_sequence = UnitarySequence(
-            self.get_dimension(), self.get_sequence_entries())
-        inverse_sequence.sequence_entries.reverse()
-        for entry in inverse_sequence.sequence_entries:
-            entry.unitary = entry.unitary.inverse()
-            entry.full_unitary_by_dimension = {}
+            self.get_dimension(),
+            [UnitarySequenceEntry(
+                entry.unitary.inverse(), entry.get_apply_to())
+             for entry in reversed(self.sequence_entries)])
         inverse_sequence.sequence_product = self.product().inverse()
         return inverse_sequence
 
-- 
2.43.0


From c8a136b7bf3ffbc7ee3486d53cd9ac323186d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 10/14] fix: show plain qubit numbers in exported text

---
 stoqcompiler/unitary/unitary_sequence_entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index 720ea99..7d1f14c 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -2,6 +2,7 @@
 Defines the UnitarySequenceEntry class.
 '''
 import numpy as np
+import operator
 import scipy.sparse
 from typing import List
 
@@ -26,7 +27,7 @@ class UnitarySequenceEntry:
         '''
         Creates a UnitarySequenceEntry object.
         '''
-        apply_to = list(apply_to)
+        apply_to = [operator.index(qubit) for qubit in apply_to]
         assert len(apply_to) == len(set(apply_to))
         assert 2**len(apply_to) == unitary.get_dimension()
         assert np.min(apply_to) >= 0
-- 
2.43.0


From f5935ce87c623e8e48204a3a5b3647f9ed34b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 11/14] fix: mark inverted gates in the human-readable export

---
 stoqcompiler/unitary/unitary_sequence_entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index 7d1f14c..d1fc4e0 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -165,6 +165,7 @@ class UnitarySequenceEntry:
                 full_matrix,
                 operation_name,
                 self.unitary.parameter_dict,
+                is_inverse=self.unitary.is_inverse,
                 apply_to=self.get_apply_to())
 
         return self.full_unitary_by_dimension[system_dimension]
-- 
2.43.0


From 59ff0f69181fd84464e92c7141c47194fbc0786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 12/14] fix: keep sequences consistent when an edit fails

---
 stoqcompiler/unitary/unitary_sequence.py | 56 +++++++++++++++---------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index 295e53d..d58dd52 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -121,12 +121,16 @@ class UnitarySequence:
         '''
         Internal method to save the current state as the undo state.
         '''
-        self.previous_entries = copy.deepcopy(self.sequence_entries)
+        previous_entries = copy.deepcopy(self.sequence_entries)
+        previous_sequence_product = None
         if self.sequence_product:
-            self.previous_sequence_product = Unitary(
+            previous_sequence_product = Unitary(
                 self.sequence_product.get_dimension(),
                 self.sequence_product.get_matrix())
 
+        self.previous_entries = previous_entries
+        self.previous_sequence_product = previous_sequence_product
+
     def append_first(
         self,
         sequence_entry: UnitarySequenceEntry,
@@ -143,13 +147,15 @@ class UnitarySequence:
         '''
         self._assert_is_entry_valid(sequence_entry)
 
+        new_product = None
+        if self.sequence_product:
+            u_appended = sequence_entry.get_full_unitary(self.dimension)
+            new_product = self.sequence_product.right_multiply(u_appended)
+
         if save_undo:
             self._save_undo_state()
         self.sequence_entries.insert(0, sequence_entry)
-        if self.sequence_product:
-            u_appended = sequence_entry.get_full_unitary(self.dimension)
-            self.sequence_product = self.sequence_product.right_multiply(
-                u_appended)
+        self.sequence_product = new_product
 
     def append_last(
         self,
@@ -167,13 +173,15 @@ class UnitarySequence:
         '''
         self._assert_is_entry_valid(sequence_entry)
 
+        new_product = None
+        if self.sequence_product:
+            u_appended = sequence_entry.get_full_unitary(self.dimension)
+            new_product = self.sequence_product.left_multiply(u_appended)
+
         if save_undo:
             self._save_undo_state()
         self.sequence_entries.append(sequence_entry)
-        if self.sequence_product:
-            u_appended = sequence_entry.get_full_unitary(self.dimension)
-            self.sequence_product = self.sequence_product.left_multiply(
-                u_appended)
+        self.sequence_product = new_product
 
     def remove_first(
         self,
@@ -187,14 +195,18 @@ class UnitarySequence:
         :type save_undo: bool, optional
         '''
         if self.get_length() > 0:
-            if save_undo:
-                self._save_undo_state()
-            entry_removed = self.sequence_entries.pop(0)
+            new_product = None
             if self.sequence_product:
-                u_removed = entry_removed.get_full_unitary(self.dimension)
-                self.sequence_product = self.sequence_product.right_multiply(
+                u_removed = self.sequence_entries[0].get_full_unitary(
+                    self.dimension)
+                new_product = self.sequence_product.right_multiply(
                     u_removed.inverse())
 
+            if save_undo:
+                self._save_undo_state()
+            self.sequence_entries.pop(0)
+            self.sequence_product = new_product
+
     def remove_last(
         self,
         save_undo: bool = True
@@ -207,14 +219,18 @@ class UnitarySequence:
         :type save_undo: bool, optional
         '''
         if self.get_length() > 0:
-            if save_undo:
-                self._save_undo_state()
-            entry_removed = self.sequence_entries.pop(-1)
+            new_product = None
             if self.sequence_product:
-                u_removed = entry_removed.get_full_unitary(self.dimension)
-                self.sequence_product = self.sequence_product.left_multiply(
+                u_removed = self.sequence_entries[-1].get_full_unitary(
+                    self.dimension)
+                new_product = self.sequence_product.left_multiply(
                     u_removed.inverse())
 
+            if save_undo:
+                self._save_undo_state()
+            self.sequence_entries.pop(-1)
+            self.sequence_product = new_product
+
     def undo(self) -> None:
         '''
         Revert to the most recent state when a change was made
-- 
2.43.0


From 810e0961dbfa2ca3859c492ca81b829468cfe74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:17 +0000
Subject: [PATCH 13/14] fix: copying an entry while another thread embeds it
 failed

The table of embedded operators is replaced instead of changed in place, so
that a copy running in another thread never sees it change its size.
---
 stoqcompiler/unitary/unitary_sequence_entry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index d1fc4e0..ccc1096 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -148,7 +148,8 @@ class UnitarySequenceEntry:
         '''
         assert system_dimension >= self.get_dimension()
 
-        if system_dimension not in self.full_unitary_by_dimension:
+        full_unitary = self.full_unitary_by_dimension.get(system_dimension)
+        if full_unitary is None:
             expansion = Unitary.identity(
                 int(system_dimension / self.get_dimension()))
             expanded_unitary = self.unitary.tensor(expansion)
@@ -160,7 +161,7 @@ class UnitarySequenceEntry:
                            * permute_matrix.T)
 
             operation_name = self.unitary.get_operation_name()
-            self.full_unitary_by_dimension[system_dimension] = Unitary(
+            full_unitary = Unitary(
                 system_dimension,
                 full_matrix,
                 operation_name,
@@ -168,4 +169,10 @@ class UnitarySequenceEntry:
                 is_inverse=self.unitary.is_inverse,
                 apply_to=self.get_apply_to())
 
-        return self.full_unitary_by_dimension[system_dimension]
+            # The dictionary is replaced instead of changed, because
+            # another thread may be copying this entry at the same time.
+            self.full_unitary_by_dimension = {
+                **self.full_unitary_by_dimension,
+                system_dimension: full_unitary}
+
+        return full_unitary
-- 
2.43.0


From b333ac8d1cc07f4df7d14ba566f28b9a4b1a8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:17 +0000
Subject: [PATCH 14/14] fix: appended entries were shared with the caller

append_first and append_last keep a copy of the entry, as the constructor does,
so that changing the entry afterwards no longer changes the sequence.
---
 stoqcompiler/unitary/unitary_sequence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index d58dd52..0dea29b 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -152,6 +152,9 @@ class UnitarySequence:
             u_appended = sequence_entry.get_full_unitary(self.dimension)
             new_product = self.sequence_product.right_multiply(u_appended)
 
+        # The sequence keeps a copy of its own, as it does in __init__.
+        sequence_entry = copy.deepcopy(sequence_entry)
+
         if save_undo:
             self._save_undo_state()
         self.sequence_entries.insert(0, sequence_entry)
@@ -178,6 +181,9 @@ class UnitarySequence:
             u_appended = sequence_entry.get_full_unitary(self.dimension)
             new_product = self.sequence_product.left_multiply(u_appended)
 
+        # The sequence keeps a copy of its own, as it does in __init__.
+        sequence_entry = copy.deepcopy(sequence_entry)
+
         if save_undo:
             self._save_undo_state()
         self.sequence_entries.append(sequence_entry)
-- 
2.43.0

