From fcf7ee6888d2604bfe831ba746737f0a26ece187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:42 +0000
Subject: [PATCH 01/22] fix: give ACTStates.error_mode a default so builders
 can construct states

ControllerBuilder.new_builder, and every other caller, builds ACTStates without
an error_mode, so the required field made each of them raise a TypeError. None
means no validation mode was selected, and contributes no pytree leaves.
---
 src/jax_act/core/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index bfcd207..99c523e 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -171,7 +171,7 @@ class ACTStates:
     accumulators: Dict[str, PyTree]
     updates: Dict[str, Optional[PyTree]]
     depression_constant: float
-    error_mode: str
+    error_mode: Optional[str] = None
 
 # We define the functions to represent states as a pytree,
 # and then register the tree.
-- 
2.43.0


From 0c5da6b3d7371be2dd6aebb868accda0e4c6d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:42 +0000
Subject: [PATCH 02/22] fix: let ACTStates.replace set depression_constant and
 error_mode

Both branches called validators that do not exist, so replacing either
field raised an AttributeError.
---
 src/jax_act/core/states.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index 99c523e..62a0e6e 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -143,15 +143,8 @@ class ACTStates:
         updates = self.updates if updates is None else updates
         defaults = self.defaults if defaults is None else defaults
 
-        if depression_constant is None:
-            depression_constant = self.depression_constant
-        else:
-            depression_constant = self.validate_depression_constant(depression_constant)
-        if error_mode is None:
-            error_mode = self.error_mode
-        else:
-            error_mode = self.validate_error_mode(error_mode)
-
+        depression_constant = self.depression_constant if depression_constant is None else depression_constant
+        error_mode = self.error_mode if error_mode is None else error_mode
 
         return ACTStates(epsilon,
                          iterations,
-- 
2.43.0


From 931893acc621850c4c957da1be01f78d7854074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 03/22] fix: make reset_batches work on pytree accumulators

The selector was broadcast against the whole accumulator rather than the leaf
being reset, so any accumulator that is not a bare tensor raised an
AttributeError.
---
 src/jax_act/core/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 94a4456..bde8c1a 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -396,7 +396,7 @@ class ACT_Controller(Immutable):
                 #
                 # Then reset to defaults where appropriate and return.
                 broadcastable_selector = utils.setup_left_broadcast(unhalted_batch_selector,
-                                                                    accumulator)
+                                                                    accumulator_leaf)
                 broadcastable_selector = jnp.broadcast_to(broadcastable_selector, accumulator_leaf.shape)
                 return jax.lax.select(broadcastable_selector,
                                      accumulator_leaf,
-- 
2.43.0


From 08bb314304724a6b730a531b45a3d87d9b762a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 04/22] fix: transform the viewer's updates rather than its
 defaults

ACTViewer.transform, and so every mask, filled the updates of the new viewer
with the transformed defaults.
---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5cfb5bb..5141c82 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -116,7 +116,7 @@ class ACTViewer(Immutable):
 
             updates = {name: jax.tree_util.tree_map(update_applier, value)
                         for name, value
-                        in self.defaults.items()}
+                        in self.updates.items()}
 
         except Exception as err:
             msg = "An issue occurred in using the provided function"
-- 
2.43.0


From 33469fe12a465860231b2ebd075884aa46922d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 05/22] fix: check the returned controller for uncommitted
 updates

The contract forbids returning a controller whose updates were never committed,
but the controller passed in was the one that was checked.
---
 src/jax_act/layers/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/layers/core.py b/src/jax_act/layers/core.py
index 58aa6f7..896b93d 100644
--- a/src/jax_act/layers/core.py
+++ b/src/jax_act/layers/core.py
@@ -302,7 +302,7 @@ class ContractValidationWrapper:
             new_controller, _ = update
             self._validate_is_controller(new_controller, context_message)
             self._validate_is_novel_controller(controller, new_controller, context_message)
-            self._validate_all_act_updates_committed(controller, context_message)
+            self._validate_all_act_updates_committed(new_controller, context_message)
 
         self._execute_validation(validate)
         return update
-- 
2.43.0


From c3084b3a20e50e7af757d097f38e9e730995e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:17 +0000
Subject: [PATCH 06/22] fix: let accumulators have a narrower dtype than the
 probabilities

define_accumulator_by_shape takes a dtype, but weighting a float16 or bfloat16
accumulator by float32 probabilities promoted it, and the select against the
original then raised.
---
 src/jax_act/core/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index bde8c1a..8406f61 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -230,6 +230,7 @@ class ACT_Controller(Immutable):
         # only accumulators which have not already reached a halting state get updated.
 
         new_accumulators = accumulator_value + halting_probabilities * update_value
+        new_accumulators = new_accumulators.astype(accumulator_value.dtype)
         return jax.lax.select(halted_batches, accumulator_value, new_accumulators)
 
 
-- 
2.43.0


From 081d0d3131fd17344b7fa1461d97f229890f97e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:16 +0000
Subject: [PATCH 07/22] fix: halt batches when the threshold rounds to one in
 the core dtype

---
 src/jax_act/core/controller.py |  4 ++--
 src/jax_act/core/utils.py      | 17 +++++++++++++++++
 src/jax_act/core/viewer.py     |  2 +-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 8406f61..cd1e6e1 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -117,7 +117,7 @@ class ACT_Controller(Immutable):
         return 1-self.state.epsilon
     @property
     def halted_batches(self)->jnp.ndarray:
-        return self.probabilities > self.halt_threshold
+        return utils.find_halted(self.probabilities, self.halt_threshold)
 
     @property
     def is_completely_halted(self)->bool:
@@ -161,7 +161,7 @@ class ACT_Controller(Immutable):
         # something that is going to be halted, but are not
         # currently halted, will halt in this iteration.
 
-        will_be_halted = (halting_probabilities + self.probabilities) > self.halt_threshold
+        will_be_halted = utils.find_halted(halting_probabilities + self.probabilities, self.halt_threshold)
         newly_halting = will_be_halted & ~self.halted_batches
 
         # Master residuals are updated only the round that we
diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 8ab623c..976220d 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -266,6 +266,23 @@ def merge_pytrees(function: Callable[[Any,
     return jax.tree_util.tree_unflatten(treedef, new_leaves)
 
 
+def find_halted(probabilities: jnp.ndarray, halt_threshold: float)->jnp.ndarray:
+    """
+    Finds which batch elements have halted. These are the elements whose
+    cumulative probability exceeds the halting threshold.
+
+    The threshold can round to exactly one in the dtype of the probabilities. This
+    happens, for instance, with the default epsilon and float16. Since the cumulative
+    probability never exceeds one, elements whose probability has been
+    exhausted always count as halted.
+
+    :param probabilities: The cumulative probabilities
+    :param halt_threshold: The threshold the probabilities must exceed
+    :return: A bool tensor. True means halted
+    """
+    return (probabilities > halt_threshold) | (probabilities >= 1.0)
+
+
 def are_pytree_structure_equal(tree_one: PyTree, tree_two: PyTree)->bool:
     """
     Checks if two pytrees are defined using the same tree structure. Ignores the
diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5141c82..4c7a878 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -78,7 +78,7 @@ class ACTViewer(Immutable):
         return 1-self.state.epsilon
     @property
     def halted_batches(self)->jnp.ndarray:
-        return self.probabilities > self.halt_threshold
+        return utils.find_halted(self.probabilities, self.halt_threshold)
 
     #
     def transform(self,
-- 
2.43.0


From c47b2a28f8268f456bc52924cd3920d5d5ec80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:16 +0000
Subject: [PATCH 08/22] fix: reject None in place of a leaf when editing
 accumulators

---
 src/jax_act/core/tensoreditor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index 8a1741b..392fea6 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -252,6 +252,14 @@ class TensorEditor(Immutable):
         original_leaves = jax.tree_util.tree_leaves(original)
         new_leaves = jax.tree_util.tree_leaves(new)
 
+        # A None has no leaves, yet passes for a leaf in the structure check.
+        msg = f"""
+        The original tensor collection or tensor has {len(original_leaves)} leaves.
+        However, the update has {len(new_leaves)} leaves.
+        """
+        msg = utils.format_error_message(msg, info)
+        checkify.check(len(original_leaves) == len(new_leaves), msg)
+
         for i, (original_leaf, new_leaf) in enumerate(zip(original_leaves, new_leaves)):
             # Check if leaf has same shape
             msg = f"""
-- 
2.43.0


From 78dc0a62816033b1993156a793911b2fff54c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:44 +0000
Subject: [PATCH 09/22] fix: report pytrees of differing structure or shapes as
 unequal

---
 src/jax_act/core/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 976220d..241aece 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -318,6 +318,8 @@ def are_pytrees_equal(tree_one: PyTree, tree_two: PyTree, use_allclose: bool = T
         if type(leaf_one) != type(leaf_two):
             return False
         elif isinstance(leaf_one, (jnp.ndarray, np.ndarray)):
+            if leaf_one.shape != leaf_two.shape:
+                return False
             if use_allclose:
                 return jnp.allclose(leaf_one, leaf_two)
             else:
@@ -325,6 +327,9 @@ def are_pytrees_equal(tree_one: PyTree, tree_two: PyTree, use_allclose: bool = T
         else:
             return leaf_one == leaf_two
 
+    if jax.tree_util.tree_structure(tree_one) != jax.tree_util.tree_structure(tree_two):
+        return False
+
     result_tree = merge_pytrees(are_leaves_equal, tree_one, tree_two)
     leaves = jax.tree_util.tree_flatten(result_tree)[0]
     return all(leaves)
-- 
2.43.0


From e87a8c9ae2faf59b6690b12ec3e2e6275d686cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:06 +0000
Subject: [PATCH 10/22] fix: fill masked elements with zeros even where they
 are not finite

---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 4c7a878..199ff12 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -155,7 +155,7 @@ class ACTViewer(Immutable):
 
         def update_function(tensor: jnp.ndarray)->jnp.ndarray:
             broadcastable_mask = utils.setup_left_broadcast(mask, tensor)
-            return broadcastable_mask*tensor
+            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))
 
         return self.transform(update_function)
 
-- 
2.43.0


From 25e131e0104e0f5b7915ae6f085dc1cda5f216bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 11/22] fix: let Flax act layers contain modules with inline
 definitions

The layer's own error message tells users they may use modules which
contain inline definitions, but such modules create submodules when called,
and Flax refuses that inside the bare jax while loop (JaxTransformError).
Run the loop of a Flax layer with the lifted nn.while_loop.
---
 src/jax_act/frameworks/flax.py | 20 ++++++++++++++++++++
 src/jax_act/layers/act.py      | 19 +++++++++++++++----
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/jax_act/frameworks/flax.py b/src/jax_act/frameworks/flax.py
index 7bc801f..4caa819 100644
--- a/src/jax_act/frameworks/flax.py
+++ b/src/jax_act/frameworks/flax.py
@@ -2,6 +2,7 @@ import textwrap
 
 from flax import linen as nn
 from src.jax_act.layers.act import AbstractACTTemplate
+from src.jax_act.layers.core import ContractValidationWrapper
 from src.jax_act import ACT_Controller, PyTree
 
 class FlaxACTLayer(AbstractACTTemplate, nn.Module):
@@ -44,3 +45,22 @@ class FlaxACTLayer(AbstractACTTemplate, nn.Module):
         # parameters are not yet immutable.
         if self.is_mutable_collection("params"):
             self.run_iteration(controller, state)
+
+    def _execute_while_loop(self, act_layer, wrapped_state):
+        # Flax refuses to create submodules, which inline definitions do
+        # each time they are called, when inside a bare jax transform. The lifted
+        # version of the loop must be used instead.
+        #
+        # It provides us with a module that lives inside the loop. That is
+        # what the iteration has to be run with.
+        def is_act_not_complete(module, state):
+            return self._is_act_not_complete(state)
+
+        def run_layer(module, state):
+            layer = ContractValidationWrapper(module, act_layer.check_errors)
+            return self._while_loop_adapter_factory(layer)(state)
+
+        return nn.while_loop(is_act_not_complete,
+                             run_layer,
+                             self,
+                             wrapped_state)
diff --git a/src/jax_act/layers/act.py b/src/jax_act/layers/act.py
index e595fe7..3a97975 100644
--- a/src/jax_act/layers/act.py
+++ b/src/jax_act/layers/act.py
@@ -220,6 +220,20 @@ class AbstractACTTemplate(AbstractControllerContract):
         return run_layer_adapter
 
 
+    def _execute_while_loop(self,
+                            act_layer: 'ContractValidationWrapper',
+                            wrapped_state: Tuple[ACT_Controller, PyTree, ACTMetaData]
+                            ) -> Tuple[ACT_Controller, PyTree, ACTMetaData]:
+        """
+        Runs the actual loop. A framework that does not tolerate its layers
+        being used inside bare jax transforms can override this, and use
+        its own version of the while loop.
+        """
+        run_layer = self._while_loop_adapter_factory(act_layer)
+        return jax.lax.while_loop(self._is_act_not_complete,
+                                  run_layer,
+                                  wrapped_state)
+
     def execute_act(self,
                     initial_state: PyTree,
                     depression_constant: float = 1.0,
@@ -282,9 +296,6 @@ class AbstractACTTemplate(AbstractControllerContract):
         self.setup_lazy_parameters(controller, initial_state)
 
         wrapped_state = (controller, initial_state, metadata)
-        run_layer = self._while_loop_adapter_factory(act_layer)
-        controller, final_state, _ = jax.lax.while_loop(self._is_act_not_complete,
-                                                      run_layer,
-                                                      wrapped_state)
+        controller, final_state, _ = self._execute_while_loop(act_layer, wrapped_state)
         return controller, final_state
 
-- 
2.43.0


From fe6a00d20a5ec799dba6c744e8eabc13077c8179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 12/22] fix: keep halted batches frozen when their halting
 probability is nan

A nan halting probability overwrote the cumulative probability of a batch
element that had already halted, which made it run again.
---
 src/jax_act/core/controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index cd1e6e1..9272fb0 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -178,9 +178,11 @@ class ACT_Controller(Immutable):
         halting_probabilities = jax.lax.select(will_be_halted, raw_residuals, halting_probabilities)
 
         # Finally, cumulative probabilities are updated to contain the sum
-        # of the halting probabilities and the current cumulative probabilities
+        # of the halting probabilities and the current cumulative probabilities. What
+        # already halted stays as it is, even if it was fed something like a nan.
 
         probabilities = self.probabilities + halting_probabilities
+        probabilities = jax.lax.select(self.halted_batches, self.probabilities, probabilities)
 
         return halting_probabilities, residuals, probabilities
 
-- 
2.43.0


From 4edd72ce68270e32e0590675a8310ccce35f8468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 13/22] fix: keep what is given to halted batches out of the
 gradients

Values such as nan or inf provided for a batch element after it has halted
were multiplied by the zero cotangents and turned gradients into nan.
---
 src/jax_act/core/controller.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 9272fb0..359b864 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -228,6 +228,11 @@ class ACT_Controller(Immutable):
         halted_batches = utils.setup_left_broadcast(halted_batches, accumulator_value)
         halted_batches = jnp.broadcast_to(halted_batches, accumulator_value.shape)
 
+        # Updates to accumulators which have already halted are dropped before they are
+        # weighted. They are not used, but could end up in the gradients.
+
+        update_value = jax.lax.select(halted_batches, jnp.zeros_like(update_value), update_value)
+
         # We weight then add. The result is then created into an update, but
         # only accumulators which have not already reached a halting state get updated.
 
@@ -282,6 +287,14 @@ class ACT_Controller(Immutable):
             raise ValueError("Batch shape and shapes of halting probabilities do not match")
         halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)
 
+        # Whatever was provided for elements that have already halted goes unused. It
+        # is dropped right away, as something like a nan would otherwise still
+        # end up in the gradients.
+
+        halting_probabilities = jax.lax.select(self.halted_batches,
+                                               jnp.zeros_like(halting_probabilities),
+                                               halting_probabilities)
+
         # Compute and manage probability quantities.
         #
         # This includes clamping the halting probabilities, and
-- 
2.43.0


From 4a6b209aad5431d2db73a2af774073a0dfa99fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 14/22] fix: refuse a nan epsilon when creating a new builder

---
 src/jax_act/core/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/builder.py b/src/jax_act/core/builder.py
index 440ebc3..28d71c3 100644
--- a/src/jax_act/core/builder.py
+++ b/src/jax_act/core/builder.py
@@ -430,7 +430,7 @@ class ControllerBuilder(Immutable):
             msg = "dtype of probabilities core must be floating"
             msg = utils.format_error_message(msg, context_error_message)
             raise ValueError(msg)
-        if (epsilon >= 1.0) or (epsilon <= 0.0):
+        if not (0.0 < epsilon < 1.0):
             msg = "epsilon insane: Not between 0 and 1"
             msg = utils.format_error_message(msg, context_error_message)
             raise ValueError(msg)
-- 
2.43.0


From ff3070bdfcc396972b8925f9ecc41b856f156371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 15/22] fix: refuse nan when editing probabilities or residuals

---
 src/jax_act/core/tensoreditor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index 392fea6..4e3627e 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -182,14 +182,14 @@ class TensorEditor(Immutable):
         A tensor representing probabilities had elements less than zero
         """
         msg = utils.format_error_message(msg, info)
-        checkify.check(~jnp.any(tensor < 0), msg)
+        checkify.check(jnp.all(tensor >= 0), msg)
 
         # Check high
         msg = """
         A tensor representing probabilities had elements greater than one
         """
         msg = utils.format_error_message(msg, info)
-        checkify.check(~jnp.any(tensor > 1.0), msg)
+        checkify.check(jnp.all(tensor <= 1.0), msg)
     @staticmethod
     def _validate_is_natural_numbers(tensor: jnp.ndarray,
                                      context: str):
-- 
2.43.0


From 55e7f1da38967330a88d9de2d542c222615618ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 16/22] fix: only broadcast empty collections to equally empty
 ones

---
 src/jax_act/core/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 241aece..6a10412 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -507,7 +507,17 @@ def _replicate_leaves(source_treedef: PyTreeDef,
     if jax.tree_util.treedef_is_leaf(source_treedef):
         if _is_empty_collection(source_treedef):
             # Bugfix. Collections that are currently empty will be identified
-            # as leaves, but not displaced during flatten. We skip those.
+            # as leaves, but not displaced during flatten. We skip those. They only
+            # broadcast to something that is just as empty.
+            if source_treedef != target_treedef:
+                msg = f"""
+                Source tree was not broadcastable.
+
+                Source tree had the empty collection {source_treedef}. At the same
+                position the target tree had {target_treedef}.
+                """
+                msg = format_error_message(msg, context_message)
+                raise RuntimeError(msg)
             return [], source_leaves_queue
 
         node_to_repeat = source_leaves_queue.pop(0)
-- 
2.43.0


From 676bbc6b419d6923f337bfc39be43e1b8f383926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 17/22] fix: drop what is given to halted batches before
 clipping

With the clip first, XLA on the cpu crashes while compiling a scan over a
float16 controller.
---
 src/jax_act/core/controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 359b864..f37f4e1 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -285,15 +285,16 @@ class ACT_Controller(Immutable):
 
         if halting_probabilities.shape != self.probabilities.shape:
             raise ValueError("Batch shape and shapes of halting probabilities do not match")
-        halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)
 
         # Whatever was provided for elements that have already halted goes unused. It
         # is dropped right away, as something like a nan would otherwise still
-        # end up in the gradients.
+        # end up in the gradients. It has to come before the clip: on the cpu, XLA
+        # otherwise crashes when compiling a scan over a float16 controller.
 
         halting_probabilities = jax.lax.select(self.halted_batches,
                                                jnp.zeros_like(halting_probabilities),
                                                halting_probabilities)
+        halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)
 
         # Compute and manage probability quantities.
         #
-- 
2.43.0


From 2277242cec694369fa0ff0defcff6b3e1aac3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:58 +0000
Subject: [PATCH 18/22] fix: keep dataclasses inside of the state when
 flattening it

Accumulators which were, or contained, a registered dataclass came back as
dictionaries from every jax transform.
---
 src/jax_act/core/states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index 62a0e6e..00602f2 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -6,7 +6,7 @@ import textwrap
 
 import jax
 from enum import Enum
-from dataclasses import dataclass, asdict
+from dataclasses import dataclass, fields
 from typing import Dict, Optional, Any, Tuple, Callable, List
 from jax import numpy as jnp
 from jax.experimental import checkify
@@ -173,7 +173,9 @@ class ACTStates:
 # the keys from the state, and doing the reverse to put
 # everything back together.
 def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
-    state = asdict(state)
+    # This must not descend into the fields, like dataclasses.asdict would. It turns
+    # any dataclass a user has put in his trees into a dictionary.
+    state = {field.name: getattr(state, field.name) for field in fields(state)}
 
     aux_out = []
     values = []
-- 
2.43.0


From eafb9777b3934d71e56ee91daa95659e8cc367ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 19/22] fix: compare what custom nodes hold for keys as a whole
 when broadcasting trees

It was iterated over, which fails for anything but a sequence, and sequences of
different length were not told apart.
---
 src/jax_act/core/utils.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 6a10412..23f362b 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -430,26 +430,22 @@ def _validate_children_descent(source_treenode: PyTreeDef,
         """
         msg = format_error_message(msg, context_string)
         raise RuntimeError(msg)
-    if source_keys is not None:
-        # We are working with a node that has keys, like a dictionary
-        #
-        # We know at this point source and target keys will be the same length,
-        # and are from the same kind of object
-        for source_key, target_key in zip(source_keys, target_keys):
-            if source_key != target_key:
-                msg = f"""
-                Two trees could not be broadcast together due to mismatched 
-                tree shape. 
-                
-                A key holding a child on the source node, named '{source_key}',
-                was not also found in the same position on target node, instead found
-                '{target_key}'
-                
-                Dictionaries and other ordered objects must be in the same order for both
-                trees. Did you define two dictionaries with the keys in differing orders?
-                """
-                msg = format_error_message(msg, context_string)
-                raise RuntimeError(msg)
+    if source_keys != target_keys:
+        # We are working with a node that has keys, like a dictionary, or with
+        # a custom node. The latter may hold anything for its keys.
+        msg = f"""
+        Two trees could not be broadcast together due to mismatched 
+        tree shape. 
+        
+        The children of the source node had the keys '{source_keys}'. However,
+        the node at the same place on the target tree had the 
+        keys '{target_keys}'.
+        
+        Dictionaries and other ordered objects must be in the same order for both
+        trees. Did you define two dictionaries with the keys in differing orders?
+        """
+        msg = format_error_message(msg, context_string)
+        raise RuntimeError(msg)
 
 
 
-- 
2.43.0


From 2c95bbdc2846cdb88d4d0b004e4286abdbb07bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:18 +0000
Subject: [PATCH 20/22] fix: allow random numbers to be drawn inside the loop
 of a Flax ACT layer

---
 src/jax_act/frameworks/flax.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jax_act/frameworks/flax.py b/src/jax_act/frameworks/flax.py
index 4caa819..19e1eb3 100644
--- a/src/jax_act/frameworks/flax.py
+++ b/src/jax_act/frameworks/flax.py
@@ -60,7 +60,10 @@ class FlaxACTLayer(AbstractACTTemplate, nn.Module):
             layer = ContractValidationWrapper(module, act_layer.check_errors)
             return self._while_loop_adapter_factory(layer)(state)
 
+        # Random numbers, as needed by for instance dropout, may be drawn inside
+        # the loop. Each iteration then draws its own.
         return nn.while_loop(is_act_not_complete,
                              run_layer,
                              self,
-                             wrapped_state)
+                             wrapped_state,
+                             split_rngs={True: True})
-- 
2.43.0


From d20f05333b81194f7ec3172c7e195c9db53276ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:03 +0000
Subject: [PATCH 21/22] fix: accept depression constants of a wider dtype than
 the probabilities

---
 src/jax_act/core/controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index f37f4e1..2161057 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -150,9 +150,12 @@ class ACT_Controller(Immutable):
         :return: The updated cumulative probabilities
         """
         # We begin by depressing or increasing the probablity by
-        # the stored away depression constant.
+        # the stored away depression constant. The constant may be
+        # of a wider dtype, as a numpy float is; the result is not.
 
+        dtype = halting_probabilities.dtype
         halting_probabilities = self.depression_constant*halting_probabilities
+        halting_probabilities = halting_probabilities.astype(dtype)
 
         # We need to know what batches are just now halting
         # to capture that information in the residuals, and
-- 
2.43.0


From c2b320a4594568dc38b469256d73ca82d11a2b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:51 +0000
Subject: [PATCH 22/22] fix: keep the dtype of a scalar batch that is held by
 numpy arrays

---
 src/jax_act/core/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 2161057..9a540f5 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -171,7 +171,7 @@ class ACT_Controller(Immutable):
         # are newly halted. However, the unfiltered residuals
         # are still useful for probability clamping
 
-        raw_residuals = 1 - self.probabilities
+        raw_residuals = jnp.ones_like(self.probabilities) - self.probabilities
         residuals = jax.lax.select(newly_halting, raw_residuals, self.residuals)
 
         # Halting probabilities are clamped to the raw residual entries
@@ -358,7 +358,7 @@ class ACT_Controller(Immutable):
         # We update the iteration count only where we have
         # not reached the halting state
 
-        new_iterations = self.iterations + 1
+        new_iterations = self.iterations + jnp.ones_like(self.iterations)
         iterations = jax.lax.select(self.halted_batches, self.iterations, new_iterations)
 
         # Create the updated state. Return.
-- 
2.43.0

