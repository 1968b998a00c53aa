From b92d6d0d8242e07d3ae4c16e687c0ff6d35004e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 01/39] fix: conversion no longer renames, calls or modifies
 the layers of the source model

---
 src/decomon/models/convert.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 2fc6644..9ad1f99 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -7,6 +7,7 @@ from keras.models import Model
 
 from decomon.backward_layers.core import BackwardLayer
 from decomon.core import BoxDomain, PerturbationDomain, Slope, get_mode
+from decomon.keras_utils import share_layer_all_weights
 from decomon.layers.convert import to_decomon
 from decomon.models.backward_cloning import convert_backward
 from decomon.models.forward_cloning import (
@@ -32,10 +33,26 @@ from decomon.models.utils import (
 )
 
 
+def _copy_layer(layer: Layer) -> Layer:
+    """Create a new layer sharing the weights of the original one."""
+    new_layer = layer.__class__.from_config(layer.get_config())
+    share_layer_all_weights(original_layer=layer, new_layer=new_layer)
+    return new_layer
+
+
 def _clone_keras_model(model: Model, layer_fn: Callable[[Layer], list[Layer]]) -> Model:
     if model.inputs is None:
         raise ValueError("model.inputs must be not None. You should call the model on a batch of data.")
 
+    def copying_layer_fn(layer: Layer) -> list[Layer]:
+        # The layers of the clone will be renamed, called, and potentially modified (e.g. softmax -> linear):
+        # do not put in it layers actually belonging to the original model.
+        original_layers = (layer, getattr(layer, "activation", None))
+        return [
+            _copy_layer(new_layer) if any(new_layer is original for original in original_layers) else new_layer
+            for new_layer in layer_fn(layer)
+        ]
+
     # ensure the model is functional or convert to it if a sequential one
     model = ensure_functional_model(model)
 
@@ -54,7 +71,7 @@ def _clone_keras_model(model: Model, layer_fn: Callable[[Layer], list[Layer]]) -
         model=model,
         input_tensors=model.inputs,
         softmax_to_linear=False,
-        layer_fn=layer_fn,
+        layer_fn=copying_layer_fn,
         output_map=output_map,
         layer_map=layer_map,
     )
-- 
2.43.0


From aa592bafc2789a3ac2c9976f1f79182a4e7ddf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 02/39] fix: forward batch normalization shares its weights
 with the original layer when shared=True

---
 src/decomon/layers/decomon_layers.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index d6eced0..8fc0d58 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -809,9 +809,23 @@ class DecomonBatchNormalization(DecomonLayer, BatchNormalization):
         )
 
     def build(self, input_shape: list[tuple[Optional[int], ...]]) -> None:
+        shared_weights = {}
+        if self.shared:
+            shared_weights = {name: getattr(self, name) for name in self.keras_weights_names if hasattr(self, name)}
         super().build(input_shape)
+        # overwrite the newly generated weights by the shared ones and untrack them
+        for name, weight in shared_weights.items():
+            weight_to_drop = getattr(self, name)
+            setattr(self, name, weight)
+            self._tracker.untrack(weight_to_drop)
         self.input_spec = [InputSpec(min_ndim=len(elem)) for elem in input_shape]
 
+    def share_weights(self, layer: Layer) -> None:
+        if not self.shared:
+            return
+        for name in self.keras_weights_names:
+            setattr(self, name, getattr(layer, name))
+
     def call(self, inputs: list[BackendTensor], training: bool = False, **kwargs: Any) -> list[BackendTensor]:
         z_value = K.cast(0.0, self.dtype)
 
-- 
2.43.0


From 630749c4b8d589d948a735cdae83432ec7c2c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 03/39] fix: DecomonModel.set_domain() takes full effect on the
 bounds of an already converted model

---
 src/decomon/models/convert.py |  4 ++++
 src/decomon/models/models.py  |  7 ++++++-
 src/decomon/models/utils.py   | 24 +++++++-----------------
 3 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 9ad1f99..956173a 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -1,4 +1,5 @@
 from collections.abc import Callable
+from copy import copy
 from typing import Any, Optional, Union
 
 import keras
@@ -203,6 +204,9 @@ def clone(
 ) -> DecomonModel:
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
+    else:
+        # own copy, as it will be updated by `DecomonModel.set_domain()`
+        perturbation_domain = copy(perturbation_domain)
     if back_bounds is None:
         back_bounds = []
     if extra_inputs is None:
diff --git a/src/decomon/models/models.py b/src/decomon/models/models.py
index 572ac07..8f7afa4 100644
--- a/src/decomon/models/models.py
+++ b/src/decomon/models/models.py
@@ -65,10 +65,15 @@ class DecomonModel(keras.Model):
 
     def set_domain(self, perturbation_domain: PerturbationDomain) -> None:
         perturbation_domain = _check_domain(self.perturbation_domain, perturbation_domain)
-        self.perturbation_domain = perturbation_domain
+        # update in place the domain, as it is shared by all the layers of the model (and their own sublayers)
+        self.perturbation_domain.__dict__.update(vars(perturbation_domain))
         for layer in self.layers:
             if hasattr(layer, "perturbation_domain"):
                 layer.perturbation_domain = self.perturbation_domain
+        # forget the potentially compiled functions, relying on the previous domain
+        self.train_function = None
+        self.test_function = None
+        self.predict_function = None
 
     def freeze_weights(self) -> None:
         for layer in self.layers:
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index f0ecd6a..4303523 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -118,25 +118,15 @@ def get_input_tensors(
             b = K.zeros_like(z_tensor[:, 0])
 
     elif isinstance(perturbation_domain, BallDomain):
-        if perturbation_domain.p == np.inf:
-            radius = perturbation_domain.eps
-            u_c_tensor = Lambda(
-                lambda var: var + K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-            )(z_tensor)
-            if ibp:
-                l_c_tensor = Lambda(
-                    lambda var: var - K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-                )(z_tensor)
-            if affine:
-                W = BatchedIdentityLike()(u_c_tensor)
-                b = K.zeros_like(u_c_tensor)
-
-        else:
+        # For each p, the tightest box around the ball is [z - eps, z + eps].
+        # The radius is read at call time so that an update of the domain is taken into account.
+        dtype = model.layers[0].dtype
+        if ibp:
+            u_c_tensor = Lambda(lambda var: var + K.cast(perturbation_domain.eps, dtype=dtype), dtype=dtype)(z_tensor)
+            l_c_tensor = Lambda(lambda var: var - K.cast(perturbation_domain.eps, dtype=dtype), dtype=dtype)(z_tensor)
+        if affine:
             W = BatchedIdentityLike()(z_tensor)
             b = K.zeros_like(z_tensor)
-            if ibp:
-                u_c_tensor = perturbation_domain.get_upper(z_tensor, W, b)
-                l_c_tensor = perturbation_domain.get_lower(z_tensor, W, b)
 
     else:
         raise NotImplementedError(f"Not implemented for perturbation domain type {type(perturbation_domain)}")
-- 
2.43.0


From b2e9e80e568c68763cb9af44d5c1708bf91caab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 04/39] fix: random splitting of refine_box() can draw any of
 the existing sub-boxes

---
 src/decomon/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 2a5129b..a8bb28d 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -881,7 +881,7 @@ def refine_box(
                 i = int(np.argmax(np.max(index_max[n_i, :count], -1)))
                 j = int(np.argmax(index_max[n_i, i]))
             else:
-                i = np.random.randint(count - 1)
+                i = np.random.randint(count)
                 j = np.random.randint(input_dim)
 
             z_min = x_min_split[n_i, i] + 0.0
-- 
2.43.0


From d7e5121c8525eb9824af0e7af5c4c6f70b913c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 05/39] fix: sub-boxes splitting keeps output components apart
 and works on multi-dimensional boxes

---
 src/decomon/wrapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index a8bb28d..6302e66 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -589,8 +589,9 @@ def get_range_box(
             l_out = np.reshape(l_out, [-1] + shape)
 
     if n_split > 1:
-        u_out = np.max(np.reshape(u_out, (-1, n_split)), -1)
-        l_out = np.min(np.reshape(l_out, (-1, n_split)), -1)
+        # merge sub-boxes, for each output component
+        u_out = np.max(np.reshape(u_out, (-1, n_split) + u_out.shape[1:]), 1)
+        l_out = np.min(np.reshape(l_out, (-1, n_split) + l_out.shape[1:]), 1)
     return u_out, l_out
 
 
@@ -763,7 +764,7 @@ def refine_boxes(
     output_dim = np.prod(shape)
     if len(shape) > 1:
         x_min = np.reshape(x_min, (-1, output_dim))
-        x_max = np.reshape(x_min, (-1, output_dim))
+        x_max = np.reshape(x_max, (-1, output_dim))
     # x_min (None, n)
     # x_max (None, n)
     n = x_min.shape[-1]
-- 
2.43.0


From c3a2e47f8583f01928a654a2832713cce3805dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 06/39] fix: refine_box() gives to each sub-box the labels of
 its own box

---
 src/decomon/wrapper.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 6302e66..ab44c2c 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -861,12 +861,17 @@ def refine_box(
                 return results.reshape((n_x, n_split, -1))
 
         if func.__name__ in [elem.__name__ for elem in [get_adv_box, check_adv_box]]:
+            # same labels for all sub-boxes of a given box
+            source_labels_split = np.repeat(prepare_labels(source_labels, n_x), n_split, axis=0)  # type: ignore
+            target_labels_split = None
+            if target_labels is not None:
+                target_labels_split = np.repeat(prepare_labels(target_labels, n_x), n_split, axis=0)
             results = func(
                 decomon_model,
                 x_min=x_min_split,
                 x_max=x_max_split,
-                source_labels=source_labels,
-                target_labels=target_labels,
+                source_labels=source_labels_split,
+                target_labels=target_labels_split,
                 batch_size=batch_size,
             )
 
-- 
2.43.0


From 3e584dd110f58b6917cc4c2b846b472bc0079e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 07/39] fix: get_adv_noise() handles affine models, Keras
 models, the 2-norm ball and target labels

---
 src/decomon/wrapper.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index ab44c2c..0a320ea 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -947,13 +947,17 @@ def get_adv_noise(
 
     # check that the model is a DecomonModel, else do the conversion
     if not isinstance(model, DecomonModel):
-        decomon_model = clone(model, perturbation_domain=perturbation_domain)
+        decomon_model = clone(
+            model,
+            method=ConvertMethod.CROWN_FORWARD_HYBRID,
+            perturbation_domain=perturbation_domain,
+        )
     else:
         decomon_model = model
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
-    eps = model.perturbation_domain.eps
+    eps = decomon_model.perturbation_domain.eps
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
@@ -972,7 +976,7 @@ def get_adv_noise(
 
     if target_labels is not None:
         if isinstance(target_labels, (int, np.int_)):
-            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
+            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + target_labels
         target_labels = np.array(target_labels).reshape((n_batch, -1)).astype(np.int_)
 
     if batch_size > 0:
@@ -985,11 +989,7 @@ def get_adv_noise(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
@@ -1073,7 +1073,7 @@ def get_adv_noise(
             upper_0 = np.sum(w_u_f * z_tensor[:, :, None, None], 1) + b_u_f
             # compute dual norm
             if p == 2:
-                upper_1 = eps * np.sum(w_u_f**2, 1)
+                upper_1 = eps * np.sqrt(np.sum(w_u_f**2, 1))
             elif p == 1:
                 upper_1 = eps * np.max(np.abs(w_u_f), 1)
             elif p == np.inf:
@@ -1091,9 +1091,9 @@ def get_adv_noise(
 
         if ibp and affine:
             z, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
-        if not ibp and affine:
+        elif not ibp and affine:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
-        if ibp and not affine:
+        elif ibp and not affine:
             u_c, l_c = output[:2]
         else:
             raise NotImplementedError("not ibp and not affine not implemented")
-- 
2.43.0


From c2015a2bcb51aef80c6b5ef77a9419a13e3de7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 08/39] fix: freezing weights or slope parameters of a decomon
 model prevents them from being trained

---
 .../backward_layers/backward_layers.py        | 66 +++++--------------
 src/decomon/backward_layers/core.py           | 14 +++-
 src/decomon/layers/core.py                    | 13 +++-
 src/decomon/layers/decomon_layers.py          | 43 ++----------
 src/decomon/models/models.py                  | 26 ++++++++
 5 files changed, 71 insertions(+), 91 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 76619e6..6d8f3e0 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -63,7 +63,6 @@ class BackwardDense(BackwardLayer):
                 shared=True,
                 fast=False,
             )
-        self.frozen_weights = False
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         if len(inputs) == 0:
@@ -115,19 +114,6 @@ class BackwardDense(BackwardLayer):
             self._trainable_weights.append(self.bias)
         self.built = True
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            if getattr(self.layer, "freeze_weights"):
-                self.layer.freeze_weights()
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if getattr(self.layer, "unfreeze_weights"):
-                self.layer.unfreeze_weights()
-            self.frozen_weights = False
-
 
 class BackwardConv2D(BackwardLayer):
     """Backward  LiRPA of Conv2D"""
@@ -164,7 +150,6 @@ class BackwardConv2D(BackwardLayer):
                 shared=True,
                 fast=False,
             )
-        self.frozen_weights = False
 
     def get_affine_components(self, inputs: list[BackendTensor]) -> tuple[BackendTensor, BackendTensor]:
         """Express the implicit affine matrix of the convolution layer.
@@ -214,19 +199,6 @@ class BackwardConv2D(BackwardLayer):
         weight_, bias_ = self.get_affine_components(inputs)
         return [weight_, bias_] * 2
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            if getattr(self.layer, "freeze_weights"):
-                self.layer.freeze_weights()
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if getattr(self.layer, "unfreeze_weights"):
-                self.layer.unfreeze_weights()
-            self.frozen_weights = False
-
 
 class BackwardActivation(BackwardLayer):
     def __init__(
@@ -253,8 +225,7 @@ class BackwardActivation(BackwardLayer):
         self.slope = Slope(slope)
         self.finetune = finetune
         self.finetune_param: list[keras.Variable] = []
-        if self.finetune:
-            self.frozen_alpha = False
+        self.frozen_alpha = False
         self.grid_finetune: list[keras.Variable] = []
         self.frozen_grid = False
 
@@ -401,34 +372,27 @@ class BackwardActivation(BackwardLayer):
 
         return [w_u_out, b_u_out, w_l_out, b_l_out]
 
+    @property
+    def frozen_variables(self) -> list[keras.Variable]:
+        # only weights: the parameters to be finetuned and the ones of the grid
+        grid_ids = [id(variable) for variable in self.grid_finetune]
+        return [
+            variable
+            for variable in self.weights
+            if (self.frozen_grid if id(variable) in grid_ids else self.frozen_alpha)
+        ]
+
     def freeze_alpha(self) -> None:
-        if not self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if len(self.grid_finetune):
-                    self._trainable_weights = self._trainable_weights[:2]
-                else:
-                    self._trainable_weights = []
-                self.frozen_alpha = True
+        self.frozen_alpha = True
 
     def unfreeze_alpha(self) -> None:
-        if self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if self.activation_name != "linear":
-                    if self.activation_name[:4] != "relu":
-                        self._trainable_weights += [self.alpha_b_u, self.alpha_b_l]
-                    else:
-                        self._trainable_weights += [self.alpha_b_l]
-            self.frozen_alpha = False
+        self.frozen_alpha = False
 
     def freeze_grid(self) -> None:
-        if len(self.grid_finetune) and not self.frozen_grid:
-            self._trainable_weights = self._trainable_weights[2:]
-            self.frozen_grid = True
+        self.frozen_grid = True
 
     def unfreeze_grid(self) -> None:
-        if len(self.grid_finetune) and self.frozen_grid:
-            self._trainable_weights = self.grid_finetune + self._trainable_weights
-            self.frozen_grid = False
+        self.frozen_grid = False
 
 
 class BackwardFlatten(BackwardLayer):
diff --git a/src/decomon/backward_layers/core.py b/src/decomon/backward_layers/core.py
index 99baf27..1278825 100644
--- a/src/decomon/backward_layers/core.py
+++ b/src/decomon/backward_layers/core.py
@@ -35,6 +35,7 @@ class BackwardLayer(ABC, Wrapper):
         kwargs.pop("finetune", None)
         super().__init__(layer, **kwargs)
         self.rec = rec
+        self.frozen_weights = False
         if isinstance(self.layer, DecomonLayer):
             self.mode = self.layer.mode
             self.perturbation_domain = self.layer.perturbation_domain
@@ -128,11 +129,20 @@ class BackwardLayer(ABC, Wrapper):
 
         return [w_shape, b_shape, w_shape, b_shape]
 
+    @property
+    def frozen_variables(self) -> list[keras.Variable]:
+        """Variables that must not be trained by the decomon model using the layer.
+
+        NB: we do not toggle `variable.trainable` as the weights can be shared with the original Keras layer.
+
+        """
+        return self.weights if self.frozen_weights else []
+
     def freeze_weights(self) -> None:
-        pass
+        self.frozen_weights = True
 
     def unfreeze_weights(self) -> None:
-        pass
+        self.frozen_weights = False
 
     def freeze_alpha(self) -> None:
         pass
diff --git a/src/decomon/layers/core.py b/src/decomon/layers/core.py
index 86ef87c..47e3244 100644
--- a/src/decomon/layers/core.py
+++ b/src/decomon/layers/core.py
@@ -221,11 +221,20 @@ class DecomonLayer(ABC, Layer):
         """
         raise NotImplementedError()
 
+    @property
+    def frozen_variables(self) -> list[keras.Variable]:
+        """Variables that must not be trained by the decomon model using the layer.
+
+        NB: we do not toggle `variable.trainable` as the weights can be shared with the original Keras layer.
+
+        """
+        return self.weights if self.frozen_weights else []
+
     def freeze_weights(self) -> None:
-        pass
+        self.frozen_weights = True
 
     def unfreeze_weights(self) -> None:
-        pass
+        self.frozen_weights = False
 
     def freeze_alpha(self) -> None:
         pass
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 8fc0d58..e56b184 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -272,18 +272,6 @@ class DecomonConv2D(DecomonLayer, Conv2D):
             weight_names.append("bias")
         return weight_names
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if self.use_bias:
-                self._trainable_weights = [self.bias] + self._trainable_weights
-            self._trainable_weights = [self.kernel] + self._trainable_weights
-            self.frozen_weights = False
-
 
 class DecomonDense(DecomonLayer, Dense):
     """Forward LiRPA implementation of Dense layers.
@@ -522,18 +510,6 @@ class DecomonDense(DecomonLayer, Dense):
             weight_names.append("bias")
         return weight_names
 
-    def freeze_weights(self) -> None:
-        if not self.frozen_weights:
-            self._trainable_weights = []
-            self.frozen_weights = True
-
-    def unfreeze_weights(self) -> None:
-        if self.frozen_weights:
-            if self.use_bias:
-                self._trainable_weights = [self.bias] + self._trainable_weights
-            self._trainable_weights = [self.kernel] + self._trainable_weights
-            self.frozen_weights = False
-
 
 class DecomonActivation(DecomonLayer, Activation):
     """Forward LiRPA implementation of Activation layers.
@@ -630,21 +606,16 @@ class DecomonActivation(DecomonLayer, Activation):
                     self.beta_u_f.assign(np.ones_like(self.beta_u_f.value()))
                     self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
 
+    @property
+    def frozen_variables(self) -> list[keras.Variable]:
+        # only weights: the parameters to be finetuned
+        return self.weights if self.frozen_alpha else []
+
     def freeze_alpha(self) -> None:
-        if not self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                self._trainable_weights = []
-            self.frozen_alpha = True
+        self.frozen_alpha = True
 
     def unfreeze_alpha(self) -> None:
-        if self.frozen_alpha:
-            if self.finetune and self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
-                if self.activation_name != "linear":
-                    if self.activation_name[:4] != "relu":
-                        self._trainable_weights += [self.beta_u_f, self.beta_l_f]
-                    else:
-                        self._trainable_weights += [self.beta_l_f]
-            self.frozen_alpha = False
+        self.frozen_alpha = False
 
 
 class DecomonFlatten(DecomonLayer, Flatten):
diff --git a/src/decomon/models/models.py b/src/decomon/models/models.py
index 8f7afa4..382497f 100644
--- a/src/decomon/models/models.py
+++ b/src/decomon/models/models.py
@@ -75,6 +75,32 @@ class DecomonModel(keras.Model):
         self.test_function = None
         self.predict_function = None
 
+    def _split_frozen_variables(
+        self, variables: list[keras.Variable]
+    ) -> tuple[list[keras.Variable], list[keras.Variable]]:
+        """Split variables between not frozen ones and frozen ones."""
+        frozen_ids = {id(variable) for layer in self.layers for variable in getattr(layer, "frozen_variables", [])}
+        return (
+            [variable for variable in variables if id(variable) not in frozen_ids],
+            [variable for variable in variables if id(variable) in frozen_ids],
+        )
+
+    @property
+    def trainable_variables(self) -> list[keras.Variable]:
+        return self._split_frozen_variables(super().trainable_variables)[0]
+
+    @property
+    def non_trainable_variables(self) -> list[keras.Variable]:
+        return super().non_trainable_variables + self._split_frozen_variables(super().trainable_variables)[1]
+
+    @property
+    def trainable_weights(self) -> list[keras.Variable]:
+        return self._split_frozen_variables(super().trainable_weights)[0]
+
+    @property
+    def non_trainable_weights(self) -> list[keras.Variable]:
+        return super().non_trainable_weights + self._split_frozen_variables(super().trainable_weights)[1]
+
     def freeze_weights(self) -> None:
         for layer in self.layers:
             if hasattr(layer, "freeze_weights"):
-- 
2.43.0


From 699033880c212529caf0535f2843085d13d74e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 09/39] fix: DecomonModel.reset_finetuning() also resets the
 slopes of the backward activation layers

---
 src/decomon/backward_layers/backward_layers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 6d8f3e0..f90e9dc 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -382,6 +382,15 @@ class BackwardActivation(BackwardLayer):
             if (self.frozen_grid if id(variable) in grid_ids else self.frozen_alpha)
         ]
 
+    def reset_finetuning(self) -> None:
+        if hasattr(self, "alpha_b_l"):
+            alpha_b_l = np.ones(self.alpha_b_l.shape)
+            if isinstance(self.perturbation_domain, GridDomain):
+                alpha_b_l[1:] = 0.0
+            self.alpha_b_l.assign(alpha_b_l)
+        if hasattr(self, "alpha_b_u"):
+            self.alpha_b_u.assign(np.ones(self.alpha_b_u.shape))
+
     def freeze_alpha(self) -> None:
         self.frozen_alpha = True
 
-- 
2.43.0


From bf5b5e2e532ccfb86af5e7994cfd9ec6ef9bead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 10/39] fix: tuned boxes run with keras 3 optimizers, and the
 lower one tunes and returns the lower bound

---
 src/decomon/wrapper_with_tuning.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/decomon/wrapper_with_tuning.py b/src/decomon/wrapper_with_tuning.py
index c7af68a..0b62646 100644
--- a/src/decomon/wrapper_with_tuning.py
+++ b/src/decomon/wrapper_with_tuning.py
@@ -5,7 +5,7 @@ import numpy as np
 import numpy.typing as npt
 from keras.optimizers import Adam
 
-from decomon.metrics.loss import get_upper_loss
+from decomon.metrics.loss import get_lower_loss, get_upper_loss
 from decomon.models.models import DecomonModel
 from decomon.wrapper import get_lower_box, get_upper_box, refine_boxes
 
@@ -84,7 +84,7 @@ def get_upper_box_tuning(
 
         # create loss
         loss_upper = get_upper_loss(model)
-        decomon_model_concat.compile(Adam(lr=lr), loss_upper)
+        decomon_model_concat.compile(Adam(learning_rate=lr), loss_upper)
 
         decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
 
@@ -107,7 +107,7 @@ def get_lower_box_tuning(
     lr: float = 0.1,
     epochs: int = 100,
 ) -> npt.NDArray[np.float_]:
-    """upper bound the maximum of a model in a given box
+    """lower bound the minimum of a model in a given box
 
     Args:
         model: either a Keras model or a Decomon model
@@ -128,7 +128,7 @@ def get_lower_box_tuning(
     # check that the model is a DecomonModel, else do the conversion
     decomon_model = model
 
-    baseline_upper = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+    baseline_lower = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
 
     if n_sub_boxes > 1:
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
@@ -170,14 +170,14 @@ def get_lower_box_tuning(
         model.freeze_weights()
 
         # create loss
-        loss_upper = get_upper_loss(model)
-        decomon_model_concat.compile(Adam(lr=lr), loss_upper)
+        loss_lower = get_lower_loss(model)
+        decomon_model_concat.compile(Adam(learning_rate=lr), loss_lower)
 
-        decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
+        decomon_model_concat.fit(z, baseline_lower, epochs=epochs, verbose=0)
 
-        upper = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+        lower = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
 
         # reset alpha
         model.reset_finetuning()
 
-        return np.minimum(baseline_upper, upper)
+        return np.maximum(baseline_lower, lower)
-- 
2.43.0


From aaf1914e87525f1f8d161fb974df7521350e1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 11/39] fix: DecomonActivation.reset_finetuning() works with
 keras 3 variables

---
 src/decomon/layers/decomon_layers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index e56b184..3a26465 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -601,10 +601,10 @@ class DecomonActivation(DecomonLayer, Activation):
         if self.finetune and self.mode != ForwardMode.IBP:
             if self.activation_name != "linear":
                 if self.activation_name[:4] == "relu":
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
+                    self.beta_l_f.assign(np.ones(self.beta_l_f.shape))
                 else:
-                    self.beta_u_f.assign(np.ones_like(self.beta_u_f.value()))
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
+                    self.beta_u_f.assign(np.ones(self.beta_u_f.shape))
+                    self.beta_l_f.assign(np.ones(self.beta_l_f.shape))
 
     @property
     def frozen_variables(self) -> list[keras.Variable]:
-- 
2.43.0


From 1300f85f29b0e5ad0ed5b92cb2494cbc73b3b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 12/39] fix: tuned boxes let the weights of the model trainable
 and its slopes reset, even if interrupted

---
 src/decomon/wrapper_with_tuning.py | 50 +++++++++++++++++-------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/decomon/wrapper_with_tuning.py b/src/decomon/wrapper_with_tuning.py
index 0b62646..8a265b5 100644
--- a/src/decomon/wrapper_with_tuning.py
+++ b/src/decomon/wrapper_with_tuning.py
@@ -1,3 +1,5 @@
+from collections.abc import Iterator
+from contextlib import contextmanager
 from typing import Union
 
 import keras
@@ -10,6 +12,20 @@ from decomon.models.models import DecomonModel
 from decomon.wrapper import get_lower_box, get_upper_box, refine_boxes
 
 
+@contextmanager
+def _tuning(model: DecomonModel) -> Iterator[None]:
+    """Train only the slopes of the model inside the context, and restore its state when leaving it."""
+    unfrozen_layers = [layer for layer in model.layers if not getattr(layer, "frozen_weights", True)]
+    model.freeze_weights()
+    try:
+        yield
+    finally:
+        # reset alpha
+        model.reset_finetuning()
+        for layer in unfrozen_layers:
+            layer.unfreeze_weights()
+
+
 #### FORMAL BOUNDS ######
 def get_upper_box_tuning(
     model: Union[keras.Model, DecomonModel],
@@ -79,19 +95,14 @@ def get_upper_box_tuning(
         return np.concatenate(results)
 
     else:
-        # freeze_weights
-        model.freeze_weights()
-
-        # create loss
-        loss_upper = get_upper_loss(model)
-        decomon_model_concat.compile(Adam(learning_rate=lr), loss_upper)
-
-        decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
+        with _tuning(model):
+            # create loss
+            loss_upper = get_upper_loss(model)
+            decomon_model_concat.compile(Adam(learning_rate=lr), loss_upper)
 
-        upper = get_upper_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+            decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
 
-        # reset alpha
-        model.reset_finetuning()
+            upper = get_upper_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
 
         return np.minimum(baseline_upper, upper)
 
@@ -166,18 +177,13 @@ def get_lower_box_tuning(
 
         return np.concatenate(results)
     else:
-        # freeze_weights
-        model.freeze_weights()
-
-        # create loss
-        loss_lower = get_lower_loss(model)
-        decomon_model_concat.compile(Adam(learning_rate=lr), loss_lower)
+        with _tuning(model):
+            # create loss
+            loss_lower = get_lower_loss(model)
+            decomon_model_concat.compile(Adam(learning_rate=lr), loss_lower)
 
-        decomon_model_concat.fit(z, baseline_lower, epochs=epochs, verbose=0)
+            decomon_model_concat.fit(z, baseline_lower, epochs=epochs, verbose=0)
 
-        lower = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
-
-        # reset alpha
-        model.reset_finetuning()
+            lower = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
 
         return np.maximum(baseline_lower, lower)
-- 
2.43.0


From d3b41460edfd9a2df306367d9dd7463958ba5e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 13/39] fix: backward methods do not share the weights of the
 converted model when shared=False

---
 src/decomon/models/convert.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 956173a..ab1800b 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -4,7 +4,7 @@ from typing import Any, Optional, Union
 
 import keras
 from keras.layers import InputLayer, Layer
-from keras.models import Model
+from keras.models import Model, clone_model
 
 from decomon.backward_layers.core import BackwardLayer
 from decomon.core import BoxDomain, PerturbationDomain, Slope, get_mode
@@ -135,6 +135,12 @@ def convert(
     if isinstance(method, str):
         method = ConvertMethod(method.lower())
 
+    # backward layers always share their weights with the layers of the model to be converted
+    if not shared and get_direction(method) == FeedDirection.BACKWARD:
+        weights = model.get_weights()
+        model = clone_model(model)
+        model.set_weights(weights)
+
     # prepare the Keras Model: split non-linear activation functions into separate Activation layers
     model = preprocess_keras_model(model)
 
-- 
2.43.0


From 90f480e254e2b92168b0c240e7212f4707ed0469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 14/39] fix: crossentropy models use the perturbation domain of
 the decomon model

---
 src/decomon/metrics/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fce6797..20925e8 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -602,7 +602,7 @@ def build_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, backward=model.backward_bounds)
+    layer_fusion = DecomonLossFusion(mode=mode, perturbation_domain=perturbation_domain, backward=model.backward_bounds)
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
@@ -626,7 +626,7 @@ def build_asymptotic_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, asymptotic=True)
+    layer_fusion = DecomonLossFusion(mode=mode, perturbation_domain=perturbation_domain, asymptotic=True)
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
-- 
2.43.0


From e3051de65846a3446d91b0d07a6e16e0866c1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 15/39] fix: conversion lets unchanged the name of the
 activation layers embedded in other layers

---
 src/decomon/models/convert.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index ab1800b..415fa87 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -48,11 +48,17 @@ def _clone_keras_model(model: Model, layer_fn: Callable[[Layer], list[Layer]]) -
     def copying_layer_fn(layer: Layer) -> list[Layer]:
         # The layers of the clone will be renamed, called, and potentially modified (e.g. softmax -> linear):
         # do not put in it layers actually belonging to the original model.
-        original_layers = (layer, getattr(layer, "activation", None))
-        return [
-            _copy_layer(new_layer) if any(new_layer is original for original in original_layers) else new_layer
-            for new_layer in layer_fn(layer)
-        ]
+        activation = getattr(layer, "activation", None)
+        original_layers = [layer, activation] if isinstance(activation, Layer) else [layer]
+        original_names = [original.name for original in original_layers]
+        try:
+            return [
+                _copy_layer(new_layer) if any(new_layer is original for original in original_layers) else new_layer
+                for new_layer in layer_fn(layer)
+            ]
+        finally:
+            for original, original_name in zip(original_layers, original_names):
+                original.name = original_name
 
     # ensure the model is functional or convert to it if a sequential one
     model = ensure_functional_model(model)
-- 
2.43.0


From 990de280cae97fecae569e65989f0ee0e01d64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 16/39] fix: check_adv_box() takes target labels into account

---
 src/decomon/wrapper.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 0a320ea..c40d43e 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -341,11 +341,7 @@ def check_adv_box(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
@@ -415,7 +411,7 @@ def check_adv_box(
         else:
             z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
 
-        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels)
+        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels, target_labels)
 
 
 #### FORMAL BOUNDS ######
-- 
2.43.0


From b49f40d62fbfae21afaf79602a61b7e25326f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 17/39] fix: conversion of networks with dropout layers

---
 src/decomon/models/convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 415fa87..e64c9ea 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -37,6 +37,9 @@ from decomon.models.utils import (
 def _copy_layer(layer: Layer) -> Layer:
     """Create a new layer sharing the weights of the original one."""
     new_layer = layer.__class__.from_config(layer.get_config())
+    if new_layer.built and not layer.weights:
+        # e.g. Dropout: built as soon as instantiated, and nothing to share
+        return new_layer
     share_layer_all_weights(original_layer=layer, new_layer=new_layer)
     return new_layer
 
-- 
2.43.0


From c14845b73cc54d792e5598f56b51777982051f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:31 +0000
Subject: [PATCH 18/39] fix: linear relaxation of s-shaped activations is sound
 at any bounds (zero bounds, tangent search)

---
 src/decomon/utils.py | 63 +++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 45 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index a4d7944..2d4cb8c 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -554,7 +554,6 @@ def get_linear_hull_s_shape(
 
     z_value = K.cast(0.0, dtype=dtype)
     o_value = K.cast(1.0, dtype=dtype)
-    t_value = K.cast(2.0, dtype=dtype)
 
     # flatten
     shape = list(u_c.shape[1:])
@@ -573,7 +572,7 @@ def get_linear_hull_s_shape(
     alpha_u_0 = K.where(
         K.greater_equal(s_u_prime, coeff), o_value + z_value * u_c_flat, z_value * u_c_flat
     )  # (None, n)
-    alpha_u_1 = (o_value - alpha_u_0) * ((K.sign(l_c_flat) + o_value) / t_value)
+    alpha_u_1 = (o_value - alpha_u_0) * K.cast(K.greater_equal(l_c_flat, z_value), dtype=dtype)
 
     w_u_0 = coeff
     b_u_0 = -w_u_0 * l_c_flat + s_l
@@ -591,7 +590,7 @@ def get_linear_hull_s_shape(
     alpha_l_0 = K.where(
         K.greater_equal(s_l_prime, coeff), o_value + z_value * l_c_flat, z_value * l_c_flat
     )  # (None, n)
-    alpha_l_1 = (o_value - alpha_l_0) * ((K.sign(-u_c_flat) + o_value) / t_value)
+    alpha_l_1 = (o_value - alpha_l_0) * K.cast(K.less_equal(u_c_flat, z_value), dtype=dtype)
 
     w_l_0 = coeff
     b_l_0 = -w_l_0 * u_c_flat + s_u
@@ -639,28 +638,15 @@ def get_t_upper(
     s_p_t = f_prime(t)  # (None, n, 100)
     s_t = func(t)  # (None, n, 100)
 
-    score = K.abs(s_p_t - (s_t - K.expand_dims(s_l, -1)) / (t - l_c_reshaped))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-    threshold = K.min(score, -1)  # (None, n)
+    # the tangent at t is above func on [0, u] (func concave), and also on [l, 0] (func convex) if it is the case at l
+    is_above = K.greater_equal(s_t + s_p_t * (l_c_reshaped - t), K.expand_dims(s_l, -1))  # (None, n, 100)
+    t_index = o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped
+    index_t = K.min(K.where(is_above, t_index, z_value * t_index + K.cast(99, dtype=u_c_flat.dtype)), -1)  # (None, n)
+    t_value = K.sum(K.where(K.equal(t_index, K.expand_dims(index_t, -1)), t, z_value * t), -1)  # (None, n)
 
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index - 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
-    t_value = K.sum(
-        K.where(
-            K.equal(
-                o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped,
-                K.expand_dims(index_t, -1) + z_value * u_c_reshaped,
-            ),
-            t,
-            z_value * t,
-        ),
-        -1,
-    )  # (None, n)
-
-    s_t = func(t_value)  # (None, n)
-    w_u = (s_t - s_l) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), t_value - l_c_flat)  # (None, n)
-    b_u = -w_u * l_c_flat + s_l  # + func(l_c_flat)
+    # step2: tangent at t
+    w_u = f_prime(t_value)  # (None, n)
+    b_u = func(t_value) - w_u * t_value
 
     return [w_u, b_u]
 
@@ -696,27 +682,14 @@ def get_t_lower(
     s_p_t = f_prime(t)  # (None, n, 100)
     s_t = func(t)  # (None, n, 100)
 
-    score = K.abs(s_p_t - (K.expand_dims(s_u, -1) - s_t) / (u_c_reshaped - t))  # (None, n, 100)
-    index = K.argmin(score, -1)  # (None, n)
-
-    threshold = K.min(score, -1)
-    index_t = K.cast(
-        K.where(K.greater(threshold, z_value * threshold), index, K.clip(index + 1, 0, 100)), dtype=u_c_flat.dtype
-    )  # (None, n)
-    t_value = K.sum(
-        K.where(
-            K.equal(
-                o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped,
-                K.expand_dims(index_t, -1) + z_value * u_c_reshaped,
-            ),
-            t,
-            z_value * t,
-        ),
-        -1,
-    )
+    # the tangent at t is below func on [l, 0] (func convex), and also on [0, u] (func concave) if it is the case at u
+    is_below = K.less_equal(s_t + s_p_t * (u_c_reshaped - t), K.expand_dims(s_u, -1))  # (None, n, 100)
+    t_index = o_value * K.cast(np.arange(0, 100)[None, None, :], dtype=u_c_flat.dtype) + z_value * u_c_reshaped
+    index_t = K.min(K.where(is_below, t_index, z_value * t_index + K.cast(99, dtype=u_c_flat.dtype)), -1)  # (None, n)
+    t_value = K.sum(K.where(K.equal(t_index, K.expand_dims(index_t, -1)), t, z_value * t), -1)  # (None, n)
 
-    s_t = func(t_value)  # (None, n)
-    w_l = (s_u - s_t) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), u_c_flat - t_value)  # (None, n)
-    b_l = -w_l * u_c_flat + s_u  # func(u_c_flat)
+    # step2: tangent at t
+    w_l = f_prime(t_value)  # (None, n)
+    b_l = func(t_value) - w_l * t_value
 
     return [w_l, b_l]
-- 
2.43.0


From 8575b40d6e8f456700be2a946f402c49b2c32530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:31 +0000
Subject: [PATCH 19/39] fix: backward permute permutes back non-square shapes

---
 src/decomon/backward_layers/backward_layers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index f90e9dc..bf405c0 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -484,7 +484,8 @@ class BackwardPermute(BackwardLayer):
         y = inputs[-1]
         n_dim = w_u_out.shape[1]
         n_out = w_u_out.shape[-1]
-        shape = list(y.shape[1:])
+        # shape of the permuted tensor, to be permuted back
+        shape = [y.shape[dim] for dim in self.dims]
 
         w_u_out = K.reshape(w_u_out, [-1] + shape + [n_out])
         w_l_out = K.reshape(w_l_out, [-1] + shape + [n_out])
-- 
2.43.0


From 69522e7d569440370d6c15342d83b1a57f33f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 20/39] fix: converted layers of nested models are all counted,
 so that their names stay unique

---
 src/decomon/models/forward_cloning.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decomon/models/forward_cloning.py b/src/decomon/models/forward_cloning.py
index 2c12946..f1a6873 100644
--- a/src/decomon/models/forward_cloning.py
+++ b/src/decomon/models/forward_cloning.py
@@ -20,7 +20,6 @@ from decomon.layers.utils import softmax_to_linear as softmax_2_linear
 from decomon.models.utils import (
     ensure_functional_model,
     get_depth_dict,
-    get_inner_layers,
     get_input_dim,
     prepare_inputs_for_layer,
     wrap_outputs_from_layer_in_list,
@@ -181,6 +180,7 @@ def convert_forward_functional_model(
                 # no conversion, no transformation for output (instead of trying to pass in identity layer)
                 layer_map[id(node)] = layer
             elif isinstance(layer, Model):
+                n_converted_layers = sum(len(layers) for layers in layer2layer_map.values())
                 (
                     _,
                     output,
@@ -195,10 +195,11 @@ def convert_forward_functional_model(
                     count=count,
                     layer2layer_map=layer2layer_map,
                 )
-                count = count + get_inner_layers(layer)
                 layer_map.update(layer_map_submodel)
                 output_map.update(output_map_submodel)
                 layer2layer_map.update(layer2layer_map_submodel)
+                # a layer of the submodel can be converted into several ones, and each one must be counted
+                count = count + sum(len(layers) for layers in layer2layer_map.values()) - n_converted_layers
                 layer_map[id(node)] = layer_map_submodel
             else:
                 if id(layer) in layer2layer_map:
-- 
2.43.0


From a2256f2e5c2df3c8213021146aa87de2f0c9e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 21/39] fix: finetuned slopes of backward relu fit
 multi-dimensional activations

---
 src/decomon/backward_layers/activations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decomon/backward_layers/activations.py b/src/decomon/backward_layers/activations.py
index 153f1cd..1084547 100644
--- a/src/decomon/backward_layers/activations.py
+++ b/src/decomon/backward_layers/activations.py
@@ -80,6 +80,9 @@ def backward_relu(
         inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
         x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
         input_shape = inputs_outputs_spec.get_kerasinputshape(inputs)
+        if len(input_shape) > 2 and "finetune" in kwargs:
+            # the parameters to be finetuned are flattened, whereas the bounds are not
+            kwargs["finetune"] = K.reshape(kwargs["finetune"], tuple(input_shape[1:]))
         bounds = get_linear_hull_relu(upper=u_c, lower=l_c, slope=slope, **kwargs)
         dim = int(np.prod(input_shape[1:]))  # type: ignore
         return [K.reshape(elem, (-1, dim)) for elem in bounds]
-- 
2.43.0


From 6d499241a7b57aebc459335e57d23acce6a708f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 22/39] fix: identity affine bounds can be built with an
 unknown batch size (batches of various sizes in graph mode)

---
 src/decomon/keras_utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/decomon/keras_utils.py b/src/decomon/keras_utils.py
index 681f359..1a57b68 100644
--- a/src/decomon/keras_utils.py
+++ b/src/decomon/keras_utils.py
@@ -2,7 +2,6 @@ from typing import Any
 
 import keras
 import keras.ops as K
-import numpy as np
 from keras.layers import Layer
 
 from decomon.types import BackendTensor, Tensor
@@ -22,10 +21,8 @@ class BatchedIdentityLike(keras.Operation):
     """
 
     def call(self, x: BackendTensor) -> Tensor:
-        input_shape = x.shape
-        identity_tensor = K.identity(input_shape[-1], dtype=x.dtype)
-        n_repeat = int(np.prod(input_shape[:-1]))
-        return K.reshape(K.repeat(identity_tensor[None], n_repeat, axis=0), tuple(input_shape) + (-1,))
+        # NB: no use of the batch size, potentially unknown when building a graph
+        return K.expand_dims(K.zeros_like(x), axis=-1) + K.identity(x.shape[-1], dtype=x.dtype)
 
     def compute_output_spec(self, x: Tensor) -> keras.KerasTensor:
         x_shape = x.shape
-- 
2.43.0


From 1d91272791d8aebb4012f2c990594ee87ff77aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 23/39] fix: get_adv_box() is sound for forward models
 converted with backward bounds

---
 src/decomon/wrapper.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index c40d43e..6527cad 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -8,7 +8,7 @@ import numpy.typing as npt
 from decomon.core import BallDomain, BoxDomain, GridDomain
 from decomon.models.convert import clone
 from decomon.models.models import DecomonModel
-from decomon.models.utils import ConvertMethod
+from decomon.models.utils import ConvertMethod, FeedDirection, get_direction
 
 IntegerType = Union[int, np.int_]
 """Alias for integers types."""
@@ -153,6 +153,10 @@ def get_adv_box(
             output = decomon_model.predict_on_single_batch_np([z, C])  # type: ignore
         else:
             output = decomon_model.predict_on_single_batch_np(z)  # type: ignore
+        # forward methods do not make use of the labels
+        backward_bounds = (
+            decomon_model.backward_bounds and get_direction(decomon_model.method) == FeedDirection.BACKWARD
+        )
 
         def get_ibp_score(
             u_c: npt.NDArray[np.float_],
@@ -239,10 +243,10 @@ def get_adv_box(
             raise NotImplementedError("not ibp and not affine not implemented")
 
         if ibp:
-            adv_ibp = get_ibp_score(u_c, l_c, source_labels, target_labels, backward=decomon_model.backward_bounds)
+            adv_ibp = get_ibp_score(u_c, l_c, source_labels, target_labels, backward=backward_bounds)
         if affine:
             adv_f = get_affine_score(
-                z, w_u_f, b_u_f, w_l_f, b_l_f, source_labels, target_labels, backward=decomon_model.backward_bounds
+                z, w_u_f, b_u_f, w_l_f, b_l_f, source_labels, target_labels, backward=backward_bounds
             )
 
         if ibp and not affine:
-- 
2.43.0


From d43a1e5e8a6967525a4d5be5a41ed46799751883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 24/39] fix: unshared models of backward methods hold a single
 copy of each weight

---
 src/decomon/models/convert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index e64c9ea..d5a59e8 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -149,6 +149,8 @@ def convert(
         weights = model.get_weights()
         model = clone_model(model)
         model.set_weights(weights)
+        # ... as do its forward layers, so that a same weight has a single copy
+        shared = True
 
     # prepare the Keras Model: split non-linear activation functions into separate Activation layers
     model = preprocess_keras_model(model)
-- 
2.43.0


From 96fd48ab794c6fb99d92709a4aec0bc638309236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:31 +0000
Subject: [PATCH 25/39] fix: losses of bounds models work with domains of a
 single component (balls) in affine and hybrid modes

---
 src/decomon/metrics/loss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index 20925e8..b1a97dc 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -121,7 +121,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             u_c = y_pred[:, :, 0]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -130,7 +130,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_u = y_pred[:, -1, n_comp : n_comp + n_out]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -183,7 +183,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             l_c = y_pred[:, :, 1]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -192,7 +192,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_l = y_pred[:, -1, n_comp + n_out :]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -281,7 +281,7 @@ def get_adv_loss(
                 u_c, l_c = softmax_([u_c, l_c], mode=mode, perturbation_domain=perturbation_domain, clip=False)
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -297,7 +297,7 @@ def get_adv_loss(
                 )
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
-- 
2.43.0


From 963b5ec882f42ec3277164ac2d1d2676d7d3b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 26/39] fix: the adversarial loss of hybrid models applies a
 softmax only when asked to

---
 src/decomon/metrics/loss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index b1a97dc..84bbebb 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -309,9 +309,10 @@ def get_adv_loss(
             u_c = y_pred[:, -1, n_comp : n_comp + n_out]
             l_c = y_pred[:, -1, n_comp + n_out :]
 
-            _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
-                [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
-            )
+            if softmax:
+                _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
+                    [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
+                )
 
         else:
             raise ValueError(f"Unknown mode {mode}")
-- 
2.43.0


From 765e731ce6dec090f2b08779695c7c72ce9436d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:38 +0000
Subject: [PATCH 27/39] fix: the relaxation of softmax encloses softmax

---
 src/decomon/layers/activations.py |  3 +--
 src/decomon/layers/utils.py       | 12 +++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/decomon/layers/activations.py b/src/decomon/layers/activations.py
index e773a14..7dafdda 100644
--- a/src/decomon/layers/activations.py
+++ b/src/decomon/layers/activations.py
@@ -19,7 +19,6 @@ from decomon.layers.utils import exp, expand_dims, frac_pos, multiply, softplus_
 from decomon.types import Tensor
 from decomon.utils import (
     get_linear_hull_s_shape,
-    minus,
     relu_,
     sigmoid_prime,
     softsign_prime,
@@ -471,7 +470,7 @@ def softmax(
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     outputs_exp = exponential(
-        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        inputs,
         dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
         mode=mode,
diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 7bb09d6..f3003dc 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -218,17 +218,18 @@ def frac_pos(
     l_c_out = K.cast(1.0, dtype=u_c.dtype) / u_c
 
     if affine:
-        w_u_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
-        b_u_0 = l_c_out - w_u_0 * l_c
+        # chord above, tangent below: both are decreasing
+        w_u_0 = -u_c_out * l_c_out
+        b_u_0 = u_c_out + l_c_out
 
         y = (u_c + l_c) / 2.0
         b_l_0 = K.cast(2.0, dtype=y.dtype) / y
         w_l_0 = -K.cast(1.0, dtype=y.dtype) / y**2
 
         w_u_out = w_u_0[:, None] * w_l
-        b_u_out = b_u_0 * b_l + b_u_0
+        b_u_out = w_u_0 * b_l + b_u_0
         w_l_out = w_l_0[:, None] * w_u
-        b_l_out = b_l_0 * b_u + b_l_0
+        b_l_out = w_l_0 * b_u + b_l_0
     else:
         w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
@@ -1145,7 +1146,8 @@ def exp(
     l_c_out = K.exp(l_c)
 
     if affine:
-        y = (u_c + l_c) / 2.0  # do finetuneting
+        # the tangent at y stays positive over [l_c, u_c] if y < l_c + 1  # do finetuneting
+        y = K.minimum((u_c + l_c) / 2.0, l_c + K.cast(0.99, dtype=l_c.dtype))
 
         w_u_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
         b_u_0 = l_c_out - w_u_0 * l_c
-- 
2.43.0


From 7879e124ef452c15a117f527b23f4e5ffdeeb92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 28/39] fix: the relaxation of softplus encloses softplus

---
 src/decomon/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index 2d4cb8c..6e6c051 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -215,8 +215,8 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
     slope = Slope(slope)
     # in case upper=lower, this cases are
     # considered with index_dead and index_linear
-    u_c = K.softsign(upper)
-    l_c = K.softsign(lower)
+    u_c = K.softplus(upper)
+    l_c = K.softplus(lower)
     alpha = (u_c - l_c) / K.maximum(K.cast(epsilon(), dtype=upper.dtype), (upper - lower))
     w_u = alpha
     b_u = -alpha * lower + l_c
@@ -245,9 +245,7 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
 
     index_dead = -K.clip(K.sign(upper) - o_value, -o_value, z_value)
 
-    w_u = (o_value - index_dead) * w_u
     w_l = (o_value - index_dead) * w_l
-    b_u = (o_value - index_dead) * b_u
     b_l = (o_value - index_dead) * b_l
 
     if "finetune" in kwargs:
@@ -257,7 +255,7 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
         alpha_l = alpha_l[None]
 
         w_u = alpha_u * w_u
-        b_u = alpha_u * b_u + (o_value - alpha_u) * K.maximum(upper, z_value)
+        b_u = alpha_u * b_u + (o_value - alpha_u) * u_c
 
         w_l = alpha_l * w_l
         b_l = alpha_l * b_l + (o_value - alpha_l) * K.maximum(lower, z_value)
-- 
2.43.0


From 9daec4c0d7dd8feba5993d8389fdf619dfb535c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:25 +0000
Subject: [PATCH 29/39] fix: get_model() works for bounds models built before
 the Keras session was cleared

---
 src/decomon/metrics/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index 84bbebb..8beb92e 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -38,7 +38,7 @@ def get_model(model: DecomonModel) -> DecomonModel:
             u_c, l_c = outputs
             return K.concatenate([K.expand_dims(u_c, -1), K.expand_dims(l_c, -1)], -1)
 
-        new_output = Lambda(func)(outputs)
+        new_output = Lambda(func, name=f"{model.name}_concatenated")(outputs)
 
     elif mode == ForwardMode.AFFINE:
 
@@ -57,7 +57,7 @@ def get_model(model: DecomonModel) -> DecomonModel:
             w_b = K.concatenate([w_b_u, w_b_l], -1)  # (None, n_in+1, 2*n_out)
             return K.concatenate([x_0_reshaped, w_b], -1)  # (None, n_in+1, n_comp+2*n_out)
 
-        new_output = Lambda(func)(outputs)
+        new_output = Lambda(func, name=f"{model.name}_concatenated")(outputs)
 
     elif mode == ForwardMode.HYBRID:
 
@@ -82,7 +82,7 @@ def get_model(model: DecomonModel) -> DecomonModel:
 
             return K.concatenate([x_0_reshaped, w_b_u_l], -1)  # (None, n_in+1, n_comp+2*n_out)
 
-        new_output = Lambda(func)(outputs)
+        new_output = Lambda(func, name=f"{model.name}_concatenated")(outputs)
 
     else:
         raise ValueError(f"Unknown mode {mode}")
-- 
2.43.0


From ed6041967e97d4aa1af89e05a8c406fe7b5a853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:31 +0000
Subject: [PATCH 30/39] fix: predict(), fit() and evaluate() of models sharing
 a domain follow its changes in graph mode

---
 src/decomon/models/models.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/decomon/models/models.py b/src/decomon/models/models.py
index 382497f..d60c9df 100644
--- a/src/decomon/models/models.py
+++ b/src/decomon/models/models.py
@@ -42,6 +42,8 @@ class DecomonModel(keras.Model):
         self.finetune = finetune
         self.backward_bounds = backward_bounds
         self.shared = shared
+        # parameters of the domain for which functions are compiled (by keras methods like `predict()`)
+        self._compiled_for: dict[str, str] = {}
 
     def get_config(self) -> dict[str, Any]:
         # force having functional config which is skipped by default
@@ -70,10 +72,26 @@ class DecomonModel(keras.Model):
         for layer in self.layers:
             if hasattr(layer, "perturbation_domain"):
                 layer.perturbation_domain = self.perturbation_domain
-        # forget the potentially compiled functions, relying on the previous domain
-        self.train_function = None
-        self.test_function = None
-        self.predict_function = None
+
+    def _is_outdated(self, function_name: str) -> bool:
+        """Whether a compiled function was made for other parameters of the perturbation domain.
+
+        The domain is shared with the models built upon this one (or the ones this one was built upon),
+        so that its parameters can have been changed through them.
+        """
+        parameters = repr(sorted(vars(self.perturbation_domain).items()))
+        outdated = self._compiled_for.get(function_name, parameters) != parameters
+        self._compiled_for[function_name] = parameters
+        return outdated
+
+    def make_train_function(self, force: bool = False) -> Any:
+        return super().make_train_function(force=self._is_outdated("train") or force)
+
+    def make_test_function(self, force: bool = False) -> Any:
+        return super().make_test_function(force=self._is_outdated("test") or force)
+
+    def make_predict_function(self, force: bool = False) -> Any:
+        return super().make_predict_function(force=self._is_outdated("predict") or force)
 
     def _split_frozen_variables(
         self, variables: list[keras.Variable]
-- 
2.43.0


From d164d615981b2e03d18b3bbcd6c886c9cb883fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 31/39] fix: relaxations of increasing activations stay sound
 when rounding makes their bounds cross

---
 src/decomon/layers/utils.py | 2 ++
 src/decomon/utils.py        | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index f3003dc..9a58183 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -1086,6 +1086,7 @@ def log(
         y = (u_c + l_c) / 2.0
 
         w_l_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        w_l_0 = K.maximum(w_l_0, K.cast(0.0, dtype=u_c.dtype))  # log is increasing, bounds may cross by rounding
         b_l_0 = l_c_out - w_l_0 * l_c
 
         w_u_0 = K.cast(1, dtype=y.dtype) / y
@@ -1150,6 +1151,7 @@ def exp(
         y = K.minimum((u_c + l_c) / 2.0, l_c + K.cast(0.99, dtype=l_c.dtype))
 
         w_u_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        w_u_0 = K.maximum(w_u_0, K.cast(0.0, dtype=u_c.dtype))  # exp is increasing, bounds may cross by rounding
         b_u_0 = l_c_out - w_u_0 * l_c
 
         w_l_0 = K.exp(y)
diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index 6e6c051..ba1967e 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -218,6 +218,8 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
     u_c = K.softplus(upper)
     l_c = K.softplus(lower)
     alpha = (u_c - l_c) / K.maximum(K.cast(epsilon(), dtype=upper.dtype), (upper - lower))
+    # softplus is increasing: a negative slope would only come from bounds crossing each other by rounding
+    alpha = K.maximum(alpha, K.cast(0.0, dtype=upper.dtype))
     w_u = alpha
     b_u = -alpha * lower + l_c
 
@@ -567,6 +569,8 @@ def get_linear_hull_s_shape(
 
     # case 0:
     coeff = (s_u - s_l) / K.maximum(K.cast(epsilon(), dtype=dtype), u_c_flat - l_c_flat)
+    # func is increasing: a negative slope would only come from bounds crossing each other by rounding
+    coeff = K.maximum(coeff, z_value)
     alpha_u_0 = K.where(
         K.greater_equal(s_u_prime, coeff), o_value + z_value * u_c_flat, z_value * u_c_flat
     )  # (None, n)
-- 
2.43.0


From b9172de99f74a4ef1c78ae4577d52ca85b2cefbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 32/39] fix: noise queries with a negative radius use the ball
 of the model

---
 src/decomon/wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 6527cad..9086430 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -684,6 +684,9 @@ def get_range_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
+    # a negative radius stands for the ball of the model itself
+    eps, p = decomon_model.perturbation_domain.eps, decomon_model.perturbation_domain.p
+
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
     input_dim = np.prod(input_shape)
@@ -957,7 +960,7 @@ def get_adv_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
-    eps = decomon_model.perturbation_domain.eps
+    eps, p = decomon_model.perturbation_domain.eps, decomon_model.perturbation_domain.p
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
-- 
2.43.0


From c196d74145ca9e788c6664944a13f89617e03ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 33/39] fix: integer labels of adversarial functions were taken
 as masks

---
 src/decomon/wrapper.py | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 9086430..56ee4a8 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -27,14 +27,25 @@ def _get_dual_ord(p: float) -> float:
         raise ValueError(f"p must be equal to 1, 2, or np.inf, unknown value {p}.")
 
 
-def prepare_labels(labels: LabelType, n_batch: int) -> np.typing.NDArray[np.int_]:
+def prepare_labels(
+    labels: LabelType, n_batch: int, decomon_model: Optional[DecomonModel] = None
+) -> np.typing.NDArray[np.int_]:
+    """Labels as a mask of shape (n_batch, n_labels)
+
+    Integer labels (one for all samples, or one per sample) are one-hot encoded for models with several outputs.
+    """
     if isinstance(labels, (int, np.int_)):
         labels = np.zeros((n_batch, 1), dtype=np.int_) + labels
     elif not isinstance(labels, np.ndarray):
         labels = np.array(labels).reshape((n_batch, -1))
     else:
         labels = labels.reshape((n_batch, -1))
-    return labels.astype("int_")
+    labels = labels.astype("int_")
+    if decomon_model is not None and labels.shape[-1] == 1:
+        n_labels = np.prod(decomon_model.outputs[-1].shape[1:])
+        if n_labels > 1:
+            labels = (np.arange(n_labels)[None] == labels).astype("int_")
+    return labels
 
 
 ##### ADVERSARIAL ROBUSTTNESS #####
@@ -101,9 +112,9 @@ def get_adv_box(
 
     z = np.concatenate([x_min, x_max], 1)
 
-    source_labels = prepare_labels(source_labels, n_batch)
+    source_labels = prepare_labels(source_labels, n_batch, decomon_model)
     if target_labels is not None:
-        target_labels = prepare_labels(target_labels, n_batch)
+        target_labels = prepare_labels(target_labels, n_batch, decomon_model)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -315,18 +326,9 @@ def check_adv_box(
     x_max = x_max.reshape((-1, 1, input_dim))
 
     z = np.concatenate([x_min, x_max], 1)
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1)) + source_labels
-
-    if isinstance(source_labels, list):
-        source_labels = np.array(source_labels).reshape((n_batch, -1))
-
-    source_labels = source_labels.reshape((n_batch, -1))
-    source_labels = source_labels.astype(np.int_)
-
+    source_labels = prepare_labels(source_labels, n_batch, decomon_model)
     if target_labels is not None:
-        target_labels = target_labels.reshape((n_batch, -1))
-        target_labels = target_labels.astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch, decomon_model)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -973,14 +975,9 @@ def get_adv_noise(
     x_reshaped = x + 0 * x
     x_reshaped = x_reshaped.reshape([-1] + input_shape)
 
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
-    source_labels = np.array(source_labels).reshape((n_batch, -1)).astype(np.int_)
-
+    source_labels = prepare_labels(source_labels, n_batch, decomon_model)
     if target_labels is not None:
-        if isinstance(target_labels, (int, np.int_)):
-            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + target_labels
-        target_labels = np.array(target_labels).reshape((n_batch, -1)).astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch, decomon_model)
 
     if batch_size > 0:
         # split
-- 
2.43.0


From 161b624382426a2ee811492f47598c1c50b5447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 34/39] fix: scores of models with backward bounds were wrong
 for several source labels

---
 src/decomon/wrapper.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 56ee4a8..f4347c0 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -90,6 +90,16 @@ def get_adv_box(
     n_split = 1
     n_batch = len(x_min)
 
+    if decomon_model.backward_bounds and get_direction(decomon_model.method) == FeedDirection.BACKWARD:
+        # such models bound the margins with one label at a time
+        source_mask = prepare_labels(source_labels, n_batch, decomon_model)
+        if np.any(np.sum(source_mask, 1) > 1):
+            scores = [
+                get_adv_box(decomon_model, x_min, x_max, label, target_labels, batch_size, n_sub_boxes)
+                for label in range(source_mask.shape[1])
+            ]
+            return np.max(np.where(source_mask > 0, np.stack(scores, 1), -np.inf), 1)
+
     if n_sub_boxes > 1:
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
         # reshape
-- 
2.43.0


From 5e57cccef1311d35c7bb491fdc07fae2810ae401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 35/39] fix: tuned boxes with several sub-boxes failed or gave
 one answer per sub-box

---
 src/decomon/wrapper_with_tuning.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/decomon/wrapper_with_tuning.py b/src/decomon/wrapper_with_tuning.py
index 8a265b5..04c05ac 100644
--- a/src/decomon/wrapper_with_tuning.py
+++ b/src/decomon/wrapper_with_tuning.py
@@ -58,14 +58,18 @@ def get_upper_box_tuning(
     # check that the model is a DecomonModel, else do the conversion
     decomon_model = model
 
-    baseline_upper = get_upper_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
-
     if n_sub_boxes > 1:
+        # tune the bounds of each sub-box, and merge them
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
+        n_split = x_min.shape[1]
         # reshape
         shape = list(x_min.shape[2:])
         x_min = np.reshape(x_min, [-1] + shape)
         x_max = np.reshape(x_max, [-1] + shape)
+        upper = get_upper_box_tuning(model, decomon_model_concat, x_min, x_max, batch_size, lr=lr, epochs=epochs)
+        return np.max(np.reshape(upper, (-1, n_split) + upper.shape[1:]), 1)
+
+    baseline_upper = get_upper_box(model, x_min, x_max, batch_size=batch_size)
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[2:])
@@ -102,7 +106,7 @@ def get_upper_box_tuning(
 
             decomon_model_concat.fit(z, baseline_upper, epochs=epochs, verbose=0)
 
-            upper = get_upper_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+            upper = get_upper_box(model, x_min, x_max, batch_size=batch_size)
 
         return np.minimum(baseline_upper, upper)
 
@@ -139,14 +143,18 @@ def get_lower_box_tuning(
     # check that the model is a DecomonModel, else do the conversion
     decomon_model = model
 
-    baseline_lower = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
-
     if n_sub_boxes > 1:
+        # tune the bounds of each sub-box, and merge them
         x_min, x_max = refine_boxes(x_min, x_max, n_sub_boxes)
+        n_split = x_min.shape[1]
         # reshape
         shape = list(x_min.shape[2:])
         x_min = np.reshape(x_min, [-1] + shape)
         x_max = np.reshape(x_max, [-1] + shape)
+        lower = get_lower_box_tuning(model, decomon_model_concat, x_min, x_max, batch_size, lr=lr, epochs=epochs)
+        return np.min(np.reshape(lower, (-1, n_split) + lower.shape[1:]), 1)
+
+    baseline_lower = get_lower_box(model, x_min, x_max, batch_size=batch_size)
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[2:])
@@ -184,6 +192,6 @@ def get_lower_box_tuning(
 
             decomon_model_concat.fit(z, baseline_lower, epochs=epochs, verbose=0)
 
-            lower = get_lower_box(model, x_min, x_max, batch_size=batch_size, n_sub_boxes=n_sub_boxes)
+            lower = get_lower_box(model, x_min, x_max, batch_size=batch_size)
 
         return np.maximum(baseline_lower, lower)
-- 
2.43.0


From 7d491a9d41d34ef54ddbed2f19ec0c4119a9b23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 36/39] fix: affine bounds through channels_first convolutions
 were those of another map

---
 src/decomon/backward_layers/utils_conv.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/utils_conv.py b/src/decomon/backward_layers/utils_conv.py
index ae0faf8..8a57866 100644
--- a/src/decomon/backward_layers/utils_conv.py
+++ b/src/decomon/backward_layers/utils_conv.py
@@ -131,7 +131,14 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
 
     diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
 
-    diag_patches = extract_patches(diag, [filter_size, filter_size], [1, 1], [1, 1], padding=conv_layer.padding)
+    diag_patches = extract_patches(
+        diag,
+        size=[filter_size, filter_size],
+        strides=list(conv_layer.strides),
+        dilation_rate=list(conv_layer.dilation_rate),
+        padding=conv_layer.padding,
+        data_format="channels_last",
+    )
 
     diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
 
@@ -150,6 +157,9 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
     # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size^2)
     # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter^2)
 
+    # the channels come first in the inputs and in the outputs of the layer
+    w = K.transpose(w, (2, 0, 1, 5, 3, 4))
+
     w = K.cast(w, conv_layer.dtype)
     # cast w for dtype
 
-- 
2.43.0


From 55f6e9a9dc888a82795d547d645d9b02c7f98e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 37/39] fix: affine bounds through channels_first flattening
 were in the wrong order

---
 .../backward_layers/backward_layers.py        | 19 ++++++++++++++++++-
 src/decomon/layers/decomon_layers.py          |  4 ++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index bf405c0..8556827 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -426,7 +426,24 @@ class BackwardFlatten(BackwardLayer):
         )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-        return get_identity_lirpa(inputs)
+        w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
+
+        if self.layer.data_format == "channels_first":
+            # the channels are switched to the last position before flattening
+            input = self.layer.input
+            if not isinstance(input, keras.KerasTensor):  # list of inputs
+                input = input[-1]
+            shape = input.shape[1:]
+            n_dim = w_u_out.shape[1]
+            w_u_out, w_l_out = [
+                K.reshape(
+                    K.moveaxis(K.reshape(w, (-1, *shape[1:], shape[0], n_dim)), -2, 1),
+                    (-1, n_dim, n_dim),
+                )
+                for w in (w_u_out, w_l_out)
+            ]
+
+        return [w_u_out, b_u_out, w_l_out, b_l_out]
 
 
 class BackwardReshape(BackwardLayer):
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 3a26465..74fc47c 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -716,6 +716,10 @@ class DecomonFlatten(DecomonLayer, Flatten):
             b_l_out = op(b_l)
             input_dim = x.shape[-1]
             output_shape = int(np.prod(b_u_out.shape[1:]))
+            if self.data_format == "channels_first" and len(w_u.shape) > 3:
+                # the channels are switched to the last position before flattening
+                axes = (0, 1, *range(3, len(w_u.shape)), 2)
+                w_u, w_l = K.transpose(w_u, axes), K.transpose(w_l, axes)
             w_u_out = K.reshape(w_u, (-1, input_dim, output_shape))
             w_l_out = K.reshape(w_l, (-1, input_dim, output_shape))
         else:
-- 
2.43.0


From b862574b506037f86f38ea2a2c9666cca8ebb8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 38/39] fix: grouped convolutions could not be converted with
 weights of their own

---
 src/decomon/layers/decomon_layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 74fc47c..db5ea1a 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -106,7 +106,7 @@ class DecomonConv2D(DecomonLayer, Conv2D):
             raise ValueError("The channel dimension of the inputs " "should be defined. Found `None`.")
         input_dim = input_shape[-1][channel_axis]
 
-        kernel_shape = self.kernel_size + (input_dim, self.filters)
+        kernel_shape = self.kernel_size + (input_dim // self.groups, self.filters)
 
         if not self.shared:
             self.kernel = self.add_weight(
-- 
2.43.0


From 8f353384a5630c81b1ad17f57c0591d4b3b457d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 39/39] fix: bounds of double precision convolutions were
 computed in single precision

---
 src/decomon/backward_layers/utils_conv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/backward_layers/utils_conv.py b/src/decomon/backward_layers/utils_conv.py
index 8a57866..a80e5ff 100644
--- a/src/decomon/backward_layers/utils_conv.py
+++ b/src/decomon/backward_layers/utils_conv.py
@@ -82,9 +82,10 @@ def get_toeplitz_channels_last(conv_layer: Conv2D, flatten: bool = True) -> Back
         None, None, None, None, None
     ]  # (1,1,c_in, c_out, filter_size^2)
 
-    # element-wise multiplication is only compatible with float32
-    diag_patches_ = K.cast(diag_patches_, "float32")
-    kernel = K.cast(kernel, "float32")
+    # element-wise multiplication needs at least float32
+    dtype = "float64" if conv_layer.dtype == "float64" else "float32"
+    diag_patches_ = K.cast(diag_patches_, dtype)
+    kernel = K.cast(kernel, dtype)
 
     w = K.sum(K.expand_dims(diag_patches_, -2) * kernel, (5, 7))
     # kernel shape: (1,1,1,1,1,c_in, c_out, filter_size^2)
-- 
2.43.0

