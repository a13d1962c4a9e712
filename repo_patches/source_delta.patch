From 9e8822343bd5db1c6ec6717242000a16e6c6ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 01/91] fix: restore operator bindings when a define_operators
 block raises

---
 thinc/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index ba49215..63df433 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -170,8 +170,10 @@ class Model(Generic[InT, OutT]):
                 model = Relu(512) >> Relu(512) >> Softmax()
         """
         token = cls._context_operators.set(dict(operators))
-        yield
-        cls._context_operators.reset(token)
+        try:
+            yield
+        finally:
+            cls._context_operators.reset(token)
 
     def has_dim(self, name: str) -> Optional[bool]:
         """Check whether the model has a dimension of a given name. If the
-- 
2.43.0


From b3496958c12dce1c60455ddb8689ed222c6c31ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 02/91] fix: restore parameters when a use_params block raises

---
 thinc/model.py         | 27 ++++++++++++++-------------
 thinc/shims/pytorch.py |  8 +++++---
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index 63df433..59214fc 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -357,19 +357,20 @@ class Model(Generic[InT, OutT]):
         values are arrays of weight values.
         """
         backup = {}
-        for name in self.param_names:
-            key = (self.id, name)
-            if key in params:
-                backup[name] = self.get_param(name)
-                self.set_param(name, params[key])
-
-        with contextlib.ExitStack() as stack:
-            for layer in self.layers:
-                stack.enter_context(layer.use_params(params))
-            for shim in self.shims:
-                stack.enter_context(shim.use_params(params))
-            yield
-        if backup:
+        try:
+            for name in self.param_names:
+                key = (self.id, name)
+                if key in params:
+                    backup[name] = self.get_param(name)
+                    self.set_param(name, params[key])
+
+            with contextlib.ExitStack() as stack:
+                for layer in self.layers:
+                    stack.enter_context(layer.use_params(params))
+                for shim in self.shims:
+                    stack.enter_context(shim.use_params(params))
+                yield
+        finally:
             for name, param in backup.items():
                 self.set_param(name, param)
 
diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 9dd1511..1cf69b8 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -188,9 +188,11 @@ class PyTorchShim(Shim):
                 state_dict[k.replace(key_prefix, "")] = xp2torch(v, device=self.device)
         if state_dict:
             backup = {k: v.clone() for k, v in self._model.state_dict().items()}
-            self._model.load_state_dict(state_dict)
-            yield
-            self._model.load_state_dict(backup)
+            try:
+                self._model.load_state_dict(state_dict)
+                yield
+            finally:
+                self._model.load_state_dict(backup)
         else:
             yield
 
-- 
2.43.0


From 0e201752099188c7a7360ac6e8ecddff0e00fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 03/91] fix: allow unset references in Model.remove_node and
 Model.replace_node

---
 thinc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index 59214fc..592fcca 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -435,7 +435,7 @@ class Model(Generic[InT, OutT]):
         tree = set(self.walk())
         for node in tree:
             for name in node.ref_names:
-                ref = node.get_ref(name)
+                ref = node.maybe_get_ref(name)
                 if ref is not None and ref not in tree:
                     node.set_ref(name, None)
 
@@ -461,7 +461,7 @@ class Model(Generic[InT, OutT]):
                     new if layer is old else layer for layer in node._layers
                 ]
                 for name in node.ref_names:
-                    if node.get_ref(name) is old:
+                    if node.maybe_get_ref(name) is old:
                         node.set_ref(name, new)
 
         return seen
-- 
2.43.0


From 7cda9ac1e0379c55420e04b3b1aa31c9e0860bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 04/91] fix: do not return the old value of a parameter that
 was unset

---
 thinc/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/model.py b/thinc/model.py
index 592fcca..3ad60d2 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -233,7 +233,7 @@ class Model(Generic[InT, OutT]):
         """Retrieve a weights parameter by name."""
         if name not in self._has_params:
             raise KeyError(f"Unknown param: '{name}' for model '{self.name}'.")
-        if not self._params.has_param(self.id, name):
+        if self._has_params[name] is None or not self._params.has_param(self.id, name):
             raise KeyError(
                 f"Parameter '{name}' for model '{self.name}' has not been allocated yet."
             )
-- 
2.43.0


From 9e289236b2d04b8acc68c448db0e887f400da8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 05/91] fix: keep node references and the ops object when
 copying a model

---
 thinc/model.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index 3ad60d2..5cc8099 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -484,13 +484,18 @@ class Model(Generic[InT, OutT]):
         layers will also be deep-copied. The copy will receive a distinct `model.id`
         value.
         """
-        return self._copy()
+        seen: Dict[int, Union["Model", Shim]] = {}
+        copied = self._copy(seen)
+        seen[id(self)] = copied
+        # Make references point to the copied nodes.
+        for node in self.walk():
+            copied_node = cast(Model, seen[id(node)])
+            for name in node.ref_names:
+                ref = node.maybe_get_ref(name)
+                copied_node._refs[name] = cast(Model, seen.get(id(ref), ref))
+        return copied
 
-    def _copy(
-        self: SelfT, seen: Optional[Dict[int, Union["Model", Shim]]] = None
-    ) -> SelfT:
-        if seen is None:
-            seen = {}
+    def _copy(self: SelfT, seen: Dict[int, Union["Model", Shim]]) -> SelfT:
         params = {}
         for name in self.param_names:
             params[name] = self.get_param(name) if self.has_param(name) else None
@@ -522,6 +527,7 @@ class Model(Generic[InT, OutT]):
             attrs=copy.deepcopy(self._attrs),
             layers=copied_layers,
             shims=copied_shims,
+            ops=self.ops,
         )
         for name in self.grad_names:
             copied.set_grad(name, self.get_grad(name).copy())
-- 
2.43.0


From 52098ffc6baed6de7a8e8a56a8fcbc7aa81f45c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 06/91] fix: restore the data validation switch when a
 data_validation block raises

---
 thinc/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thinc/util.py b/thinc/util.py
index 7a37dfa..f677a05 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -605,8 +605,10 @@ def data_validation(validation):
     with threading.Lock():
         prev = DATA_VALIDATION.get()
         DATA_VALIDATION.set(validation)
-        yield
-        DATA_VALIDATION.set(prev)
+        try:
+            yield
+        finally:
+            DATA_VALIDATION.set(prev)
 
 
 @contextlib.contextmanager
-- 
2.43.0


From 17dfa495e192bc986a8743235e2cdeeb9ffde114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 07/91] fix: clean up temporary files and profiling ranges when
 the block raises

---
 thinc/util.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/thinc/util.py b/thinc/util.py
index f677a05..05836a4 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -595,9 +595,11 @@ def validate_fwd_input_output(
 @contextlib.contextmanager
 def make_tempfile(mode="r"):
     f = tempfile.NamedTemporaryFile(mode=mode, delete=False)
-    yield f
-    f.close()
-    os.remove(f.name)
+    try:
+        yield f
+    finally:
+        f.close()
+        os.remove(f.name)
 
 
 @contextlib.contextmanager
@@ -617,8 +619,10 @@ def use_nvtx_range(message: str, id_color: int = -1):
     ranges can be used as markers in CUDA profiling."""
     if has_cupy:
         cupy.cuda.nvtx.RangePush(message, id_color)
-        yield
-        cupy.cuda.nvtx.RangePop()
+        try:
+            yield
+        finally:
+            cupy.cuda.nvtx.RangePop()
     else:
         yield
 
-- 
2.43.0


From ffb9b772061d3acfcc7a37fb83f312fb6ce2a6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 08/91] fix: load the deserialized weights into the wrapped
 PyTorch model

---
 thinc/shims/pytorch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 1cf69b8..09285d4 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -256,5 +256,6 @@ def default_deserialize_torch_model(
     filelike = BytesIO(state_bytes)
     filelike.seek(0)
     state_dict = torch.load(filelike, map_location=device, weights_only=weights_only)
+    model.load_state_dict(state_dict)
     model.to(device)
     return model
-- 
2.43.0


From d3d8eee9c3289930da3309b9d1a4932916fbc552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 09/91] fix: allow Model.replace_node to update references
 outside the node's subtree

---
 thinc/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thinc/model.py b/thinc/model.py
index 5cc8099..7639b16 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -462,7 +462,9 @@ class Model(Generic[InT, OutT]):
                 ]
                 for name in node.ref_names:
                     if node.maybe_get_ref(name) is old:
-                        node.set_ref(name, new)
+                        # References may point outside the node's own subtree
+                        # (e.g. after an earlier edit), so set_ref can't be used.
+                        node._refs[name] = new
 
         return seen
 
-- 
2.43.0


From 62c736111e9c79473947fda539e6f896d9fc20e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 10/91] fix: load references to any node of the serialized tree

---
 thinc/model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index 7639b16..fcfa24d 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -671,10 +671,9 @@ class Model(Generic[InT, OutT]):
                 if value is not None:
                     node.set_dim(dim, value)
             for ref, ref_index in info["refs"].items():
-                if ref_index is None:
-                    node.set_ref(ref, None)
-                else:
-                    node.set_ref(ref, nodes[ref_index])
+                # References can point to any node in the serialized tree, also
+                # to one outside the node's own subtree.
+                node._refs[ref] = None if ref_index is None else nodes[ref_index]
             for attr, value in msg["attrs"][i].items():
                 default_value = node.attrs.get(attr)
                 loaded_value = deserialize_attr(default_value, value, attr, node)
-- 
2.43.0


From d93cfcff323f70a5dbdaa857fabb64bf8d72eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 11/91] fix: sum gradients of parallel layers elementwise and
 without changing shared arrays

---
 thinc/layers/add.py         |  6 +++---
 thinc/layers/concatenate.py | 12 +++++-------
 thinc/layers/tuplify.py     |  3 ++-
 thinc/util.py               | 20 ++++++++++++++++++++
 4 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index a3aa1af..d5e1794 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -3,7 +3,7 @@ from typing import Any, Callable, Dict, Optional, Tuple, TypeVar
 from ..config import registry
 from ..model import Model
 from ..types import ArrayXd, XY_XY_OutT
-from ..util import get_width
+from ..util import get_width, sum_gradients
 
 InT = TypeVar("InT", bound=Any)
 OutT = TypeVar("OutT", bound=ArrayXd)
@@ -36,13 +36,13 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     callbacks = []
     for layer in model.layers[1:]:
         layer_Y, layer_callback = layer(X, is_train=is_train)
-        Y += layer_Y
+        Y = Y + layer_Y
         callbacks.append(layer_callback)
 
     def backprop(dY: InT) -> OutT:
         dX = first_callback(dY)
         for callback in callbacks:
-            dX += callback(dY)
+            dX = sum_gradients(dX, callback(dY))
         return dX
 
     return Y, backprop
diff --git a/thinc/layers/concatenate.py b/thinc/layers/concatenate.py
index e810cef..5f789c2 100644
--- a/thinc/layers/concatenate.py
+++ b/thinc/layers/concatenate.py
@@ -15,7 +15,7 @@ from ..backends import NumpyOps
 from ..config import registry
 from ..model import Model
 from ..types import Array2d, Ragged, XY_XY_OutT
-from ..util import get_width
+from ..util import get_width, sum_gradients
 from .noop import noop
 
 NUMPY_OPS = NumpyOps()
@@ -83,10 +83,8 @@ def _array_forward(
         for bwd, width in zip(callbacks[1:], widths[1:]):
             dY = model.ops.as_contig(d_output[:, start : start + width])
             gradient = bwd(dY)
-            if add_gradients:
-                dX += gradient
-            elif add_gradients_data:
-                dX.data += gradient.data
+            if add_gradients or add_gradients_data:
+                dX = sum_gradients(dX, gradient)
             start += width
         return dX
 
@@ -109,7 +107,7 @@ def _ragged_forward(
             dY = Ragged(
                 model.ops.as_contig(d_array[:, start : start + width]), d_output.lengths
             )
-            dX += bwd(dY)
+            dX = sum_gradients(dX, bwd(dY))
             start += width
         return dX
 
@@ -129,7 +127,7 @@ def _list_forward(
         for bwd, width in zip(callbacks[1:], widths[1:]):
             dY = model.ops.as_contig(d_out_array[:, start : start + width])
             dY = model.ops.unflatten(dY, lengths)
-            dX += bwd(dY)
+            dX = sum_gradients(dX, bwd(dY))
             start += width
         return dX
 
diff --git a/thinc/layers/tuplify.py b/thinc/layers/tuplify.py
index 35dfdc6..dddf767 100644
--- a/thinc/layers/tuplify.py
+++ b/thinc/layers/tuplify.py
@@ -2,6 +2,7 @@ from typing import Any, Optional, Tuple, TypeVar
 
 from ..config import registry
 from ..model import Model
+from ..util import sum_gradients
 
 InT = TypeVar("InT")
 OutT = Tuple
@@ -41,7 +42,7 @@ def tuplify_forward(model, X, is_train):
         dXs = [bp(dY) for bp, dY in zip(backprops, dYs)]
         dX = dXs[0]
         for dx in dXs[1:]:
-            dX += dx
+            dX = sum_gradients(dX, dx)
         return dX
 
     return tuple(Ys), backprop_tuplify
diff --git a/thinc/util.py b/thinc/util.py
index 05836a4..5f31104 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -290,6 +290,26 @@ def to_categorical(
     return label_distr[Y]
 
 
+def sum_gradients(left: Any, right: Any) -> Any:
+    """Add up two input gradients, as computed by layers that share their input.
+    Neither argument is changed, because the gradients may be shared with other
+    layers or with the caller.
+    """
+    if isinstance(left, (list, tuple)) and isinstance(right, (list, tuple)):
+        if len(left) != len(right):
+            # E.g. an empty list, for layers that do not compute a gradient.
+            return type(left)([*left, *right])
+        return type(left)([sum_gradients(x, y) for x, y in zip(left, right)])
+    elif isinstance(left, Ragged):
+        return Ragged(left.dataXd + right.dataXd, left.lengths)
+    elif isinstance(left, Padded):
+        return Padded(
+            left.data + right.data, left.size_at_t, left.lengths, left.indices
+        )
+    else:
+        return left + right
+
+
 def get_width(
     X: Union[ArrayXd, Ragged, Padded, Sequence[ArrayXd]], *, dim: int = -1
 ) -> int:
-- 
2.43.0


From 4acc364c586efe08977c445863bd8d0757f3458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 12/91] fix: do not change the wrapped layer's arrays in
 residual over padded batches

---
 thinc/layers/residual.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/residual.py b/thinc/layers/residual.py
index f213e9b..642d6d9 100644
--- a/thinc/layers/residual.py
+++ b/thinc/layers/residual.py
@@ -33,8 +33,9 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
         elif isinstance(d_output, Ragged):
             return Ragged(d_output.data + dX.data, dX.lengths)
         elif isinstance(X, Padded):
-            dX.data += d_output.data
-            return dX
+            return Padded(
+                d_output.data + dX.data, dX.size_at_t, dX.lengths, dX.indices
+            )
         else:
             return d_output + dX
 
@@ -44,8 +45,7 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
     elif isinstance(X, Ragged):
         return Ragged(X.data + Y.data, X.lengths), backprop
     elif isinstance(X, Padded):
-        Y.data += X.data
-        return Y, backprop
+        return Padded(X.data + Y.data, Y.size_at_t, Y.lengths, Y.indices), backprop
     else:
         return X + Y, backprop
 
-- 
2.43.0


From fbd5d1ae60a23018aa6100c00cbe9f4bfc571f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 13/91] fix: reverse the sequences and split the gradient in
 bidirectional

---
 thinc/layers/bidirectional.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/thinc/layers/bidirectional.py b/thinc/layers/bidirectional.py
index 8cea04e..4932ed2 100644
--- a/thinc/layers/bidirectional.py
+++ b/thinc/layers/bidirectional.py
@@ -24,13 +24,13 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     X_rev = _reverse(model.ops, X)
     l2r_Z, bp_l2r_Z = l2r(X, is_train)
     r2l_Z, bp_r2l_Z = r2l(X_rev, is_train)
-    Z = _concatenate(model.ops, l2r_Z, r2l_Z)
+    Z = _concatenate(model.ops, l2r_Z, _reverse(model.ops, r2l_Z))
 
     def backprop(dZ: OutT) -> InT:
         d_l2r_Z, d_r2l_Z = _split(model.ops, dZ)
         dX_l2r = bp_l2r_Z(d_l2r_Z)
-        dX_r2l = bp_r2l_Z(d_r2l_Z)
-        return _sum(dX_l2r, dX_r2l)
+        dX_r2l = bp_r2l_Z(_reverse(model.ops, d_r2l_Z))
+        return _sum(dX_l2r, _reverse(model.ops, dX_r2l))
 
     return Z, backprop
 
@@ -44,7 +44,11 @@ def init(
 
 
 def _reverse(ops: Ops, Xp: Padded) -> Padded:
-    return Padded(Xp.data[::1], Xp.size_at_t, Xp.lengths, Xp.indices)
+    # Reverse each sequence within its length, so that the padding stays last.
+    data = ops.xp.zeros_like(Xp.data)
+    for i, length in enumerate(Xp.lengths):
+        data[:length, i] = Xp.data[:length, i][::-1]
+    return Padded(data, Xp.size_at_t, Xp.lengths, Xp.indices)
 
 
 def _concatenate(ops: Ops, l2r: Padded, r2l: Padded) -> Padded:
@@ -60,7 +64,7 @@ def _split(ops: Ops, Xp: Padded) -> Tuple[Padded, Padded]:
     half = Xp.data.shape[-1] // 2
     # I don't know how to write these ellipsis in the overloads :(
     X_l2r = Xp.data[cast(Tuple[slice, slice], (..., slice(None, half)))]
-    X_r2l = Xp.data[cast(Tuple[slice, slice], (..., slice(half)))]
+    X_r2l = Xp.data[cast(Tuple[slice, slice], (..., slice(half, None)))]
     return (
         Padded(X_l2r, Xp.size_at_t, Xp.lengths, Xp.indices),
         Padded(X_r2l, Xp.size_at_t, Xp.lengths, Xp.indices),
-- 
2.43.0


From 95ae5265bd1826578158bf12198cb5d6966f5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 14/91] fix: use the pre-activation in the gradient of Dish

---
 thinc/layers/dish.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/dish.py b/thinc/layers/dish.py
index dc871ad..6645220 100644
--- a/thinc/layers/dish.py
+++ b/thinc/layers/dish.py
@@ -47,7 +47,7 @@ def forward(
     Y = model.ops.dish(Y_preact)
 
     def backprop(dY: Floats2d) -> Floats2d:
-        dY = model.ops.backprop_dish(dY, X, inplace=False)
+        dY = model.ops.backprop_dish(dY, Y_preact, inplace=False)
         model.inc_grad("b", dY.sum(axis=0))
         model.inc_grad("W", model.ops.gemm(dY, X, trans1=True))
         return model.ops.gemm(dY, W)
-- 
2.43.0


From 287bceeafe63b2c01572773e9a6bda041621deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 15/91] fix: pass on the bias initializer in HardSigmoid,
 HardTanh and ReluK

---
 thinc/layers/clipped_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/layers/clipped_linear.py b/thinc/layers/clipped_linear.py
index efe295f..9fd2975 100644
--- a/thinc/layers/clipped_linear.py
+++ b/thinc/layers/clipped_linear.py
@@ -107,6 +107,7 @@ def HardSigmoid(
         nO=nO,
         nI=nI,
         init_W=init_W,
+        init_b=init_b,
         dropout=dropout,
         normalize=normalize,
         slope=0.2,
@@ -132,6 +133,7 @@ def HardTanh(
         nO=nO,
         nI=nI,
         init_W=init_W,
+        init_b=init_b,
         dropout=dropout,
         normalize=normalize,
         min_val=-1.0,
@@ -158,6 +160,7 @@ def ReluK(
         nO=nO,
         nI=nI,
         init_W=init_W,
+        init_b=init_b,
         dropout=dropout,
         normalize=normalize,
         min_val=0.0,
-- 
2.43.0


From 2a7c4b63322c835f29faa622c091da13efaf1a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 16/91] fix: split the gradient of with_flatten by rows

---
 thinc/layers/with_flatten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/with_flatten.py b/thinc/layers/with_flatten.py
index 9658a78..f932327 100644
--- a/thinc/layers/with_flatten.py
+++ b/thinc/layers/with_flatten.py
@@ -31,7 +31,7 @@ def forward(
         dYflat = model.ops.flatten(dYnest)  # type: ignore[arg-type, var-annotated]
         # type ignore necessary for older versions of Mypy/Pydantic
         dXflat = backprop_layer(dYflat)
-        dXnest = layer.ops.xp.split(dXflat, splits, axis=-1)
+        dXnest = layer.ops.xp.split(dXflat, splits, axis=0)
         return dXnest
 
     return Ynest, backprop
-- 
2.43.0


From 9d869abd5ac2d3983ec897cd5b78197bbc9b0b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 17/91] fix: restore the shape of the input gradient in
 with_reshape

---
 thinc/layers/with_reshape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/with_reshape.py b/thinc/layers/with_reshape.py
index b40ada7..3c02cb4 100644
--- a/thinc/layers/with_reshape.py
+++ b/thinc/layers/with_reshape.py
@@ -31,8 +31,8 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
     Y = model.ops.reshape3(Y2d, *final_shape)
 
     def backprop(dY: InT) -> InT:
-        reshaped = model.ops.reshape2(dY, nB * nT, -1)
-        return Y2d_backprop(model.ops.reshape3(reshaped, *initial_shape))
+        dY2d = model.ops.reshape2(dY, nB * nT, dY.shape[2])
+        return model.ops.reshape3(Y2d_backprop(dY2d), *initial_shape)
 
     return cast(InT, Y), backprop
 
-- 
2.43.0


From d24a6b5d8f193819a76fbeaa4d97beece323ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 18/91] fix: apply the softmax in MultiSoftmax

---
 thinc/layers/multisoftmax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/multisoftmax.py b/thinc/layers/multisoftmax.py
index d07b684..e0c1045 100644
--- a/thinc/layers/multisoftmax.py
+++ b/thinc/layers/multisoftmax.py
@@ -40,7 +40,7 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     Y += b
     i = 0
     for out_size in nOs:
-        model.ops.softmax(Y[:, i : i + out_size], inplace=True)
+        Y[:, i : i + out_size] = model.ops.softmax(Y[:, i : i + out_size])
         i += out_size
     return Y, backprop
 
-- 
2.43.0


From 156af2133a9063447aafc8202acd4be64bd17a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 19/91] fix: do not change the output gradient in Embed and
 HashEmbed

---
 thinc/layers/embed.py     | 2 +-
 thinc/layers/hashembed.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/embed.py b/thinc/layers/embed.py
index 9d8d34e..2c72efe 100644
--- a/thinc/layers/embed.py
+++ b/thinc/layers/embed.py
@@ -61,7 +61,7 @@ def forward(
 
     def backprop(d_output: OutT) -> Ints1d:
         if drop_mask is not None:
-            d_output *= drop_mask
+            d_output = d_output * drop_mask
         d_vectors = model.ops.alloc2f(*vectors.shape)
         model.ops.scatter_add(d_vectors, ids, d_output)
         model.inc_grad("E", d_vectors)
diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 7ecd9b2..22a10dc 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -79,7 +79,7 @@ def forward(
 
     def backprop(d_vectors: OutT) -> Ints1d:
         if drop_mask is not None:
-            d_vectors *= drop_mask
+            d_vectors = d_vectors * drop_mask
         dE = model.ops.alloc2f(*vectors.shape)
         keysT = model.ops.as_contig(keys.T, dtype="i")
         for i in range(keysT.shape[0]):
-- 
2.43.0


From 13a71f63a9d079b0a082e93ed5cdb60902546605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 20/91] fix: support backpropagation of empty batches in
 HashEmbed

---
 thinc/layers/hashembed.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 22a10dc..1f8fcca 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -62,15 +62,15 @@ def forward(
     vectors = cast(Floats2d, model.get_param("E"))
     nV = vectors.shape[0]
     nO = vectors.shape[1]
-    if len(ids) == 0:
+    nN = len(ids)
+    drop_mask = None
+    if nN == 0:
         output: Floats2d = model.ops.alloc2f(0, nO, dtype=vectors.dtype)
     else:
         ids = model.ops.as_contig(ids, dtype="uint64")
-        nN = ids.shape[0]
         seed: int = model.attrs["seed"]
         keys = model.ops.hash(ids, seed) % nV
         output = model.ops.gather_add(vectors, keys)
-        drop_mask = None
         if is_train:
             dropout: Optional[float] = model.attrs.get("dropout_rate")
             drop_mask = cast(Floats1d, model.ops.get_dropout_mask((nO,), dropout))
@@ -81,9 +81,10 @@ def forward(
         if drop_mask is not None:
             d_vectors = d_vectors * drop_mask
         dE = model.ops.alloc2f(*vectors.shape)
-        keysT = model.ops.as_contig(keys.T, dtype="i")
-        for i in range(keysT.shape[0]):
-            model.ops.scatter_add(dE, keysT[i], d_vectors)
+        if nN != 0:
+            keysT = model.ops.as_contig(keys.T, dtype="i")
+            for i in range(keysT.shape[0]):
+                model.ops.scatter_add(dE, keysT[i], d_vectors)
         model.inc_grad("E", dE)
         dX = model.ops.alloc1i(nN)
         return dX
-- 
2.43.0


From af5ccc794dea8fe1fc105331adb1bed80ecd6408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 21/91] fix: refuse out-of-range rows in gather_add and
 scatter_add

---
 thinc/backends/cpu_kernels.hh |  2 +-
 thinc/backends/numpy_ops.pyx  | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index 95808ee..1e6f149 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -470,7 +470,7 @@ void cpu_gather_add(typename axpy<F>::ptr axpy, F* out_bo, const F* table_to, co
      for (L b = 0; b < B; ++b) {
         for (L k = 0; k < K; ++k) {
             I idx = indices_bk[b * K + k];
-            if (idx > T) {
+            if (idx < 0 || idx >= static_cast<I>(T)) {
                 throw std::out_of_range("Embedding index out-of-bounds");
             }
             axpy(O, 1.0, table_to + idx * O, 1, out_bo + b * O, 1);
diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index bb38bae..32fa8dd 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -487,6 +487,12 @@ class NumpyOps(Ops):
         dims = table.shape[1]
 
         cdef np.ndarray output
+        if rows == 0 or dims == 0 or indices.shape[1] == 0:
+            dtype = "float32" if reals2d_ft is float2d_t else "float64"
+            return self.xp.zeros((rows, dims), dtype=dtype)
+        if table.shape[0] == 0:
+            raise IndexError("Embedding index out-of-bounds")
+
         if reals2d_ft is float2d_t:
             output = self.xp.zeros((rows, dims), dtype="float32")
             cpu_gather_add(saxpy(cblas), <float *>output.data, &table[0, 0], &indices[0, 0],
@@ -512,7 +518,7 @@ class NumpyOps(Ops):
         and values.shape[1] == table.shape[1]:
             cpu_scatter_add(self.cblas(), <float*>table.data,
                 <int*>indices.data, <float*>values.data,
-                indices.shape[0], table.shape[1])
+                indices.shape[0], table.shape[0], table.shape[1])
         else:
             self.xp.add.at(table, indices, values)
 
@@ -585,14 +591,19 @@ cdef void cpu_position_encode(float* output, float period, int N, int D) nogil:
         output += D
 
 
-cdef void cpu_scatter_add(CBlas cblas, float* dest,
+cdef int cpu_scatter_add(CBlas cblas, float* dest,
         const int* indices, const float* src,
-        int nr_id, int nr_col) nogil:
+        int nr_id, int nr_row, int nr_col) except -1 nogil:
     cdef int i
+    for i in range(nr_id):
+        if indices[i] >= nr_row:
+            with gil:
+                raise IndexError("Embedding index out-of-bounds")
     for i in range(nr_id):
         id_ = indices[i]
         if id_ >= 0:
             saxpy(cblas)(nr_col, 1., &src[i*nr_col], 1, &dest[id_*nr_col], 1)
+    return 0
 
 
 @cython.cdivision(True)
-- 
2.43.0


From 1a8212512af017e6376c2647a42d0e777d2b1a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 22/91] fix: refuse lengths that do not fit the data in
 reductions

---
 thinc/backends/cpu_kernels.hh |  2 +-
 thinc/backends/numpy_ops.pyx  | 32 +++++++++++++++++++++++++++++---
 thinc/backends/ops.py         | 18 ++++++++++++++----
 3 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index 1e6f149..9b4333b 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -189,7 +189,7 @@ void cpu_backprop_reduce_max(A* dX__to, const A* d_maxes__bo, const L* which__bo
     for (const L* length = lengths__b; length < lengths__b + B; ++length) {
         for (L i = 0; i < O; ++i) {
             L item = which__bo[i];
-            if (item >= *length) {
+            if (item < 0 || item >= *length) {
                 throw std::out_of_range(std::string("index ") + std::to_string(item) + " is out of bounds for maxout with length " + std::to_string(*length));
             }
 
diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 32fa8dd..100f21e 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -340,7 +340,8 @@ class NumpyOps(Ops):
         cdef int O = X.shape[1]
         cdef int T = X.shape[0]
 
-        if B == 0 or O == 0:
+        _check_reduce_lengths(lengths, T, 0)
+        if T == 0 or O == 0:
             if reals2d_ft is float2d_t:
                 return numpy.zeros(shape=(B, O), dtype="float32")
             else:
@@ -361,6 +362,9 @@ class NumpyOps(Ops):
         cdef int O = d_means.shape[1]
         cdef int T = 0
 
+        if d_means.shape[0] != B:
+            raise ValueError(f"expected a gradient for {B} sequences, got {d_means.shape[0]}")
+
         for length in lengths[:B]:
             if length < 0:
                 raise ValueError(f"all sequence lengths must be >= 0, got {length}")
@@ -387,7 +391,8 @@ class NumpyOps(Ops):
         cdef int O = X.shape[1]
         cdef int T = X.shape[0]
 
-        if B == 0 or O == 0:
+        _check_reduce_lengths(lengths, T, 0)
+        if T == 0 or O == 0:
             if reals2d_ft is float2d_t:
                 return numpy.zeros(shape=(B, O), dtype="float32")
             else:
@@ -408,6 +413,9 @@ class NumpyOps(Ops):
         cdef int O = d_sums.shape[1]
         cdef int T = 0
 
+        if d_sums.shape[0] != B:
+            raise ValueError(f"expected a gradient for {B} sequences, got {d_sums.shape[0]}")
+
         for length in lengths[:B]:
             if length < 0:
                 raise ValueError(f"all sequence lengths must be >= 0, got {length}")
@@ -437,7 +445,8 @@ class NumpyOps(Ops):
         # Needs to be zero-initialized as we start by assuming that the first element is the max value.
         cdef np.ndarray which = self.alloc(shape=(B, O), dtype="i", zeros=True)
 
-        if B == 0 or O == 0:
+        _check_reduce_lengths(lengths, T, 1)
+        if T == 0 or O == 0:
             if reals2d_ft is float2d_t:
                 return numpy.zeros(shape=(B, O), dtype="float32"), which
             else:
@@ -458,6 +467,11 @@ class NumpyOps(Ops):
         cdef int O = d_maxes.shape[1]
         cdef int T = 0
 
+        if d_maxes.shape[0] != B:
+            raise ValueError(f"expected a gradient for {B} sequences, got {d_maxes.shape[0]}")
+        if which.shape[0] != B or which.shape[1] != O:
+            raise ValueError("the selected rows must have the shape of the gradient")
+
         for length in lengths[:B]:
             if length <= 0:
                 raise ValueError(f"all sequence lengths must be > 0, got {length}")
@@ -563,6 +577,18 @@ class NumpyOps(Ops):
         return out_
 
 
+cdef int _check_reduce_lengths(const int[::1] lengths, int T, int min_length) except -1:
+    for i in range(lengths.shape[0]):
+        if lengths[i] < min_length:
+            raise ValueError(f"all sequence lengths must be >= {min_length}, got {lengths[i]}")
+        elif lengths[i] > T:
+            raise IndexError("lengths must sum up to the number of rows")
+        T -= lengths[i]
+    if T != 0:
+        raise IndexError("lengths must sum up to the number of rows")
+    return 0
+
+
 def check_seq2col_lengths(ops, lengths, B):
     if lengths is None:
         lengths = ops.asarray1i([B])
diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index e3fec5c..a5e1ac2 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1219,7 +1219,7 @@ class Ops:
         return -loss
 
     def reduce_sum(self, X: Floats2d, lengths: Ints1d) -> Floats2d:
-        Y = self.alloc2f(lengths.shape[0], X.shape[1], zeros=False)
+        Y = self.alloc2f(lengths.shape[0], X.shape[1], dtype=X.dtype, zeros=False)
         start = 0
         for i, length in enumerate(lengths):
             if length < 0:
@@ -1231,11 +1231,15 @@ class Ops:
                 start += length
             else:
                 Y[i] = 0.0
+        if start != X.shape[0]:
+            raise IndexError("lengths must sum up to the number of rows")
         return Y
 
     def reduce_first(self, X: Floats2d, lengths: Ints1d) -> Tuple[Floats2d, Ints1d]:
         if lengths.size == 0:
-            return self.alloc2f(0, X.shape[1]), lengths
+            if X.shape[0] != 0:
+                raise IndexError("lengths must sum up to the number of rows")
+            return self.alloc2f(0, X.shape[1], dtype=X.dtype), lengths
         if not self.xp.all(lengths > 0):
             raise ValueError(f"all sequence lengths must be > 0")
         starts_ends = self.alloc1i(lengths.shape[0] + 1, zeros=False)
@@ -1248,7 +1252,9 @@ class Ops:
 
     def reduce_last(self, X: Floats2d, lengths: Ints1d) -> Tuple[Floats2d, Ints1d]:
         if lengths.size == 0:
-            return self.alloc2f(0, X.shape[1]), lengths
+            if X.shape[0] != 0:
+                raise IndexError("lengths must sum up to the number of rows")
+            return self.alloc2f(0, X.shape[1], dtype=X.dtype), lengths
         if not self.xp.all(lengths > 0):
             raise ValueError(f"all sequence lengths must be > 0")
         lasts = lengths.cumsum() - 1
@@ -1257,7 +1263,7 @@ class Ops:
         return X[lasts], lasts
 
     def reduce_mean(self, X: Floats2d, lengths: Ints1d) -> Floats2d:
-        Y = self.alloc2f(lengths.shape[0], X.shape[1], zeros=False)
+        Y = self.alloc2f(lengths.shape[0], X.shape[1], dtype=X.dtype, zeros=False)
         start = 0
         for i, length in enumerate(lengths):
             if length < 0:
@@ -1269,6 +1275,8 @@ class Ops:
             else:
                 Y[i] = 0.0
             start += length
+        if start != X.shape[0]:
+            raise IndexError("lengths must sum up to the number of rows")
         return Y
 
     def reduce_max(self, X: Floats2d, lengths: Ints1d) -> Tuple[Floats2d, Ints2d]:
@@ -1284,6 +1292,8 @@ class Ops:
                 which[i] = X[start : start + length].argmax(axis=0)
                 Y[i] = X[start : start + length].max(axis=0)
             start += length
+        if start != X.shape[0]:
+            raise IndexError("lengths must sum up to the number of rows")
         return Y, which
 
     def backprop_reduce_first(
-- 
2.43.0


From bf0102f381ab8598e84584dbbe9488ecfe75d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 23/91] fix: support empty batches in maxout and refuse invalid
 pieces

---
 thinc/backends/cpu_kernels.hh |  2 +-
 thinc/backends/numpy_ops.pyx  | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index 9b4333b..1967b36 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -132,7 +132,7 @@ void cpu_backprop_maxout(A* dX__bop, const A* dX__bo, const L* which__bo,
 
     for (L b = 0; b < B; ++b) {
         for (L o = 0; o < O; ++o) {
-            if (*which__bo >= P) {
+            if (*which__bo < 0 || *which__bo >= P) {
                 throw std::out_of_range(std::string("index ") + std::to_string(*which__bo) + " is out of bounds for maxout with size " + std::to_string(P));
             }
 
diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 100f21e..9542cee 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -195,12 +195,12 @@ class NumpyOps(Ops):
         cdef np.ndarray which = self.alloc(shape=(B, O), dtype='int32', zeros=False)
         if reals3d_ft is float3d_t:
             best = self.alloc(shape=(B, O), dtype="float32", zeros=False)
-            if len(X) > 0:
+            if B > 0 and O > 0:
                 cpu_maxout(<float*>best.data, <int*>which.data,
                     &X[0, 0, 0], B, O, P)
         else:
             best = self.alloc(shape=(B, O), dtype="float64", zeros=False)
-            if len(X) > 0:
+            if B > 0 and O > 0:
                 cpu_maxout(<double*>best.data, <int*>which.data,
                     &X[0, 0, 0], B, O, P)
         return best, which
@@ -209,8 +209,14 @@ class NumpyOps(Ops):
         cdef int B = dY.shape[0]
         cdef int O = dY.shape[1]
 
+        if which.shape[0] != B or which.shape[1] != O:
+            raise ValueError("the selected pieces must have the shape of the gradient")
+
         cdef np.ndarray dX
-        if reals2d_ft == float2d_t:
+        if B == 0 or O == 0:
+            dtype = "float32" if reals2d_ft is float2d_t else "float64"
+            return numpy.zeros((B, O, P), dtype=dtype)
+        elif reals2d_ft == float2d_t:
             dX = numpy.zeros((B, O, P), dtype='float32')
             cpu_backprop_maxout(<float*>dX.data, <float*>&dY[0, 0], &which[0, 0], B, O, P)
         else:
-- 
2.43.0


From f7483ead562e6f53e38d49e2cf944d96335bc84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 24/91] fix: do not apply the relu and mish kernels to arrays
 that are not contiguous

---
 thinc/backends/numpy_ops.pyx | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 9542cee..cb8d743 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -128,7 +128,10 @@ class NumpyOps(Ops):
     def relu(self, np.ndarray X, inplace=False):
         cdef np.ndarray Y
 
-        if X.dtype == "float32":
+        # The kernels work on the raw data, so they need contiguous arrays.
+        if not X.flags.c_contiguous:
+            return super().relu(X, inplace=inplace)
+        elif X.dtype == "float32":
             Y = _inplace_or_copy(X, inplace)
             cpu_relu(<float *>Y.data, <int>Y.size)
             return Y
@@ -146,7 +149,9 @@ class NumpyOps(Ops):
         cdef float* dX_ptr
         cdef const float* Y_ptr = <const float*>Y.data
         cdef np.ndarray dX
-        if dY.dtype == "float32" and Y.dtype == "float32":
+        if not (dY.flags.c_contiguous and Y.flags.c_contiguous):
+            return super().backprop_relu(dY, Y, inplace)
+        elif dY.dtype == "float32" and Y.dtype == "float32":
             dX = _inplace_or_copy(dY, inplace)
             dX_ptr = <float*>dX.data
             for i in range(size):
@@ -228,7 +233,9 @@ class NumpyOps(Ops):
     def mish(self, np.ndarray X, threshold=20.0, inplace: bool = False):
         cdef np.ndarray Y
 
-        if X.dtype == "float32":
+        if not X.flags.c_contiguous:
+            return super().mish(X, threshold, inplace)
+        elif X.dtype == "float32":
             Y = _inplace_or_copy(X, inplace)
             cpu_mish(<float *>Y.data, <int>Y.size, <float>threshold)
             return Y
@@ -237,14 +244,16 @@ class NumpyOps(Ops):
             cpu_mish(<double *>Y.data, <int>Y.size, <double>threshold)
             return Y
         else:
-            return super().mish(X, inplace=inplace)
+            return super().mish(X, threshold, inplace)
 
     def backprop_mish(self, np.ndarray dY, np.ndarray X, threshold=20.0, inplace=False):
         _check_compatible_shape(dY, X)
 
         cdef np.ndarray dX
 
-        if dY.dtype == "float32" and X.dtype == "float32":
+        if not (dY.flags.c_contiguous and X.flags.c_contiguous):
+            return super().backprop_mish(dY, X, threshold, inplace)
+        elif dY.dtype == "float32" and X.dtype == "float32":
             dX = _inplace_or_copy(dY, inplace)
             cpu_backprop_mish(<float*>dX.data, <float*>X.data, <int>X.size, <float>threshold)
             return dX
-- 
2.43.0


From 135a04aeb3b77881f5cf3cbb63e1ce0f29e214f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 25/91] fix: support empty arrays in ngrams

---
 thinc/backends/numpy_ops.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index cb8d743..a42f1a7 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -572,8 +572,10 @@ class NumpyOps(Ops):
     def ngrams(self, int n, const uint64_t[::1] keys):
         if n < 1:
             return self.alloc((0,), dtype="uint64")
-        keys_ = <uint64_t*>&keys[0]
         length = max(0, keys.shape[0]-(n-1))
+        if length == 0:
+            return self.alloc((0,), dtype="uint64")
+        keys_ = <uint64_t*>&keys[0]
         cdef np.ndarray output_ = self.alloc((length,), dtype="uint64")
         output = <uint64_t*>output_.data
         for i in range(keys.shape[0]-(n-1)):
-- 
2.43.0


From cb47c557c88597e0cf2dbe7d8331b5014af148db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 26/91] fix: select the batch items, and keep the batch sizes,
 when indexing Padded

---
 thinc/types.py | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index 9a9487c..0598079 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1132,32 +1132,22 @@ class Padded:
         return self.lengths.shape[0]
 
     def __getitem__(self, index: Union[int, slice, Ints1d]) -> "Padded":
-        if isinstance(index, int):
-            # Slice to keep the dimensionality
-            return Padded(
-                self.data[:, index : index + 1],
-                self.lengths[index : index + 1],
-                self.lengths[index : index + 1],
-                self.indices[index : index + 1],
-            )
-        elif isinstance(index, slice):
-            return Padded(
-                self.data[:, index],
-                self.lengths[index],
-                self.lengths[index],
-                self.indices[index],
-            )
-        else:
-            # If we get a sequence of indices, we need to be careful that
-            # we maintain the length-sorting, while also keeping the mapping
-            # back to the original order correct.
-            sorted_index = list(sorted(index))
-            return Padded(
-                self.data[sorted_index],
-                self.size_at_t[sorted_index],
-                self.lengths[sorted_index],
-                self.indices[index],  # Use original, to maintain order.
-            )
+        xp = get_array_module(self.lengths)
+        if isinstance(index, tuple):
+            index = list(index)
+        if isinstance(index, list) and not index:
+            index = slice(0, 0)
+        # We need to be careful that we maintain the length-sorting, while also
+        # keeping the mapping back to the original order correct.
+        columns = xp.sort(xp.arange(len(self))[index].reshape(-1))
+        lengths = self.lengths[columns]
+        steps = xp.arange(self.data.shape[0]).reshape((-1, 1))
+        return Padded(
+            self.data[:, columns],
+            (steps < lengths).sum(axis=1).astype(self.size_at_t.dtype),
+            lengths,
+            self.indices[columns],
+        )
 
 
 @dataclass
-- 
2.43.0


From b264fce804836635d542c33892475efa1f334dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 27/91] fix: index Ragged like its list of sequences, keeping
 lengths and shapes

---
 thinc/types.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index 0598079..b9e249f 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1169,10 +1169,10 @@ class Ragged:
     def __init__(self, data: _Array, lengths: Ints1d):
         self.lengths = lengths
         # Frustratingly, the -1 dimension doesn't work with 0 size...
-        if data.size:
-            self.data = cast(Array2d, data.reshape((data.shape[0], -1)))
-        else:
-            self.data = cast(Array2d, data.reshape((0, 0)))
+        width = 1
+        for dim in data.shape[1:]:
+            width *= dim
+        self.data = cast(Array2d, data.reshape((data.shape[0], width)))
         self.data_shape = (-1,) + data.shape[1:]
 
     @property
@@ -1191,22 +1191,22 @@ class Ragged:
             raise IndexError("Ragged arrays do not support 2d indexing.")
         starts = self._get_starts()
         ends = self._get_ends()
-        if isinstance(index, int):
-            s = starts[index]
-            e = ends[index]
-            return Ragged(self.data[s:e], self.lengths[index : index + 1])
-        elif isinstance(index, slice):
-            lengths = self.lengths[index]
-            if len(lengths) == 0:
-                return Ragged(self.data[0:0].reshape(self.data_shape), lengths)
-            start = starts[index][0] if index.start >= 1 else 0
-            end = ends[index][-1]
-            return Ragged(self.data[start:end].reshape(self.data_shape), lengths)
+        data = self.dataXd
+        if isinstance(index, (int, numpy.integer)):
+            return Ragged(
+                data[starts[index] : ends[index]], self.lengths[index].reshape((1,))
+            )
+        elif isinstance(index, list) and not index:
+            index = slice(0, 0)
+        lengths = self.lengths[index]
+        if len(lengths) == 0:
+            return Ragged(data[0:0], lengths)
+        elif isinstance(index, slice) and index.step in (None, 1):
+            return Ragged(data[starts[index][0] : ends[index][-1]], lengths)
         else:
-            # There must be a way to do this "properly" :(. Sigh, hate numpy.
-            xp = get_array_module(self.data)
-            data = xp.vstack([self[int(i)].data for i in index])
-            return Ragged(data.reshape(self.data_shape), self.lengths[index])
+            xp = get_array_module(data)
+            items = [data[s:e] for s, e in zip(starts[index], ends[index])]
+            return Ragged(xp.concatenate(items, axis=0), lengths)
 
     def _get_starts_ends(self) -> Ints1d:
         if self.starts_ends is None:
-- 
2.43.0


From ce07864b83d5ff307a274469bb6da7711ed7cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 28/91] fix: do not swap the initial hidden and cell states of
 the LSTM

---
 thinc/backends/numpy_ops.pyx | 2 +-
 thinc/backends/ops.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index a42f1a7..f5fffbd 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -688,7 +688,7 @@ cdef void _adam_momentum(CBlas cblas, float* gradient, float* mom1, float* mom2,
 
 
 def lstm_forward_training(CBlas cblas,
-    np.ndarray params, np.ndarray c_init, np.ndarray h_init,
+    np.ndarray params, np.ndarray h_init, np.ndarray c_init,
     np.ndarray X, np.ndarray lengths
 ):
     xp = numpy
diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index a5e1ac2..1136208 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1440,7 +1440,7 @@ have the initial hiddens and initial cells. So:
 
 
 def lstm_forward_training(
-    params: Floats1d, c_init: Floats3d, h_init: Floats3d, X: Floats2d, lengths: Ints1d
+    params: Floats1d, h_init: Floats3d, c_init: Floats3d, X: Floats2d, lengths: Ints1d
 ) -> Tuple[Floats2d, Tuple]:
     xp = get_array_module(params)
     depth, dirs, nO = c_init.shape
-- 
2.43.0


From 4b4e1cc96841ee5fcbb21d2055184c221dee788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 29/91] fix: process all steps of shorter sequences in the
 generic right-to-left LSTM

---
 thinc/backends/ops.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 1136208..3f0510b 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1465,44 +1465,38 @@ def lstm_forward_training(
         for d in range(dirs):
             # The inits are shaped (depth, dirs, nO). We add the internal dimension
             # to make them set correctly.
-            Yt2 = h_init[i, d].reshape((1, nO))  # type: ignore[assignment]
-            Ct2 = c_init[i, d].reshape((1, nO))  # type: ignore[assignment]
+            Yt2[:] = h_init[i, d].reshape((1, nO))
+            Ct2[:] = c_init[i, d].reshape((1, nO))
             layer_params, params_i = _split_weights(params, i, nO, nI, params_i)
             Wx, Wh, bias = _transpose_weights(layer_params)
             G[i, d] += xp.dot(X, Wx.T)
             G[i, d] += bias
             for start, end in indices if d == 0 else reversed(indices):
-                # When we iterate left-to-right, t2 might be longer than t3.
-                Yt2 = Yt2[: end - start]
-                Ct2 = Ct2[: end - start]
-                # But in right-to-left, it's the opposite: t3 can be longer.
+                size = end - start
                 Gt3 = G[i, d, start:end]
-                Gt3 = Gt3[: Yt2.shape[0]]
-                Gt3 += xp.dot(Yt2, Wh.T)
+                Gt3 += xp.dot(Yt2[:size], Wh.T)
                 Gt3_ = cast(Floats3d, Gt3.reshape((-1, nO, 4)))
                 hf = sigmoid(Gt3_[:, :, 0])
                 hi = sigmoid(Gt3_[:, :, 1])
                 ho = sigmoid(Gt3_[:, :, 2])
                 hc = xp.tanh(Gt3_[:, :, 3])
-                Ct3 = hf * Ct2
+                Ct3 = hf * Ct2[:size]
                 Ct3 += hi * hc
                 # Store results
                 Gt3 = (
                     xp.hstack((hf, hi, ho, hc))
-                    .reshape((-1, 4, nO))
+                    .reshape((size, 4, nO))
                     .transpose((0, 2, 1))
-                    .reshape((-1, nO * 4))
+                    .reshape((size, nO * 4))
                 )
-                # Fix the endpoint to account for shorter slices when iterating
-                # reversed. Not 100% sure this is right. If there's a bug, look
-                # here?
-                end = min(end, start + ho.shape[0])
                 Y[i, d, start:end] = xp.tanh(Ct3) * ho
                 G[i, d, start:end] = Gt3
                 C[i, d, start:end] = Ct3
-                # Set the t2 variables to the current t3 variables.
-                Ct2 = Ct3
-                Yt2 = Y[i, d, start:end]
+                # Set the t2 variables to the current t3 variables. The rows of
+                # sequences that have not started yet (when we iterate
+                # right-to-left) keep the initial values.
+                Ct2[:size] = Ct3
+                Yt2[:size] = Y[i, d, start:end]
         H = cast(Floats2d, Y[i].transpose((1, 0, 2)).reshape((N, -1)))
         if dirs == 2:
             H = xp.ascontiguousarray(H)
-- 
2.43.0


From b74ab48e7569677e554c978ce7409cda3442433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 30/91] fix: compute the true gradient in the LSTM

---
 thinc/backends/numpy_ops.pyx | 74 +++++++++++++++++++--------------
 thinc/backends/ops.py        | 79 ++++++++++++++++++++++--------------
 2 files changed, 92 insertions(+), 61 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index f5fffbd..eab0b0f 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -22,7 +22,13 @@ from ..util import copy_array, get_array_module
 from .cblas cimport CBlas, daxpy, dgemm, saxpy, sgemm, sscal
 
 from ..compat import has_blis
-from .ops import Ops, _split_weights, _transpose_weights, _untranspose_unsplit_weights
+from .ops import (
+    Ops,
+    _get_lstm_previous,
+    _split_weights,
+    _transpose_weights,
+    _untranspose_unsplit_weights,
+)
 
 
 cdef extern from "math.h":
@@ -746,7 +752,7 @@ def lstm_forward_training(CBlas cblas,
         if dirs == 2:
             H = xp.ascontiguousarray(H)
         X = H
-    return H, (Y, G, C, orig_X)
+    return H, (Y, G, C, orig_X, h_init, c_init)
 
 
 cdef int _lstm_forward_training(
@@ -830,16 +836,18 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
     cdef np.ndarray Wx, Wh, bias
     cdef np.ndarray dWx, dWh, d_bias
     cdef np.ndarray dYid
-    Y, G, C, X = fwd_state
+    cdef np.ndarray Y_prev, C_prev, dC_prev
+    Y, G, C, X, h_init, c_init = fwd_state
     cdef int depth = C.shape[0]
     cdef int dirs = C.shape[1]
     cdef int N = C.shape[2]
     cdef int nO = C.shape[3]
     cdef int nI = X.shape[1]
-    cdef int batch_size = lengths[0]
+    cdef int batch_size
     cdef int nT = lengths.shape[0]
     # We don't need to store all the cells for all the layers.
     cdef np.ndarray dC = xp.zeros((N, nO), dtype=C.dtype)
+    dC_prev = xp.zeros((N, nO), dtype=C.dtype)
     cdef np.ndarray dG = xp.zeros((N, nO*4), dtype=C.dtype)
     cdef np.ndarray d_params = xp.zeros((params.shape[0],), dtype=params.dtype)
     # Collect the params and slices. It makes it a bit easier to get the indexing
@@ -859,7 +867,7 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
         all_layer_grads.append([])
         n_inputs = nI if i == 0 else (nO * dirs)
         for d in range(dirs):
-            layer_grads, params_i = _split_weights(params, i, nO, n_inputs, params_i)
+            layer_grads, params_i = _split_weights(d_params, i, nO, n_inputs, params_i)
             layer_grads = _transpose_weights(layer_grads)
             all_layer_grads[-1].append((layer_grads, params_i))
     # Similarly, we want to compute the indices first
@@ -874,11 +882,10 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
     dXs = [xp.zeros((X.shape[0], X.shape[1]), dtype=X.dtype) for X in Xs]
     # Okay, now do the actual looping
     for i in reversed(range(depth)):
-        dY = dY.reshape((N, dirs, nO)).transpose((1, 0, 2))
+        # This needs to be a copy, because we add the hidden-to-hidden gradients.
+        dY = numpy.array(dY.reshape((N, dirs, nO)).transpose((1, 0, 2)), order="C")
         dX = dXs[i]
-        X = Xs[i]
-        if dirs >= 2:
-            dY = numpy.ascontiguousarray(dY)
+        X = numpy.ascontiguousarray(Xs[i])
         for d in range(dirs):
             Wx, Wh, bias = all_layer_params[i][d][0]
             dWx, dWh, d_bias = all_layer_grads[i][d][0]
@@ -888,9 +895,13 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
             dG.fill(0.)
             Cid = C[i, d]
             Gid = G[i, d]
-            Yid = Y[i, d]
+            Y_prev = _get_lstm_previous(
+                Y[i, d], h_init[i, d], [(s, s+n) for s, n in indices], d
+            )
+            C_prev = _get_lstm_previous(
+                C[i, d], c_init[i, d], [(s, s+n) for s, n in indices], d
+            )
             assert (Cid.shape[0], Cid.shape[1]) == (N, nO)
-            assert (Yid.shape[0], Yid.shape[1]) == (N, nO)
             assert (Gid.shape[0], Gid.shape[1]) == (N, nO*4)
             assert (dYid.shape[0], dYid.shape[1]) == (N, nO)
             assert (dC.shape[0], dC.shape[1]) == (N, nO)
@@ -899,13 +910,15 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
                 <float*>dX.data,
                 <float*>dYid.data,
                 <float*>dC.data,
+                <float*>dC_prev.data,
                 <float*>dG.data,
                 <float*>dWx.data,
                 <float*>dWh.data,
                 <float*>d_bias.data,
                 <float*>Cid.data,
+                <float*>C_prev.data,
                 <float*>Gid.data,
-                <float*>Yid.data,
+                <float*>Y_prev.data,
                 <float*>X.data,
                 <float*>Wx.data,
                 <float*>Wh.data,
@@ -926,13 +939,15 @@ cdef int _lstm_backward_training(
     float* dX,
     float* dY,
     float* dC,
+    float* dC_prev,
     float* dG,
     float* dWx,
     float* dWh,
     float* d_bias,
     const float* C,
+    const float* C_prev,
     const float* G,
-    const float* Y,
+    const float* Y_prev,
     const float* X,
     const float* Wx,
     const float* Wh,
@@ -941,29 +956,30 @@ cdef int _lstm_backward_training(
     cdef int seq_t2
     cdef int seq_t3
     cdef double one = 1.0
+    # Go through the steps in the opposite order of the forward pass. t2 is the
+    # step that was computed before t3.
     if d == 0:
-        seq_t3, size_t3 = indices[-1]
-        indices = indices[:-1]
         indices.reverse()
-    else:
-        seq_t3, size_t3 = indices[0]
-        indices = indices[1:]
-    cdef int batch_size
-    for seq_t2, size_t2 in indices:
+    cdef int batch_size, step
+    for step in range(nT):
+        seq_t3, size_t3 = indices[step]
         dGt3 = &dG[seq_t3*nO*4]
-        dXt3 = &dX[seq_t3*nI]
         dYt3 = &dY[seq_t3*nO]
         dCt3 = &dC[seq_t3*nO]
-        dYt2 = &dY[seq_t2*nO]
-        dCt2 = &dC[seq_t2*nO]
         Ct3 = &C[seq_t3*nO]
         Gt3 = &G[seq_t3*nO*4]
-        Ct2 = &C[seq_t2*nO]
-
-        batch_size = min(size_t2, size_t3)
+        Ct2 = &C_prev[seq_t3*nO]
+        dCt2 = &dC_prev[seq_t3*nO]
+        batch_size = size_t3
         cpu_lstm_gates_bwd(dGt3, dCt2,
             dYt3, dCt3, Gt3, Ct3, Ct2, batch_size * nO
         )
+        if step + 1 == nT:
+            break
+        seq_t2, size_t2 = indices[step + 1]
+        dYt2 = &dY[seq_t2*nO]
+        batch_size = min(size_t2, size_t3)
+        memcpy(&dC[seq_t2*nO], dCt2, sizeof(dC[0]) * batch_size * nO)
         # Backprop hidden-to-hidden w.r.t. hidden.
         #     dYt2 += dGt3 @ Wh
         sgemm(cblas)(False, False,
@@ -974,8 +990,6 @@ cdef int _lstm_backward_training(
             one,
             dYt2, nO
         )
-        seq_t3 = seq_t2
-        size_t3 = size_t2
 
     # Backprop input-to-hidden w.r.t. weights.
     #     dWx += dG @ X
@@ -988,12 +1002,12 @@ cdef int _lstm_backward_training(
         dWx, nI
     )
     # Backprop hidden-to-hidden w.r.t weights.
-    #     dWh += dG @ Y
+    #     dWh += dG @ Y_prev
     sgemm(cblas)(True, False,
         nO*4, nO, N,
         one,
         <float*>dG, nO*4,
-        <float*>Y, nO,
+        <float*>Y_prev, nO,
         one,
         dWh, nO
     )
diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 3f0510b..7288361 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1501,7 +1501,22 @@ def lstm_forward_training(
         if dirs == 2:
             H = xp.ascontiguousarray(H)
         X = H
-    return H, (Y, G, C, orig_X)
+    return H, (Y, G, C, orig_X, h_init, c_init)
+
+
+def _get_lstm_previous(
+    states: Floats2d, init: Floats1d, indices: List[Tuple[int, int]], d: int
+) -> Floats2d:
+    """Get the state (hiddens or cells) that was the input of each step: the one
+    of the same sequence at the step that was computed before it, or the initial
+    state. The indices are the (start, end) rows of each step."""
+    previous = get_array_module(states).zeros(states.shape, dtype=states.dtype)
+    previous[:] = init
+    steps = indices if d == 0 else indices[::-1]
+    for (start_t2, end_t2), (start_t3, end_t3) in zip(steps, steps[1:]):
+        size = min(end_t2 - start_t2, end_t3 - start_t3)
+        previous[start_t3 : start_t3 + size] = states[start_t2 : start_t2 + size]
+    return previous
 
 
 def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tuple):
@@ -1517,10 +1532,9 @@ def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tu
     dWx: Floats2d
     dWh: Floats2d
     d_bias: Floats1d
-    Y, G, C, X = fwd_state
+    Y, G, C, X, h_init, c_init = fwd_state
     depth, dirs, N, nO = C.shape
     nI = X.shape[1]
-    batch_size = lengths[0]
     # We don't need to store all the cells for all the layers.
     dC = cast(Floats2d, xp.zeros((N, nO), dtype=C.dtype))
     dG = cast(Floats2d, xp.zeros((N, nO * 4), dtype=C.dtype))
@@ -1559,40 +1573,40 @@ def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tu
     dXs = [xp.zeros((X.shape[0], X.shape[1]), dtype=X.dtype) for X in Xs]
     # Okay, now do the actual looping
     for i in reversed(range(depth)):
-        dY3d = cast(Floats3d, dY.reshape((N, dirs, nO)).transpose((1, 0, 2)))
+        # This needs to be a copy, because we add the hidden-to-hidden gradients.
+        dY3d = cast(
+            Floats3d, xp.array(dY.reshape((N, dirs, nO)).transpose((1, 0, 2)))
+        )
         dX = dXs[i]
         X = Xs[i]
-        if dirs >= 2:
-            dY3d = xp.ascontiguousarray(dY3d)
         for d in range(dirs):
             Wx, Wh, bias = all_layer_params[i][d][0]
             dWx, dWh, d_bias = all_layer_grads[i][d][0]
-            if d == 0:
-                start_t3, end_t3 = indices[-1]
-                layer_indices = indices[:-1]
-                layer_indices.reverse()
-            else:
-                start_t3, end_t3 = indices[0]
-                layer_indices = indices[1:]
-            for start_t2, end_t2 in layer_indices:
-                size = min(end_t2 - start_t2, end_t3 - start_t3)
+            Y_prev = _get_lstm_previous(Y[i, d], h_init[i, d], indices, d)
+            C_prev = _get_lstm_previous(C[i, d], c_init[i, d], indices, d)
+            dC.fill(0.0)
+            # Go through the steps in the opposite order of the forward pass. t2
+            # is the step that was computed before t3.
+            layer_indices = indices[::-1] if d == 0 else indices
+            for step, (start_t3, end_t3) in enumerate(layer_indices):
                 dGt3, dCt2 = backprop_lstm_gates(
-                    dY3d[d, start_t3 : start_t3 + size],
-                    dC[start_t3 : start_t3 + size],
-                    G[i, d, start_t3 : start_t3 + size],
-                    C[i, d, start_t3 : start_t3 + size],
-                    C[i, d, start_t2 : start_t2 + size],
+                    dY3d[d, start_t3:end_t3],
+                    dC[start_t3:end_t3],
+                    G[i, d, start_t3:end_t3],
+                    C[i, d, start_t3:end_t3],
+                    C_prev[start_t3:end_t3],
                 )
-                # Backprop hidden-to-hidden w.r.t. hidden.
-                dY3d[d, start_t2 : start_t2 + size] += dGt3 @ Wh
-                # Update iteration variables
-                dC[start_t2 : start_t2 + size] = dCt2
-                start_t3 = start_t2
-                end_t3 = end_t2
+                dG[start_t3:end_t3] = dGt3
+                if step + 1 < len(layer_indices):
+                    start_t2, end_t2 = layer_indices[step + 1]
+                    size = min(end_t2 - start_t2, end_t3 - start_t3)
+                    # Backprop hidden-to-hidden w.r.t. hidden.
+                    dY3d[d, start_t2 : start_t2 + size] += dGt3[:size] @ Wh
+                    dC[start_t2 : start_t2 + size] = dCt2[:size]
             # Backprop input-to-hidden w.r.t. weights.
             dWx += dG.T @ X
             # Backprop hidden-to-hidden w.r.t. weights.
-            dWh += dG.T @ Y[i, d]
+            dWh += dG.T @ Y_prev
             # Backprop bias
             d_bias += dG.sum(axis=0)
             # Backprop input-to-hidden w.r.t. input
@@ -1657,7 +1671,10 @@ def backprop_lstm_gates(
 ) -> Tuple[Floats2d, Floats2d]:
     # See above for notation. Step numbering refers to forward_lstm_gates
     xp = get_array_module(dYt3)
-    hf, hi, ho, hc = xp.split(Gt3, 4, axis=-1)
+    # The gates are the last dimension, see _transpose_weights.
+    nB, nO = Ct3.shape
+    gates = Gt3.reshape((nB, nO, 4))
+    hf, hi, ho, hc = (gates[:, :, i] for i in range(4))
     assert hf.shape[0] == hi.shape[0] == ho.shape[0] == hc.shape[0]
     assert hf.shape[0] == dYt3.shape[0] == dCt3.shape[0] == Ct3.shape[0] == Ct2.shape[0]
     tanhCt3 = xp.tanh(Ct3)
@@ -1665,7 +1682,7 @@ def backprop_lstm_gates(
     d_ho = dYt3 * tanhCt3
     d_tanhCt3 = dYt3 * ho
     # 3a: tanhCt3 = tanh(Ct3)
-    dCt3 += d_tanhCt3 * dtanh(tanhCt3)
+    dCt3 = dCt3 + d_tanhCt3 * dtanh(tanhCt3)
     # 2b: Ct3 += hi * hc
     d_hi = dCt3 * hc
     d_hc = dCt3 * hi
@@ -1676,8 +1693,8 @@ def backprop_lstm_gates(
     d_At3_ho = d_ho * dsigmoid(ho)  # 1c
     d_At3_hi = d_hi * dsigmoid(hi)  # 1b
     d_At3_hf = d_hf * dsigmoid(hf)  # 1a
-    dAt3 = xp.concatenate((d_At3_hf, d_At3_hi, d_At3_ho, d_At3_hc), axis=-1)
-    return dAt3, dCt2
+    dAt3 = xp.stack((d_At3_hf, d_At3_hi, d_At3_ho, d_At3_hc), axis=-1)
+    return dAt3.reshape((nB, nO * 4)), dCt2
 
 
 def sigmoid(X, out=None):
-- 
2.43.0


From 2e9eb1ecbfd1a8e989c9e6ab7c5ffdbac3e6d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:37 +0000
Subject: [PATCH 31/91] fix: support batches without any steps in the LSTM

---
 thinc/layers/lstm.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/thinc/layers/lstm.py b/thinc/layers/lstm.py
index c817cd4..487ea11 100644
--- a/thinc/layers/lstm.py
+++ b/thinc/layers/lstm.py
@@ -120,6 +120,11 @@ def forward(
 ) -> Tuple[Padded, Callable]:
     dropout = model.attrs["dropout_rate"]
     Xr = _padded_to_packed(model.ops, Xp)
+    if Xr.data.shape[0] == 0:
+        # There are no steps, e.g. because the batch is empty.
+        return _empty_padded(model.ops, Xp, model.get_dim("nO")), lambda dYp: (
+            _empty_padded(model.ops, dYp, Xp.data.shape[2])
+        )
     LSTM = cast(Floats1d, model.get_param("LSTM"))
     HC0 = cast(Floats4d, model.get_param("HC0"))
     H0 = HC0[0]
@@ -171,6 +176,13 @@ def _padded_to_packed(ops: Ops, Xp: Padded) -> Ragged:
     return Ragged(Y, Xp.size_at_t)
 
 
+def _empty_padded(ops: Ops, Xp: Padded, width: int) -> Padded:
+    data = ops.alloc3f(Xp.data.shape[0], Xp.data.shape[1], width)
+    return Padded(
+        data, size_at_t=Xp.size_at_t, lengths=Xp.lengths, indices=Xp.indices
+    )
+
+
 def _packed_to_padded(ops: Ops, Xr: Ragged, Xp: Padded) -> Padded:
     Y = ops.alloc3f(Xp.data.shape[0], Xp.data.shape[1], Xr.data.shape[1])
     X = cast(Floats2d, Xr.data)
-- 
2.43.0


From b129207e7ec1b9be2f31465acfaf1137735981d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 32/91] fix: keep the data type in the generic seq2col

---
 thinc/backends/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 7288361..9a6f6dd 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -204,7 +204,7 @@ class Ops:
         assert lengths == None
         B = seq.shape[0]
         I = seq.shape[1]
-        cols = self.alloc3f(B, (nW * 2 + 1), I)
+        cols = self.alloc3f(B, (nW * 2 + 1), I, dtype=seq.dtype)
         # Copy left contexts. The last words aren't the left-context for anything.
         cols[nW:, :nW] = self.reshape3f(seq[:-nW], -1, nW, I)
         cols[:, nW] = seq
@@ -225,7 +225,7 @@ class Ops:
         B = dY.shape[0]
         I = dY.shape[1] // nF
         # Having trouble getting the kernel to work...
-        dX = self.alloc2f(B, I)
+        dX = self.alloc2f(B, I, dtype=dY.dtype)
         dY3d = self.reshape3f(dY, B, nF, I)
         dX[:-nW] += self.reshape2f(dY3d[nW:, :nW], -1, I)
         dX += dY3d[:, nW]
-- 
2.43.0


From 08cc9fe4e7a50b8f21a5e4d5376ae26c159356c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 33/91] fix: refuse gemm outputs of the wrong shape instead of
 writing outside of them

---
 thinc/backends/numpy_ops.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index eab0b0f..7cd6faa 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -104,6 +104,8 @@ class NumpyOps(Ops):
             raise ValueError(msg % (nM, nK, nK_b, nN))
 
         if out is not None:
+            if out.ndim != 2 or out.shape[0] != nM or out.shape[1] != nN:
+                raise ValueError(f"Provided 'out' array should have shape {(nM, nN)}, but found {(<object>out).shape}.")
             out = self.as_contig(out)
         else:
             # Can be uninitialized as 'beta' is zero.
-- 
2.43.0


From 9b94160cf660a5f5da5342535a06d7288193ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 34/91] fix: do not apply the Adam kernel to arrays that are
 not contiguous

---
 thinc/backends/numpy_ops.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 7cd6faa..3129680 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -569,6 +569,12 @@ class NumpyOps(Ops):
         _check_compatible_shape(weights, mom1)
         _check_compatible_shape(weights, mom2)
 
+        # The kernel works on the raw data, so it needs contiguous arrays.
+        if not (weights.flags.c_contiguous and gradient.flags.c_contiguous
+                and mom1.flags.c_contiguous and mom2.flags.c_contiguous):
+            return super().adam(weights, gradient, mom1, mom2, beta1, beta2, eps,
+                                learn_rate, mod_rate)
+
         cdef CBlas cblas = self.cblas()
         _adam_momentum(cblas, <float*>gradient.data, <float*>mom1.data, <float*>mom2.data,
             weights.shape[0], beta1, beta2, eps, learn_rate)
-- 
2.43.0


From 9c44b406d044a4a26ae1207969088de34db87e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:00 +0000
Subject: [PATCH 35/91] fix: keep the data type and the rows when flattening
 sequences without data

---
 thinc/backends/ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 9a6f6dd..26646c7 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -327,10 +327,11 @@ class Ops:
         if X is None or len(X) == 0:
             return self.alloc((0,) * ndim_if_empty, dtype=dtype or "f")
         xp = get_array_module(X[0])
-        shape_if_empty = X[0].shape
+        shape_if_empty = (sum(len(x) for x in X),) + X[0].shape[1:]
+        dtype_if_empty = X[0].dtype
         X = [x for x in X if x.size != 0]
         if len(X) == 0:
-            return self.alloc(shape_if_empty, dtype=dtype or "f")
+            return self.alloc(shape_if_empty, dtype=dtype or dtype_if_empty)
         if int(pad) >= 1:
             padded = []
             for x in X:
-- 
2.43.0


From f41e09377c3dc289e5f3843c405fa8b9f0bbece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 36/91] fix: select columns of empty arrays and add up
 gradients of repeated indices in array_getitem

---
 thinc/layers/array_getitem.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/array_getitem.py b/thinc/layers/array_getitem.py
index 219b4ea..369f981 100644
--- a/thinc/layers/array_getitem.py
+++ b/thinc/layers/array_getitem.py
@@ -42,10 +42,18 @@ def forward(model, X, is_train):
 
     def backprop_get_column(dY):
         dX = model.ops.alloc(shape, dtype=dtype)
-        dX[index] = dY
+        if dX.dtype.kind == "f":
+            # The index can select an element several times.
+            model.ops.xp.add.at(dX, index, dY)
+        else:
+            dX[index] = dY
         return dX
 
-    if len(X) == 0:
-        return X, backprop_get_column
-    Y = X[index]
+    try:
+        Y = X[index]
+    except IndexError:
+        if len(X) != 0:
+            raise
+        # An empty array of another rank: there is nothing to select.
+        return X, lambda dY: model.ops.alloc(shape, dtype=dtype)
     return Y, backprop_get_column
-- 
2.43.0


From fb36b745c8358624b630aeeabcb0eb129d24b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 37/91] fix: initialize add when its first layer has no output
 dimension

---
 thinc/layers/add.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index d5e1794..52f7eaf 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -65,4 +65,7 @@ def init(
                 layer.set_dim("nO", get_width(Y))
     for layer in model.layers:
         layer.initialize(X=X, Y=Y)
-    model.set_dim("nO", model.layers[0].get_dim("nO"))
+    for layer in model.layers:
+        if layer.has_dim("nO"):
+            model.set_dim("nO", layer.get_dim("nO"))
+            break
-- 
2.43.0


From 3998b0180af05f191996e9c7a0b8b3ce301e4c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 38/91] fix: check the data types and lengths, and support
 empty batches, in SparseLinear

---
 thinc/layers/sparselinear.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/thinc/layers/sparselinear.pyx b/thinc/layers/sparselinear.pyx
index 84c1733..607642b 100644
--- a/thinc/layers/sparselinear.pyx
+++ b/thinc/layers/sparselinear.pyx
@@ -86,6 +86,11 @@ def _begin_cpu_update(model, np.ndarray keys, np.ndarray values, np.ndarray leng
     cdef np.ndarray b = model.get_param("b")
     cdef np.ndarray scores = model.ops.alloc((len(lengths), nO))
     cdef bint v1_indexing = model.attrs["v1_indexing"]
+    keys = model.ops.as_contig(keys, dtype="uint64")
+    values = model.ops.as_contig(values, dtype="float32")
+    lengths = model.ops.as_contig(lengths, dtype="int32")
+    if (lengths < 0).any() or lengths.sum() > min(len(keys), len(values)):
+        raise ValueError("The lengths exceed the number of keys or values")
     scores += b
     set_scoresC(<float*>scores.data,
         <uint64_t*>keys.data, <float*>values.data, <int32_t*>lengths.data,
@@ -112,6 +117,12 @@ class _finish_linear_update:
         cdef np.ndarray values = self.values
         cdef np.ndarray lengths = self.lengths
         cdef bint v1_indexing = self.model.attrs["v1_indexing"]
+        if d_scores.shape[0] != len(lengths) or d_scores.shape[1] != nO:
+            raise ValueError("The gradient must have the shape of the scores")
+        if d_scores.shape[0] == 0:
+            self.model.inc_grad("W", d_weights)
+            self.model.inc_grad("b", d_bias)
+            return (self.keys, self.values, self.lengths)
         set_gradientC(<float*>d_weights.data,
             <uint64_t*>keys.data, <float*>values.data, <int32_t*>lengths.data,
             lengths.shape[0], nO, &d_scores[0,0], length, v1_indexing)
-- 
2.43.0


From f6d16dbe12e0fa45917b834cbf0c8a8bf88c5640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 39/91] fix: keep lists, and empty batches, in with_flatten

---
 thinc/layers/with_flatten.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/thinc/layers/with_flatten.py b/thinc/layers/with_flatten.py
index f932327..c857efc 100644
--- a/thinc/layers/with_flatten.py
+++ b/thinc/layers/with_flatten.py
@@ -22,17 +22,14 @@ def forward(
     layer: Model[InnerInT, InnerOutT] = model.layers[0]
     Xflat = _flatten(Xnest)
     Yflat, backprop_layer = layer(Xflat, is_train)
-    # Get the split points. We want n-1 splits for n items.
-    arr = layer.ops.asarray1i([len(x) for x in Xnest[:-1]])
-    splits = arr.cumsum()
-    Ynest = layer.ops.xp.split(Yflat, splits, axis=0)
+    lengths = [len(x) for x in Xnest]
+    Ynest = _unflatten(Yflat, lengths)
 
     def backprop(dYnest: OutT) -> InT:
         dYflat = model.ops.flatten(dYnest)  # type: ignore[arg-type, var-annotated]
         # type ignore necessary for older versions of Mypy/Pydantic
         dXflat = backprop_layer(dYflat)
-        dXnest = layer.ops.xp.split(dXflat, splits, axis=0)
-        return dXnest
+        return _unflatten(dXflat, lengths)
 
     return Ynest, backprop
 
@@ -44,6 +41,16 @@ def _flatten(nested: InT) -> InnerInT:
     return cast(InT, flat)
 
 
+def _unflatten(flat: Any, lengths: List[int]) -> List[Any]:
+    # The gradient of the inner layer is a list if its input was.
+    nested = []
+    start = 0
+    for length in lengths:
+        nested.append(flat[start : start + length])
+        start += length
+    return nested
+
+
 def init(
     model: Model[InT, OutT], X: Optional[InT] = None, Y: Optional[OutT] = None
 ) -> None:
-- 
2.43.0


From c7b5883e305319793742c121dac13bb0d068638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:03 +0000
Subject: [PATCH 40/91] fix: can_from_* answers no when an attribute in the
 data can't be deserialized

---
 thinc/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thinc/model.py b/thinc/model.py
index fcfa24d..2c59833 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -754,6 +754,13 @@ class Model(Generic[InT, OutT]):
                             continue
                         if serialized != value:
                             return False
+            for attr, value in msg["attrs"][i].items():
+                try:
+                    deserialize_attr(node.attrs.get(attr), value, attr, node)
+                except Exception:
+                    # E.g. data written by a custom serializer, for a node that
+                    # doesn't have an attribute of that type.
+                    return False
         return True
 
     def __add__(self, other: Any) -> "Model":
-- 
2.43.0


From 5bfaec41895346b6ec088f6246bf1f588f1cd58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:53 +0000
Subject: [PATCH 41/91] fix: copies of wrapped models get their own ID

---
 thinc/shims/mxnet.py      |  1 +
 thinc/shims/shim.py       | 15 ++++++++++-----
 thinc/shims/tensorflow.py |  1 +
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/thinc/shims/mxnet.py b/thinc/shims/mxnet.py
index 544db59..73b22f4 100644
--- a/thinc/shims/mxnet.py
+++ b/thinc/shims/mxnet.py
@@ -88,6 +88,7 @@ class MXNetShim(Shim):
             ctx = mx.current_context()
         model_bytes = self.to_bytes()
         copied = copy.deepcopy(self)
+        copied._set_new_id()
         copied._model.initialize(ctx=ctx)
         copied.from_bytes(model_bytes)
         return copied
diff --git a/thinc/shims/shim.py b/thinc/shims/shim.py
index ef88408..b39438a 100644
--- a/thinc/shims/shim.py
+++ b/thinc/shims/shim.py
@@ -24,10 +24,7 @@ class Shim:  # pragma: no cover
     _optimizer: Optional[Any]
 
     def __init__(self, model: Any, config=None, optimizer: Any = None):
-        with Shim.global_id_lock:
-            Shim.global_id += 1
-            self.id = Shim.global_id
-
+        self._set_new_id()
         self.cfg = dict(config) if config is not None else {}
         self._model = model
         self._optimizer = optimizer
@@ -49,8 +46,16 @@ class Shim:  # pragma: no cover
     def use_params(self, params):
         yield
 
+    def _set_new_id(self) -> None:
+        with Shim.global_id_lock:
+            Shim.global_id += 1
+            self.id = Shim.global_id
+
     def copy(self):
-        return copy.deepcopy(self)
+        copied = copy.deepcopy(self)
+        # The ID is used as a key, e.g. for the state kept by the optimizer.
+        copied._set_new_id()
+        return copied
 
     def to_device(self, device_type: str, device_id: int):
         raise NotImplementedError
diff --git a/thinc/shims/tensorflow.py b/thinc/shims/tensorflow.py
index 0668ba9..4a57e5f 100644
--- a/thinc/shims/tensorflow.py
+++ b/thinc/shims/tensorflow.py
@@ -218,6 +218,7 @@ class TensorFlowShim(Shim):
         self._model = None
         tf.keras.backend.clear_session()
         copied = copy.deepcopy(self)
+        copied._set_new_id()
         copied._model = tf.keras.models.model_from_json(model_json_config)
         copied._load_weights_from_state_dict()
         return copied
-- 
2.43.0


From 22a8b87ee776497c3575276c09fbef75b10e6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:53 +0000
Subject: [PATCH 42/91] fix: copies of layers wrapped for debugging or
 profiling run on themselves, not on the original

---
 thinc/layers/with_debug.py             | 4 ++--
 thinc/layers/with_nvtx_range.py        | 6 +++---
 thinc/layers/with_signpost_interval.py | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/thinc/layers/with_debug.py b/thinc/layers/with_debug.py
index 21790e4..0db427b 100644
--- a/thinc/layers/with_debug.py
+++ b/thinc/layers/with_debug.py
@@ -26,7 +26,7 @@ def with_debug(
 
     def forward(model: Model, X: Any, is_train: bool) -> Tuple[Any, Callable]:
         on_forward(model, X, is_train)
-        layer_Y, layer_callback = orig_forward(layer, X, is_train=is_train)
+        layer_Y, layer_callback = orig_forward(model, X, is_train=is_train)
 
         def backprop(dY: Any) -> Any:
             on_backprop(dY)
@@ -37,7 +37,7 @@ def with_debug(
     def init(model: Model, X: Any, Y: Any) -> None:
         on_init(model, X, Y)
         if orig_init is not None:
-            orig_init(layer, X, Y)
+            orig_init(model, X, Y)
 
     layer.replace_callbacks(forward, init=init)
 
diff --git a/thinc/layers/with_nvtx_range.py b/thinc/layers/with_nvtx_range.py
index 480f82a..4951023 100644
--- a/thinc/layers/with_nvtx_range.py
+++ b/thinc/layers/with_nvtx_range.py
@@ -34,11 +34,11 @@ def with_nvtx_range(
 
         return layer_Y, backprop
 
-    def init(_model: Model, X: Any, Y: Any) -> Model:
+    def init(model: Model, X: Any, Y: Any) -> Model:
         if orig_init is not None:
-            return orig_init(layer, X, Y)
+            return orig_init(model, X, Y)
         else:
-            return layer
+            return model
 
     layer.replace_callbacks(forward, init=init)
 
diff --git a/thinc/layers/with_signpost_interval.py b/thinc/layers/with_signpost_interval.py
index 58f5d41..e61a2cc 100644
--- a/thinc/layers/with_signpost_interval.py
+++ b/thinc/layers/with_signpost_interval.py
@@ -37,12 +37,12 @@ def with_signpost_interval(
 
         return layer_Y, backprop
 
-    def init(_model: Model, X: Any, Y: Any) -> Model:
+    def init(model: Model, X: Any, Y: Any) -> Model:
         if orig_init is not None:
             with signposter.use_interval(f"{name} init"):
-                return orig_init(layer, X, Y)
+                return orig_init(model, X, Y)
         else:
-            return layer
+            return model
 
     layer.replace_callbacks(forward, init=init)
 
-- 
2.43.0


From a36b6a24ccb8bb259ece8399dc2c7b5819067feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:45 +0000
Subject: [PATCH 43/91] fix: use_params replaces parameters of PyTorch models
 given by the optimizer's keys, and single ones

---
 thinc/shims/pytorch.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 09285d4..8b58e15 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -182,14 +182,21 @@ class PyTorchShim(Shim):
     @contextlib.contextmanager
     def use_params(self, params):
         key_prefix = f"pytorch_{self.id}_"
+        names = {name for name, _ in self._model.named_parameters()}
         state_dict = {}
         for k, v in params.items():
             if hasattr(k, "startswith") and k.startswith(key_prefix):
                 state_dict[k.replace(key_prefix, "")] = xp2torch(v, device=self.device)
+            elif isinstance(k, tuple) and k[0] == self.id and k[1] in names:
+                # The key used by the optimizer, e.g. for the averages.
+                state_dict[k[1]] = xp2torch(v, device=self.device)
         if state_dict:
             backup = {k: v.clone() for k, v in self._model.state_dict().items()}
+            unknown = [name for name in state_dict if name not in backup]
+            if unknown:
+                raise ValueError(f"Unknown parameters for PyTorch model: {unknown}")
             try:
-                self._model.load_state_dict(state_dict)
+                self._model.load_state_dict(state_dict, strict=False)
                 yield
             finally:
                 self._model.load_state_dict(backup)
-- 
2.43.0


From 66976315a140720e10b575d47fdb9a35dceb92b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:33 +0000
Subject: [PATCH 44/91] fix: concurrent predictions with a PyTorch model don't
 switch it to training mode under each other

---
 thinc/shims/pytorch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 8b58e15..4922695 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -113,7 +113,8 @@ class PyTorchShim(Shim):
         with torch.no_grad():
             with torch.amp.autocast("cuda", enabled=self._mixed_precision):
                 outputs = self._model(*inputs.args, **inputs.kwargs)
-        self._model.train()
+        # The model is left in evaluation mode, as another thread may be in the
+        # middle of a prediction. The mode is set at the start of each update.
         return outputs
 
     def begin_update(self, inputs: ArgsKwargs):
@@ -129,6 +130,8 @@ class PyTorchShim(Shim):
             output = self._model(*inputs.args, **inputs.kwargs)
 
         def backprop(grads):
+            self._model.train()
+
             # Normally, gradient scaling is applied to the loss of a model. However,
             # since regular thinc layers do not use mixed-precision, we perform scaling
             # locally in this shim. Scaling the loss by a factor, scales the gradients
-- 
2.43.0


From 12150798a4f91f314d159f9ea5d037b51bbb5f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 45/91] fix: keep sequences of width 0 when flattening with
 padding

---
 thinc/backends/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 26646c7..f35fb29 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -329,7 +329,7 @@ class Ops:
         xp = get_array_module(X[0])
         shape_if_empty = (sum(len(x) for x in X),) + X[0].shape[1:]
         dtype_if_empty = X[0].dtype
-        X = [x for x in X if x.size != 0]
+        X = [x for x in X if len(x) != 0]
         if len(X) == 0:
             return self.alloc(shape_if_empty, dtype=dtype or dtype_if_empty)
         if int(pad) >= 1:
-- 
2.43.0


From f5d9f442fa163979e6355ca20b9057c91ea8d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 46/91] fix: keep the feature shape of sequences in list2ragged
 and with_ragged

---
 thinc/layers/list2ragged.py | 2 +-
 thinc/layers/with_ragged.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/thinc/layers/list2ragged.py b/thinc/layers/list2ragged.py
index 25ad7be..3aeb3c6 100644
--- a/thinc/layers/list2ragged.py
+++ b/thinc/layers/list2ragged.py
@@ -19,7 +19,7 @@ def list2ragged() -> Model[InT, OutT]:
 
 def forward(model: Model[InT, OutT], Xs: InT, is_train: bool) -> Tuple[OutT, Callable]:
     def backprop(dYr: OutT) -> InT:
-        return cast(InT, model.ops.unflatten(dYr.data, dYr.lengths))
+        return cast(InT, model.ops.unflatten(dYr.dataXd, dYr.lengths))
 
     lengths = model.ops.asarray1i([len(x) for x in Xs])
     return Ragged(model.ops.flatten(Xs), lengths), backprop
diff --git a/thinc/layers/with_ragged.py b/thinc/layers/with_ragged.py
index 6cf45d9..03b1047 100644
--- a/thinc/layers/with_ragged.py
+++ b/thinc/layers/with_ragged.py
@@ -118,11 +118,11 @@ def _list_forward(
     flatten = layer.ops.flatten
     unflatten = layer.ops.unflatten
 
-    lengths = [len(x) for x in Xs]
-    Yr, get_dXr = layer(Ragged(flatten(Xs), layer.ops.asarray1i(lengths)), is_train)
+    lengths = layer.ops.asarray1i([len(x) for x in Xs])
+    Yr, get_dXr = layer(Ragged(flatten(Xs), lengths), is_train)
 
     def backprop(dYs):
         flattened = flatten(dYs)
-        return unflatten(get_dXr(Ragged(flattened, lengths)).data, lengths)
+        return unflatten(get_dXr(Ragged(flattened, lengths)).dataXd, lengths)
 
-    return unflatten(Yr.data, Yr.lengths), backprop
+    return unflatten(Yr.dataXd, Yr.lengths), backprop
-- 
2.43.0


From 311510ef8c32e424c0084d397794f60739b503c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 47/91] fix: keep the feature shape of ragged arrays in
 residual

---
 thinc/layers/residual.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/residual.py b/thinc/layers/residual.py
index 642d6d9..8c81393 100644
--- a/thinc/layers/residual.py
+++ b/thinc/layers/residual.py
@@ -31,7 +31,7 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
         if isinstance(d_output, list):
             return [d_output[i] + dX[i] for i in range(len(d_output))]
         elif isinstance(d_output, Ragged):
-            return Ragged(d_output.data + dX.data, dX.lengths)
+            return Ragged(d_output.dataXd + dX.dataXd, dX.lengths)
         elif isinstance(X, Padded):
             return Padded(
                 d_output.data + dX.data, dX.size_at_t, dX.lengths, dX.indices
@@ -43,7 +43,7 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
     if isinstance(X, list):
         return [X[i] + Y[i] for i in range(len(X))], backprop
     elif isinstance(X, Ragged):
-        return Ragged(X.data + Y.data, X.lengths), backprop
+        return Ragged(X.dataXd + Y.dataXd, X.lengths), backprop
     elif isinstance(X, Padded):
         return Padded(X.data + Y.data, Y.size_at_t, Y.lengths, Y.indices), backprop
     else:
-- 
2.43.0


From 637795882ce45dd61b3a76142009cb1e9e1e0abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 48/91] fix: look up any integer type and negative keys in
 premap_ids, and support copies

---
 thinc/layers/premap_ids.pyx | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/thinc/layers/premap_ids.pyx b/thinc/layers/premap_ids.pyx
index 0522fbf..f4a531d 100644
--- a/thinc/layers/premap_ids.pyx
+++ b/thinc/layers/premap_ids.pyx
@@ -1,5 +1,5 @@
 # cython: binding=True, infer_types=True, profile=False
-from libc.stdint cimport int32_t, int64_t
+from libc.stdint cimport int64_t, uint8_t, uint64_t
 from preshed.maps cimport PreshMap
 
 from typing import Callable, Dict, Mapping, Optional, Tuple, Union, cast
@@ -15,17 +15,34 @@ InT = Union[Ints1d, Ints2d]
 OutT = Ints2d
 
 
-cdef lookup(PreshMap mapping, int64_t[:] keys, int64_t default):
+class _MappingTable(PreshMap):
+    """A PreshMap that can be copied."""
+
+    def __reduce__(self):
+        return (_get_mapping_table, (dict(self.items()),))
+
+
+def _get_mapping_table(mapping_table: Mapping[int, int]):
+    mapper = _MappingTable(initial_size=len(mapping_table))
+    for k, v in mapping_table.items():
+        mapper[k] = v
+    return mapper
+
+
+cdef lookup(PreshMap mapping, keys, int64_t default):
     """
     Faster dict.get(keys, default) for the case when
     the "dict" is a Dict[int, int] converted to PreshMap
     and the "keys" is a numpy integer vector.
     """
+    # The keys of the mapping are unsigned.
+    cdef const uint64_t[:] key_view = keys.astype("uint64")
+    cdef const uint8_t[:] missing = (keys < 0).astype("uint8")
     cdef int maxi = len(keys)
     result = numpy.empty(maxi, dtype="int64")
     cdef int64_t[:] result_view = result
     for i in range(maxi):
-        v = mapping[keys[i]]
+        v = None if missing[i] else mapping[key_view[i]]
         if v is None:
             result_view[i] = default
         else:
@@ -42,14 +59,13 @@ def premap_ids(
 ):
     """Remap integer inputs to integers a mapping table, usually as a
     preprocess before embeddings."""
-    mapper = PreshMap(initial_size=len(mapping_table))
     for k, v in mapping_table.items():
         if not (isinstance(k, int) and isinstance(v, int)):
             raise ValueError(
                 "mapping_table has to be of type Mapping[int, int], "
                 f"but found {k}, {type(k)} and {v}, {type(v)}"
             )
-        mapper[k] = v
+    mapper = _get_mapping_table(mapping_table)
     return Model(
         "premap_ids",
         forward,
-- 
2.43.0


From 3f7864dbbc35e36836b88b821d035f9fade8b321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 49/91] fix: do not share the default mapping table between
 remap_ids layers, return zeros as the gradient of remap_ids

---
 thinc/layers/remap_ids.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/remap_ids.py b/thinc/layers/remap_ids.py
index 3801b70..5a55cd8 100644
--- a/thinc/layers/remap_ids.py
+++ b/thinc/layers/remap_ids.py
@@ -14,13 +14,17 @@ OutT_v1 = Ints2d
 
 @registry.layers("remap_ids.v1")
 def remap_ids(
-    mapping_table: Dict[Any, int] = {}, default: int = 0, dtype: DTypes = "i"
+    mapping_table: Optional[Dict[Any, int]] = None,
+    default: int = 0,
+    dtype: DTypes = "i",
 ) -> Model[InT_v1, OutT_v1]:
     """Remap string or integer inputs using a mapping table, usually as a
     preprocess before embeddings. The mapping table can be passed in on input,
     or updated after the layer has been created. The mapping table is stored in
     the "mapping_table" attribute.
     """
+    if mapping_table is None:
+        mapping_table = {}
     return Model(
         "remap_ids",
         forward,
@@ -90,7 +94,7 @@ def forward_v2(
 
     def backprop(dY: OutT) -> InT:
         if xp_input:
-            return model.ops.xp.empty(dY.shape)  # type: ignore
+            return model.ops.alloc(inputs.shape, dtype=inputs.dtype)  # type: ignore
         else:
             return []
 
-- 
2.43.0


From 7d88fcd33b9edf2a7edc6b1ef0139f5d26c80897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 50/91] fix: keep the full hashes and n-grams in the generic
 ops

---
 thinc/backends/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index f35fb29..b5850b3 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1366,7 +1366,8 @@ class Ops:
 
         numpy_ops = NumpyOps()
         return self.asarray2i(
-            numpy_ops.hash(numpy_ops.asarray(ids, dtype="uint64"), seed)
+            numpy_ops.hash(numpy_ops.asarray(ids, dtype="uint64"), seed),
+            dtype="uint32",
         )
 
     def ngrams(self, n: int, keys: Ints1d) -> Ints1d:
@@ -1374,7 +1375,8 @@ class Ops:
 
         numpy_ops = NumpyOps()
         return self.asarray1i(
-            numpy_ops.ngrams(n, numpy_ops.asarray(keys, dtype="uint64"))
+            numpy_ops.ngrams(n, numpy_ops.asarray(keys, dtype="uint64")),
+            dtype="uint64",
         )
 
     def position_encode(
-- 
2.43.0


From b59082dde536aee91d86a24eadd1b2dc4cfee918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:40 +0000
Subject: [PATCH 51/91] fix: zero gradients that are not contiguous in the
 optimizer

---
 thinc/optimizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 071ad4e..8da8cd6 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -254,14 +254,14 @@ class Optimizer(object):
                 self.grad_clip(self.step, **schedule_args),
             )
         if self.use_radam:
-            weights, gradient = self._radam(
+            weights, _ = self._radam(
                 ops, weights, gradient, lr_scale, key, nr_upd
             )
         elif (
             self.b1(self.step, **schedule_args) > 0.0
             and self.b2(self.step, **schedule_args) > 0.0
         ):
-            weights, gradient = self._adam(
+            weights, _ = self._adam(
                 ops, weights, gradient, lr_scale, key, nr_upd
             )
         elif self.b2(self.step, **schedule_args) > 0.0:  # pragma: no cover
-- 
2.43.0


From 1a836b97b72cfd63ea5bc6624d116c441bf4628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:40 +0000
Subject: [PATCH 52/91] fix: apply the learning rate scale in RAdam

---
 thinc/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 8da8cd6..190f4d3 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -301,7 +301,7 @@ class Optimizer(object):
             "exp_avg_sq": self.mom2[key],
         }
         group = {
-            "lr": self.learn_rate(self.step, **schedule_args),
+            "lr": lr_scale * self.learn_rate(self.step, **schedule_args),
             "betas": [
                 self.b1(self.step, **schedule_args),
                 self.b2(self.step, **schedule_args),
-- 
2.43.0


From 1bf66a9a2c1db2238260311d0825fa71c27d2618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:40 +0000
Subject: [PATCH 53/91] fix: count the steps from one in RAdam, and don't reuse
 step sizes computed for other betas

---
 thinc/optimizers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 190f4d3..cf84c01 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -322,12 +322,13 @@ class Optimizer(object):
         exp_avg *= beta1
         exp_avg += (1 - beta1) * gradient_1D
 
-        state["step"] += 1
+        # Unlike in the pytorch implementation, the step already counts this update.
         buffered = group["buffer"][int(state["step"] % 10)]
-        if state["step"] == buffered[0]:
+        buffer_key = (state["step"], beta1, beta2)
+        if buffer_key == buffered[0]:
             N_sma, step_size = buffered[1], buffered[2]
         else:
-            buffered[0] = state["step"]
+            buffered[0] = buffer_key
             beta2_t = beta2 ** state["step"]
             N_sma_max = 2 / (1 - beta2) - 1
             N_sma = N_sma_max - 2 * state["step"] * beta2_t / (1 - beta2_t)
-- 
2.43.0


From a8590be4a55f00cfb3ce56560c65513e459d70a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:21 +0000
Subject: [PATCH 54/91] fix: refuse outdated plateau scores even when they are
 better

---
 thinc/schedules.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/thinc/schedules.py b/thinc/schedules.py
index 2f99a53..37f9b5d 100644
--- a/thinc/schedules.py
+++ b/thinc/schedules.py
@@ -208,6 +208,11 @@ def _plateau_schedule(
 
     last_score_step, last_score_ = last_score
 
+    if state.last_score_step is not None and last_score_step < state.last_score_step:
+        raise ValueError(
+            f"Expected score with step >= {state.last_score_step}, was: {last_score_step}"
+        )
+
     if (
         state.best_score is None
         or state.last_score_step is None
@@ -215,10 +220,6 @@ def _plateau_schedule(
     ):
         state.best_score = last_score_
         state.patience = 0
-    elif last_score_step < state.last_score_step:
-        raise ValueError(
-            f"Expected score with step >= {state.last_score_step}, was: {last_score_step}"
-        )
     elif last_score_step > state.last_score_step:
         # If the score didn't improve and we are not seeing the last
         # score again, we may be at a plateau, so increase patience.
-- 
2.43.0


From 4c8c60e1fbf99e3829aef0cb88d7981d1cf48349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:08 +0000
Subject: [PATCH 55/91] fix: negative targets with label smoothing, and leave
 target matrices alone when names are given

---
 thinc/loss.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/thinc/loss.py b/thinc/loss.py
index 756dac4..ee2197c 100644
--- a/thinc/loss.py
+++ b/thinc/loss.py
@@ -73,6 +73,7 @@ class CategoricalCrossentropy(Loss):
     def convert_truths(self, truths, guesses: Floats2d) -> Tuple[Floats2d, Floats2d]:
         xp = get_array_module(guesses)
         missing = []
+        negatives = []
         negatives_mask = None
         if self.names:
             negatives_mask = xp.ones((len(truths), len(self.names)), dtype="f")
@@ -106,7 +107,8 @@ class CategoricalCrossentropy(Loss):
                             truths[i] = value[len(self.neg_prefix) :]
                             neg_index = self._name_to_i[truths[i]]
                             negatives_mask[i] = 0  # type: ignore
-                            negatives_mask[i][neg_index] = -1  # type: ignore
+                            negatives_mask[i][neg_index] = 1  # type: ignore
+                            negatives.append((i, neg_index))
                     truths = [self._name_to_i[name] for name in truths]
             truths = xp.asarray(truths, dtype="i")
             mask = _make_mask(guesses, missing)
@@ -129,9 +131,8 @@ class CategoricalCrossentropy(Loss):
         # Transform negative annotations to a 0 for the negated value
         # + mask all other values for that row
         if negatives_mask is not None:
-            truths *= negatives_mask
-            truths[truths == -1] = 0
-            negatives_mask[negatives_mask == -1] = 1
+            for i, neg_index in negatives:
+                truths[i][neg_index] = 0
             mask *= negatives_mask
         return truths, mask
 
-- 
2.43.0


From 361cb37a9f3e20ed9f3ca8ef205f008b44f4147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:08 +0000
Subject: [PATCH 56/91] fix: missing values need not be valid class ids

---
 thinc/loss.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/loss.py b/thinc/loss.py
index ee2197c..2541daf 100644
--- a/thinc/loss.py
+++ b/thinc/loss.py
@@ -85,6 +85,7 @@ class CategoricalCrossentropy(Loss):
                 if isinstance(truths[0], int):
                     for i, value in enumerate(truths):
                         if value == missing_value:
+                            truths[i] = 0
                             missing.append(i)
                 else:
                     if self.names is None:
@@ -114,6 +115,8 @@ class CategoricalCrossentropy(Loss):
             mask = _make_mask(guesses, missing)
         else:
             mask = _make_mask_by_value(truths, guesses, missing_value)
+            if truths.ndim == 1 and missing_value is not None:
+                truths = xp.where(truths == missing_value, 0, truths)
         if truths.ndim != guesses.ndim:
             # transform categorical values to one-hot encoding
             truths = to_categorical(
-- 
2.43.0


From 4dfd7e9e47819ebb1d85cc57990bce48bf7458a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:17 +0000
Subject: [PATCH 57/91] fix: keep the type of missing values given in configs

---
 thinc/loss.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/thinc/loss.py b/thinc/loss.py
index 2541daf..1a7e82a 100644
--- a/thinc/loss.py
+++ b/thinc/loss.py
@@ -12,6 +12,11 @@ from typing import (
     cast,
 )
 
+try:
+    from pydantic.v1 import StrictInt, StrictStr
+except ImportError:
+    from pydantic import StrictInt, StrictStr  # type: ignore
+
 from .config import registry
 from .types import Floats2d, Ints1d
 from .util import get_array_module, to_categorical
@@ -21,6 +26,8 @@ GradT = TypeVar("GradT")
 GuessT = TypeVar("GuessT")
 TruthT = TypeVar("TruthT")
 IntsOrFloats = Union[Ints1d, Floats2d]
+# The value must not be coerced to a string when it's set in a config.
+MissingT = Union[StrictStr, StrictInt]
 IntsOrFloatsOrStrs = Union[Ints1d, Floats2d, Sequence[int], Sequence[str]]
 
 
@@ -177,7 +184,7 @@ def configure_CategoricalCrossentropy_v1(
     *,
     normalize: bool = True,
     names: Optional[Sequence[str]] = None,
-    missing_value: Optional[Union[str, int]] = None,
+    missing_value: Optional[MissingT] = None,
 ) -> CategoricalCrossentropy:
     return CategoricalCrossentropy(
         normalize=normalize, names=names, missing_value=missing_value
@@ -189,7 +196,7 @@ def configure_CategoricalCrossentropy_v2(
     *,
     normalize: bool = True,
     names: Optional[Sequence[str]] = None,
-    missing_value: Optional[Union[str, int]] = None,
+    missing_value: Optional[MissingT] = None,
     neg_prefix: Optional[str] = None,
 ) -> CategoricalCrossentropy:
     return CategoricalCrossentropy(
@@ -205,7 +212,7 @@ def configure_CategoricalCrossentropy_v3(
     *,
     normalize: bool = True,
     names: Optional[Sequence[str]] = None,
-    missing_value: Optional[Union[str, int]] = None,
+    missing_value: Optional[MissingT] = None,
     neg_prefix: Optional[str] = None,
     label_smoothing: float = 0.0,
 ) -> CategoricalCrossentropy:
@@ -295,7 +302,7 @@ def configure_SequenceCategoricalCrossentropy_v3(
     *,
     normalize: bool = True,
     names: Optional[Sequence[str]] = None,
-    missing_value: Optional[Union[str, int]] = None,
+    missing_value: Optional[MissingT] = None,
     neg_prefix: Optional[str] = None,
     label_smoothing: float = 0.0,
 ) -> SequenceCategoricalCrossentropy:
-- 
2.43.0


From bc6a5ab8fe3f192429b8d95b83ab09aef823cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:51 +0000
Subject: [PATCH 58/91] fix: fractional batch sizes, and refuse sizes below one

---
 thinc/backends/ops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index b5850b3..8349bd7 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -187,8 +187,12 @@ class Ops:
         output = []
         i = 0
         while i < length:
-            output.append(next(sizes))
-            i += output[-1]
+            # Sizes may be fractional, e.g. if they come from a schedule.
+            size = int(next(sizes))
+            if size < 1:
+                raise ValueError(f"Batch size must be at least 1, was: {size}")
+            output.append(size)
+            i += size
         return output
 
     def seq2col(
-- 
2.43.0


From 3b8e2d81e6ac2129617e18c008a89ca4787b6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:51 +0000
Subject: [PATCH 59/91] fix: independent iterations over shuffled batches

---
 thinc/backends/ops.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 8349bd7..5bc4700 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -115,13 +115,16 @@ class Ops:
         # trickery worthwhile: instead of being an actual generator, we
         # return our SizedGenerator object, which provides a __len__.
         def _iter_items():
+            # Other iterations may be in progress, so keep the order local.
+            order = indices
             if shuffle:
-                numpy.random.shuffle(indices)
+                order = indices.copy()
+                numpy.random.shuffle(order)
             queue = []
             i = 0
             for size in sizes:
                 size = int(size)
-                queue.append(self._get_batch(sequence, indices[i : i + size]))
+                queue.append(self._get_batch(sequence, order[i : i + size]))
                 if len(queue) >= buffer:
                     yield from queue
                     queue = []
@@ -154,13 +157,16 @@ class Ops:
         indices = numpy.arange(len(sequence))
 
         def _iter_items():
+            # Other iterations may be in progress, so keep the order local.
+            order = indices
             if shuffle:
-                numpy.random.shuffle(indices)
+                order = indices.copy()
+                numpy.random.shuffle(order)
             queue = []
             i = 0
             for size in sizes:
                 size = int(size)
-                idx_batch = indices[i : i + size]
+                idx_batch = order[i : i + size]
                 queue.append([])
                 for sequence in sequences:
                     queue[-1].append(self._get_batch(sequence, idx_batch))
-- 
2.43.0


From 129ff23d365aaa4b553a1077a1c807e1b247b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:51 +0000
Subject: [PATCH 60/91] fix: minibatch pairs of lists

---
 thinc/backends/ops.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 5bc4700..f928f05 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -42,6 +42,7 @@ from ..types import (
     List2d,
     ListXd,
     Padded,
+    Pairs,
     Shape,
     SizedGenerator,
     Xp,
@@ -183,6 +184,11 @@ class Ops:
             subseq = [sequence[i] for i in indices]
         elif isinstance(sequence, tuple):
             subseq = tuple(sequence[i] for i in indices)
+        elif isinstance(sequence, Pairs):
+            subseq = Pairs(
+                self._get_batch(sequence.one, indices),
+                self._get_batch(sequence.two, indices),
+            )
         else:
             subseq = sequence[indices]
         if is_xp_array(subseq):
-- 
2.43.0


From 542c863a3493380766d9d3f8a334ad27757ea70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:52 +0000
Subject: [PATCH 61/91] fix: batch sizes given as lists or schedules

---
 thinc/backends/ops.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index f928f05..ceb71de 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -2,6 +2,7 @@ import itertools
 import math
 from typing import (
     Any,
+    Iterable,
     Iterator,
     List,
     Optional,
@@ -16,6 +17,7 @@ from typing import (
 
 import numpy
 
+from ..schedules import Schedule
 from ..types import (
     Array1d,
     Array2d,
@@ -58,6 +60,16 @@ INV_SQRT2 = 1.0 / math.sqrt(2.0)
 INV_SQRT_2PI = 1.0 / math.sqrt(2.0 * math.pi)
 
 
+def _iter_sizes(size: Union[int, Iterable[int], Schedule]) -> Iterator[int]:
+    """Get the batch sizes given as one size, an iterable or a schedule."""
+    if isinstance(size, int):
+        return itertools.repeat(size)
+    elif isinstance(size, Schedule):
+        return size.to_generator()
+    else:
+        return iter(size)
+
+
 class Ops:
     name: str = "base"
     xp: Xp = numpy
@@ -84,7 +96,7 @@ class Ops:
 
     def minibatch(
         self,
-        size: Union[int, Generator],
+        size: Union[int, Iterable[int], Schedule],
         sequence: Batchable,
         *,
         shuffle: bool = False,
@@ -107,9 +119,7 @@ class Ops:
         if not hasattr(sequence, "__len__"):
             err = f"Can't minibatch data. Expected sequence, got {type(sequence)}"
             raise ValueError(err)
-        sizes = self._get_batch_sizes(
-            len(sequence), itertools.repeat(size) if isinstance(size, int) else size
-        )
+        sizes = self._get_batch_sizes(len(sequence), _iter_sizes(size))
         indices = numpy.arange(len(sequence))
 
         # This is a bit convoluted, but it's a time where convenience makes
@@ -136,7 +146,7 @@ class Ops:
 
     def multibatch(
         self,
-        size: Union[int, Generator],
+        size: Union[int, Iterable[int], Schedule],
         sequence: Batchable,
         *others: Batchable,
         shuffle: bool = False,
@@ -152,9 +162,7 @@ class Ops:
             values = ", ".join([f"{type(seq)}" for seq in sequences])
             err = f"Can't multibatch data. Expected sequences, got {values}"
             raise ValueError(err)
-        sizes = self._get_batch_sizes(
-            len(sequence), itertools.repeat(size) if isinstance(size, int) else size
-        )
+        sizes = self._get_batch_sizes(len(sequence), _iter_sizes(size))
         indices = numpy.arange(len(sequence))
 
         def _iter_items():
-- 
2.43.0


From 1dfaae10fb47c3ceafa8254dab833b4a106badc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 62/91] fix: let concatenate and add know their width when
 their layers do

---
 thinc/layers/add.py         | 15 +++++++++++----
 thinc/layers/concatenate.py | 21 ++++++++++++++++-----
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index 52f7eaf..e7a8e15 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -1,4 +1,4 @@
-from typing import Any, Callable, Dict, Optional, Tuple, TypeVar
+from typing import Any, Callable, Dict, Optional, Sequence, Tuple, TypeVar
 
 from ..config import registry
 from ..model import Model
@@ -19,16 +19,24 @@ def add(
     layers = (layer1, layer2) + layers
     if layers[0].name == "add":
         layers[0].layers.extend(layers[1:])
+        layers[0].set_dim("nO", _get_nO(layers[0].layers), force=True)  # type: ignore[arg-type]
         return layers[0]
 
     # only add an nI dimension if each sub-layer has one
-    dims: Dict[str, Optional[int]] = {"nO": None}
+    dims: Dict[str, Optional[int]] = {"nO": _get_nO(layers)}
     if all(node.has_dim("nI") in [True, None] for node in layers):
-        dims = {"nO": None, "nI": None}
+        dims["nI"] = None
 
     return Model("add", forward, init=init, dims=dims, layers=layers)
 
 
+def _get_nO(layers: Sequence[Model]) -> Optional[int]:
+    # The output width is known once the width of every layer is known.
+    if all(layer.has_dim("nO") for layer in layers):
+        return layers[0].get_dim("nO")
+    return None
+
+
 def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Callable]:
     if not model.layers:
         return X, lambda dY: dY
@@ -68,4 +76,3 @@ def init(
     for layer in model.layers:
         if layer.has_dim("nO"):
             model.set_dim("nO", layer.get_dim("nO"))
-            break
diff --git a/thinc/layers/concatenate.py b/thinc/layers/concatenate.py
index 5f789c2..f457ed5 100644
--- a/thinc/layers/concatenate.py
+++ b/thinc/layers/concatenate.py
@@ -37,12 +37,13 @@ def concatenate(*layers: Model) -> Model[InT, XY_XY_OutT]:
         return layers[0]
     elif layers[0]._func is forward:
         layers[0].layers.extend(layers[1:])
+        layers[0].set_dim("nO", _get_nO(layers[0].layers), force=True)  # type: ignore[arg-type]
         return layers[0]
 
     # only add an nI dimension if each sub-layer has one
-    dims: Dict[str, Optional[int]] = {"nO": None}
+    dims: Dict[str, Optional[int]] = {"nO": _get_nO(layers)}
     if all(node.has_dim("nI") in [True, None] for node in layers):
-        dims = {"nO": None, "nI": None}
+        dims["nI"] = None
 
     return Model(
         "|".join(layer.name for layer in layers),
@@ -53,6 +54,13 @@ def concatenate(*layers: Model) -> Model[InT, XY_XY_OutT]:
     )
 
 
+def _get_nO(layers: Sequence[Model]) -> Optional[int]:
+    # The output width is known once the width of every layer is known.
+    if all(layer.has_dim("nO") for layer in layers):
+        return sum(layer.get_dim("nO") for layer in layers)
+    return None
+
+
 def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Callable]:
     Ys, callbacks = zip(*[layer(X, is_train=is_train) for layer in model.layers])
     if isinstance(Ys[0], list):
@@ -148,6 +156,9 @@ def init(
             if layer.has_dim("nI") is not False:
                 layer.set_dim("nI", get_width(X))
     for layer in model.layers:
-        layer.initialize(X=X, Y=Y)
-    if all([layer.has_dim("nO") for layer in model.layers]):
-        model.set_dim("nO", sum(layer.get_dim("nO") for layer in model.layers))
+        # Y is as wide as all the layers together, so it can't set or confirm
+        # the width of a layer that has one.
+        layer.initialize(X=X, Y=Y if not layer.has_dim("nO") else None)
+    nO = _get_nO(model.layers)
+    if nO is not None:
+        model.set_dim("nO", nO)
-- 
2.43.0


From 601757ad77c5ab1ebfd42f325c3416111c64ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 63/91] fix: refuse residual layers whose input and output
 widths differ

---
 thinc/layers/residual.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thinc/layers/residual.py b/thinc/layers/residual.py
index 8c81393..43b99ef 100644
--- a/thinc/layers/residual.py
+++ b/thinc/layers/residual.py
@@ -62,3 +62,9 @@ def init(
         model.set_dim("nO", first_layer.get_dim("nO"))
     if first_layer.has_dim("nI"):
         model.set_dim("nI", first_layer.get_dim("nI"))
+    if model.has_dim("nO") and model.has_dim("nI"):
+        nO, nI = model.get_dim("nO"), model.get_dim("nI")
+        if nO != nI:
+            raise ValueError(
+                f"The input and output of a residual layer need the same width: {nI} != {nO}"
+            )
-- 
2.43.0


From 8c675dab6c33675f85bbb31718f65d834e4ea133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 64/91] fix: let siamese infer the dimensions of its layers

---
 thinc/layers/siamese.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/thinc/layers/siamese.py b/thinc/layers/siamese.py
index 33579a4..1ea2c42 100644
--- a/thinc/layers/siamese.py
+++ b/thinc/layers/siamese.py
@@ -20,7 +20,10 @@ def siamese(
         forward,
         init=init,
         layers=[layer, similarity],
-        dims={"nI": layer.get_dim("nI"), "nO": similarity.get_dim("nO")},
+        dims={
+            "nI": layer.maybe_get_dim("nI"),
+            "nO": similarity.maybe_get_dim("nO"),
+        },
     )
 
 
@@ -44,10 +47,15 @@ def forward(
 def init(
     model: Model[InT, OutT], X: Optional[InT] = None, Y: Optional[OutT] = None
 ) -> None:
-    if X is not None:
-        model.layers[0].set_dim("nI", get_width(X[1]))
+    if X is None:
+        model.layers[0].initialize()
+    else:
+        if model.layers[0].has_dim("nI") is not False:
+            model.layers[0].set_dim("nI", get_width(X[1]))
         model.layers[0].initialize(X=X[0])
         X = (model.layers[0].predict(X[0]), model.layers[0].predict(X[1]))
     model.layers[1].initialize(X=X, Y=Y)
-    model.set_dim("nI", model.layers[0].get_dim("nI"))
-    model.set_dim("nO", model.layers[1].get_dim("nO"))
+    if model.layers[0].has_dim("nI"):
+        model.set_dim("nI", model.layers[0].get_dim("nI"))
+    if model.layers[1].has_dim("nO"):
+        model.set_dim("nO", model.layers[1].get_dim("nO"))
-- 
2.43.0


From 1572529e2026d7c91b3c2e0001d545fe275184e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 65/91] fix: flatten the sample output of with_flatten like its
 input

---
 thinc/layers/with_flatten.py    | 2 +-
 thinc/layers/with_flatten_v2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/with_flatten.py b/thinc/layers/with_flatten.py
index c857efc..100b161 100644
--- a/thinc/layers/with_flatten.py
+++ b/thinc/layers/with_flatten.py
@@ -56,5 +56,5 @@ def init(
 ) -> None:
     model.layers[0].initialize(
         _flatten(X) if X is not None else None,
-        model.layers[0].ops.xp.hstack(Y) if Y is not None else None,
+        model.ops.flatten(Y) if Y is not None else None,  # type: ignore[arg-type, var-annotated]
     )
diff --git a/thinc/layers/with_flatten_v2.py b/thinc/layers/with_flatten_v2.py
index 9554999..95f95a1 100644
--- a/thinc/layers/with_flatten_v2.py
+++ b/thinc/layers/with_flatten_v2.py
@@ -62,5 +62,5 @@ def init(
 ) -> None:
     model.layers[0].initialize(
         _flatten(X)[0] if X is not None else None,
-        model.layers[0].ops.xp.hstack(Y) if Y is not None else None,
+        _flatten(Y)[0] if Y is not None else None,
     )
-- 
2.43.0


From 8dacc4bda4b8013c85af94d7a9338364dc627862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 66/91] fix: refuse an odd output width in bidirectional LSTM
 layers

---
 thinc/layers/lstm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/lstm.py b/thinc/layers/lstm.py
index 487ea11..19c8373 100644
--- a/thinc/layers/lstm.py
+++ b/thinc/layers/lstm.py
@@ -73,7 +73,11 @@ def init(
         model.set_dim("nI", get_width(X))
     if Y is not None:
         model.set_dim("nO", get_width(Y))
-    nH = int(model.get_dim("nO") / model.get_dim("dirs"))
+    if model.get_dim("nO") % model.get_dim("dirs") != 0:
+        raise ValueError(
+            f"The output width of a bidirectional LSTM must be even: {model.get_dim('nO')}"
+        )
+    nH = model.get_dim("nO") // model.get_dim("dirs")
     nI = model.get_dim("nI")
     depth = model.get_dim("depth")
     dirs = model.get_dim("dirs")
-- 
2.43.0


From 3a05e49eed64b452320065fa828931320c80e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 67/91] fix: keep the dimensions of wrappers in step with their
 layers

---
 thinc/layers/resizable.py    | 9 +++++++++
 thinc/layers/uniqued.py      | 2 +-
 thinc/layers/with_cpu.py     | 7 ++++++-
 thinc/layers/with_list.py    | 7 ++++++-
 thinc/layers/with_padded.py  | 7 ++++++-
 thinc/layers/with_reshape.py | 2 +-
 6 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/thinc/layers/resizable.py b/thinc/layers/resizable.py
index 606d50d..53c39cf 100644
--- a/thinc/layers/resizable.py
+++ b/thinc/layers/resizable.py
@@ -36,15 +36,24 @@ def init(
 ) -> None:
     layer = model.layers[0]
     layer.initialize(X, Y)
+    _update_dims(model)
 
 
 def resize_model(model: Model[InT, OutT], new_nO):
     old_layer = model.layers[0]
     new_layer = model.attrs["resize_layer"](old_layer, new_nO)
     model.layers[0] = new_layer
+    _update_dims(model)
     return model
 
 
+def _update_dims(model: Model[InT, OutT]):
+    for dim_name in model.layers[0].dim_names:
+        value = model.layers[0].maybe_get_dim(dim_name)
+        if value is not None and model.has_dim(dim_name) is not False:
+            model.set_dim(dim_name, value, force=True)
+
+
 def resize_linear_weighted(
     layer: Model[Floats2d, Floats2d], new_nO, *, fill_defaults=None
 ) -> Model[Floats2d, Floats2d]:
diff --git a/thinc/layers/uniqued.py b/thinc/layers/uniqued.py
index 26f2cdf..3643e8d 100644
--- a/thinc/layers/uniqued.py
+++ b/thinc/layers/uniqued.py
@@ -22,7 +22,7 @@ def uniqued(layer: Model, *, column: int = 0) -> Model[InT, OutT]:
         forward,
         init=init,
         layers=[layer],
-        dims={"nO": None, "nI": None},
+        dims={"nO": layer.maybe_get_dim("nO"), "nI": layer.maybe_get_dim("nI")},
         attrs={"column": column},
     )
 
diff --git a/thinc/layers/with_cpu.py b/thinc/layers/with_cpu.py
index 39e5965..190a4f8 100644
--- a/thinc/layers/with_cpu.py
+++ b/thinc/layers/with_cpu.py
@@ -33,7 +33,12 @@ def forward(model: Model, X: Any, is_train: bool) -> Tuple[Any, Callable]:
 
 
 def init(model: Model, X: Any, Y: Any) -> None:
-    model.layers[0].initialize(X, Y)
+    layer = model.layers[0]
+    layer.initialize(X, Y)
+    for dim_name in layer.dim_names:
+        value = layer.maybe_get_dim(dim_name)
+        if value is not None:
+            model.set_dim(dim_name, value)
 
 
 def _to_cpu(X):
diff --git a/thinc/layers/with_list.py b/thinc/layers/with_list.py
index 5331758..2f69553 100644
--- a/thinc/layers/with_list.py
+++ b/thinc/layers/with_list.py
@@ -33,10 +33,15 @@ def forward(
 def init(
     model: Model[SeqT, SeqT], X: Optional[SeqT] = None, Y: Optional[SeqT] = None
 ) -> None:
-    model.layers[0].initialize(
+    layer = model.layers[0]
+    layer.initialize(
         X=_get_list(model, X) if X is not None else None,
         Y=_get_list(model, Y) if Y is not None else None,
     )
+    for dim_name in layer.dim_names:
+        value = layer.maybe_get_dim(dim_name)
+        if value is not None:
+            model.set_dim(dim_name, value)
 
 
 def _get_list(model, seq):
diff --git a/thinc/layers/with_padded.py b/thinc/layers/with_padded.py
index b92c630..30715dd 100644
--- a/thinc/layers/with_padded.py
+++ b/thinc/layers/with_padded.py
@@ -46,10 +46,15 @@ def forward(
 def init(
     model: Model[SeqT, SeqT], X: Optional[SeqT] = None, Y: Optional[SeqT] = None
 ) -> None:
-    model.layers[0].initialize(
+    layer = model.layers[0]
+    layer.initialize(
         X=_get_padded(model, X) if X is not None else None,
         Y=_get_padded(model, Y) if Y is not None else None,
     )
+    for dim_name in layer.dim_names:
+        value = layer.maybe_get_dim(dim_name)
+        if value is not None:
+            model.set_dim(dim_name, value)
 
 
 def _is_padded_data(seq: SeqT) -> bool:
diff --git a/thinc/layers/with_reshape.py b/thinc/layers/with_reshape.py
index 3c02cb4..7e1a1a7 100644
--- a/thinc/layers/with_reshape.py
+++ b/thinc/layers/with_reshape.py
@@ -16,7 +16,7 @@ def with_reshape(layer: Model[OutT, OutT]) -> Model[InT, InT]:
         forward,
         init=init,
         layers=[layer],
-        dims={"nO": None, "nI": None},
+        dims={"nO": layer.maybe_get_dim("nO"), "nI": layer.maybe_get_dim("nI")},
     )
 
 
-- 
2.43.0


From d7df08731aad6a2b39538f833b6414e7b898fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 68/91] fix: initialize the key transform of
 ParametricAttention from its input

---
 thinc/layers/parametricattention_v2.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/parametricattention_v2.py b/thinc/layers/parametricattention_v2.py
index e252dd7..daf2690 100644
--- a/thinc/layers/parametricattention_v2.py
+++ b/thinc/layers/parametricattention_v2.py
@@ -59,8 +59,8 @@ def init(
     width = get_width(X) if X is not None else None
     if width:
         model.set_dim("nO", width)
-        if key_transform.has_dim("nO"):
-            key_transform.set_dim("nO", width)
+    if model.has_dim("nO") and key_transform.has_dim("nO") is not False:
+        key_transform.set_dim("nO", model.get_dim("nO"))
 
     # Randomly initialize the parameter, as though it were an embedding.
     Q = model.ops.alloc1f(model.get_dim("nO"))
@@ -68,9 +68,10 @@ def init(
     model.set_param("Q", Q)
 
     X_array = X.dataXd if X is not None else None
-    Y_array = Y.dataXd if Y is not None else None
 
-    key_transform.initialize(X_array, Y_array)
+    # The transformed keys are as wide as the inputs. Y may be the output of a
+    # whole network that the attention is part of.
+    key_transform.initialize(X_array, X_array)
 
 
 def _get_attention(ops, Q, key_transform, X, lengths, is_train):
-- 
2.43.0


From 6fe9063dab22b6db4699ae06fcfd37a0773bb025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 69/91] fix: draw normal_init weights with scale sqrt(1 /
 fan_in)

---
 thinc/initializers.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/thinc/initializers.py b/thinc/initializers.py
index feb0288..1e5e812 100644
--- a/thinc/initializers.py
+++ b/thinc/initializers.py
@@ -98,16 +98,25 @@ def configure_uniform_init(
     return partial(uniform_init, lo=lo, hi=hi)
 
 
-def normal_init(ops: Ops, shape: Shape, *, mean: float = 0) -> FloatsXd:
+def normal_init(
+    ops: Ops, shape: Shape, *, mean: float = 0, fan_in: int = -1
+) -> FloatsXd:
+    if fan_in == -1:
+        fan_in = shape[1] if len(shape) > 1 else shape[0]
+    scale = numpy.sqrt(1.0 / fan_in)
     size = int(ops.xp.prod(ops.xp.asarray(shape)))
-    inits = cast(FloatsXd, numpy.random.normal(scale=mean, size=size).astype("float32"))
+    inits = cast(
+        FloatsXd, numpy.random.normal(mean, scale, size=size).astype("float32")
+    )
     inits = ops.reshape_f(inits, shape)
     return ops.asarray_f(inits)
 
 
 @registry.initializers("normal_init.v1")
-def configure_normal_init(*, mean: float = 0) -> Callable[[FloatsXd], FloatsXd]:
-    return partial(normal_init, mean=mean)
+def configure_normal_init(
+    *, mean: float = 0, fan_in: int = -1
+) -> Callable[[FloatsXd], FloatsXd]:
+    return partial(normal_init, mean=mean, fan_in=fan_in)
 
 
 __all__ = [
-- 
2.43.0


From 8ae24ed1c07fe815bfb2bd124a8fb08792a37817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:50 +0000
Subject: [PATCH 70/91] fix: support negative indices in with_getitem

---
 thinc/layers/with_getitem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/layers/with_getitem.py b/thinc/layers/with_getitem.py
index fb6a3cc..47e5895 100644
--- a/thinc/layers/with_getitem.py
+++ b/thinc/layers/with_getitem.py
@@ -25,6 +25,8 @@ def forward(
     model: Model[InT, OutT], items: InT, is_train: bool
 ) -> Tuple[OutT, Callable]:
     idx = model.attrs["idx"]
+    if idx < 0:
+        idx += len(items)
     Y_i, backprop_item = model.layers[0](items[idx], is_train)
 
     def backprop(d_output: OutT) -> InT:
-- 
2.43.0


From c03411db134ee8ec7c4bf604c7db3d3119f73819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 71/91] fix: keep the shape of Ragged data in Dropout

---
 thinc/layers/dropout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/dropout.py b/thinc/layers/dropout.py
index 7db3526..529b246 100644
--- a/thinc/layers/dropout.py
+++ b/thinc/layers/dropout.py
@@ -63,13 +63,13 @@ def _dropout_padded(
 def _dropout_ragged(
     model: Model[InT, InT], Xr: Ragged, is_train: bool
 ) -> Tuple[Ragged, Callable]:
-    X = Xr.data
+    X = Xr.dataXd
     lengths = Xr.lengths
     mask = model.ops.get_dropout_mask(X.shape, model.attrs["dropout_rate"])
     Y = X * mask
 
     def backprop(dYr: Ragged) -> Ragged:
-        return Ragged(dYr.data * mask, dYr.lengths)
+        return Ragged(dYr.dataXd * mask, dYr.lengths)
 
     return Ragged(Y, lengths), backprop
 
-- 
2.43.0


From 98ca633eaa534c66c7b395f12d34eadd0f02318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:32 +0000
Subject: [PATCH 72/91] fix: backpropagate through wrapped PyTorch models with
 several or integer tensors

---
 thinc/layers/pytorchwrapper.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/pytorchwrapper.py b/thinc/layers/pytorchwrapper.py
index 39c8b95..143a595 100644
--- a/thinc/layers/pytorchwrapper.py
+++ b/thinc/layers/pytorchwrapper.py
@@ -241,7 +241,10 @@ def convert_pytorch_default_inputs(
     model: Model, X: Any, is_train: bool
 ) -> Tuple[ArgsKwargs, Callable[[ArgsKwargs], Any]]:
     shim = cast(PyTorchShim, model.shims[0])
-    xp2torch_ = lambda x: xp2torch(x, requires_grad=is_train, device=shim.device)
+    # Only floating-point tensors can require gradients.
+    xp2torch_ = lambda x: xp2torch(
+        x, requires_grad=is_train and x.dtype.kind == "f", device=shim.device
+    )
     converted = convert_recursive(is_xp_array, xp2torch_, X)
     if isinstance(converted, ArgsKwargs):
 
@@ -281,11 +284,38 @@ def convert_pytorch_default_outputs(model: Model, X_Ytorch: Any, is_train: bool)
         dYtorch = convert_recursive(
             is_xp_array, partial(xp2torch, device=shim.device), dY
         )
-        return ArgsKwargs(args=((Ytorch,),), kwargs={"grad_tensors": dYtorch})
+        if is_torch_array(Ytorch):
+            return ArgsKwargs(args=((Ytorch,),), kwargs={"grad_tensors": dYtorch})
+        # The model returned several outputs. Leave out those that don't have a
+        # gradient, as there's nothing to backpropagate through them.
+        pairs = list(_iterate_gradients(Ytorch, dYtorch))
+        outputs = tuple(y for y, _ in pairs)
+        return ArgsKwargs(
+            args=(outputs,), kwargs={"grad_tensors": [dy for _, dy in pairs]}
+        )
 
     return Y, reverse_conversion
 
 
+def _iterate_gradients(Ytorch: Any, dYtorch: Any):
+    """Yield the output tensors together with their gradients."""
+    if dYtorch is None:
+        return
+    elif is_torch_array(Ytorch):
+        if Ytorch.requires_grad:
+            yield Ytorch, dYtorch
+    elif isinstance(Ytorch, dict):
+        for key, value in Ytorch.items():
+            yield from _iterate_gradients(value, dYtorch[key])
+    elif isinstance(Ytorch, (list, tuple)):
+        if len(Ytorch) != len(dYtorch):
+            raise ValueError(
+                f"Expected {len(Ytorch)} output gradients, but got {len(dYtorch)}"
+            )
+        for value, d_value in zip(Ytorch, dYtorch):
+            yield from _iterate_gradients(value, d_value)
+
+
 # BiLSTM conversion functions
 
 
-- 
2.43.0


From 990f9b2c7869c692722218fac7fbabf36a032901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:32 +0000
Subject: [PATCH 73/91] fix: don't scale gradients in-place in the PyTorch shim

---
 thinc/shims/pytorch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 4922695..4948864 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -138,8 +138,10 @@ class PyTorchShim(Shim):
             # by the same factor (see the chain rule). Therefore, we scale the gradients
             # backprop'ed through the succeeding layer to get the same effect as loss
             # scaling.
+            # The gradients may share their memory with arrays that the caller still
+            # uses, so they must not be changed in-place.
             grads.kwargs["grad_tensors"] = self._grad_scaler.scale(
-                grads.kwargs["grad_tensors"], inplace=True
+                grads.kwargs["grad_tensors"], inplace=False
             )
 
             torch.autograd.backward(*grads.args, **grads.kwargs)
-- 
2.43.0


From 3581c019d4d24db111e0af8f55ddc732dd0c2473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:45 +0000
Subject: [PATCH 74/91] fix: unscale only the new gradients in the PyTorch shim

---
 thinc/shims/pytorch.py             | 11 +++++++++++
 thinc/shims/pytorch_grad_scaler.py |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 4948864..cd6818e 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -144,6 +144,14 @@ class PyTorchShim(Shim):
                 grads.kwargs["grad_tensors"], inplace=False
             )
 
+            # Gradients that were accumulated by earlier calls are not scaled, so set
+            # them aside until the new gradients are unscaled.
+            accumulated = []
+            if self._grad_scaler.enabled:
+                for param in self._model.parameters():
+                    accumulated.append((param, param.grad))
+                    param.grad = None
+
             torch.autograd.backward(*grads.args, **grads.kwargs)
 
             # Unscale weights and check for overflows during backprop.
@@ -155,6 +163,9 @@ class PyTorchShim(Shim):
                 if torch_data.grad is not None:
                     grad_tensors.append(torch_data.grad)
             found_inf = self._grad_scaler.unscale(grad_tensors)
+            for param, grad in accumulated:
+                if grad is not None:
+                    param.grad = grad if param.grad is None else param.grad + grad
 
             # If there was an over/underflow, return zeroed-out gradients.
             if found_inf:
diff --git a/thinc/shims/pytorch_grad_scaler.py b/thinc/shims/pytorch_grad_scaler.py
index 8db11bc..ae050b4 100644
--- a/thinc/shims/pytorch_grad_scaler.py
+++ b/thinc/shims/pytorch_grad_scaler.py
@@ -129,6 +129,10 @@ class PyTorchGradScaler:
 
         return tensors_per_device
 
+    @property
+    def enabled(self):
+        return self._enabled
+
     @property
     def found_inf(self):
         return self._found_inf
-- 
2.43.0


From 54e8d7311642f5f0c4e8ac4514406ab570cc77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:45 +0000
Subject: [PATCH 75/91] fix: make copies of TorchScript models trainable

---
 thinc/shims/torchscript.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/thinc/shims/torchscript.py b/thinc/shims/torchscript.py
index 9d413f9..54c1f6e 100644
--- a/thinc/shims/torchscript.py
+++ b/thinc/shims/torchscript.py
@@ -44,6 +44,17 @@ class TorchScriptShim(PyTorchShim):
 
         super().__init__(model, config, optimizer, mixed_precision, grad_scaler, device)
 
+    def copy(self):
+        copied = super().copy()
+        if self._model is not None:
+            # The parameters of a deep copy of a ScriptModule are not leaf tensors,
+            # so they wouldn't get any gradients.
+            filelike = BytesIO()
+            torch.jit.save(self._model, filelike)
+            filelike.seek(0)
+            copied._model = torch.jit.load(filelike)
+        return copied
+
     def to_bytes(self):
         filelike = BytesIO()
         torch.jit.save(self._model, filelike)
-- 
2.43.0


From 7ad6f143dd21b5d4164980dc1da90fa431dcf3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:15 +0000
Subject: [PATCH 76/91] fix: PyTorchWrapper.v2 and v3 can be built from a
 config

---
 thinc/layers/pytorchwrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/pytorchwrapper.py b/thinc/layers/pytorchwrapper.py
index 143a595..7fdf506 100644
--- a/thinc/layers/pytorchwrapper.py
+++ b/thinc/layers/pytorchwrapper.py
@@ -83,7 +83,7 @@ def PyTorchWrapper_v2(
     convert_outputs: Optional[Callable] = None,
     mixed_precision: bool = False,
     grad_scaler: Optional[PyTorchGradScaler] = None,
-    device: Optional["torch.device"] = None,
+    device: Optional[Any] = None,
 ) -> Model[Any, Any]:
     """Wrap a PyTorch model, so that it has the same API as Thinc models.
     To optimize the model, you'll need to create a PyTorch optimizer and call
@@ -140,12 +140,12 @@ def PyTorchWrapper_v2(
 
 @registry.layers("PyTorchWrapper.v3")
 def PyTorchWrapper_v3(
-    pytorch_model: "torch.nn.Module",
+    pytorch_model: Any,
     convert_inputs: Optional[Callable] = None,
     convert_outputs: Optional[Callable] = None,
     mixed_precision: bool = False,
     grad_scaler: Optional[PyTorchGradScaler] = None,
-    device: Optional["torch.device"] = None,
+    device: Optional[Any] = None,
     serialize_model: Optional[Callable[[Any], bytes]] = None,
     deserialize_model: Optional[Callable[[Any, bytes, "torch.device"], Any]] = None,
 ) -> Model[Any, Any]:
-- 
2.43.0


From 966cfa99062449aaf516fe5ad3fc74c862e1aeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:25 +0000
Subject: [PATCH 77/91] fix: validation accepts only Ragged, Padded and other
 batch objects where they are declared

---
 thinc/types.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/thinc/types.py b/thinc/types.py
index b9e249f..a841fea 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1099,6 +1099,11 @@ class SizedGenerator:
     get_items: Callable[[], Generator]
     length: int
 
+    @classmethod
+    def __get_validators__(cls):
+        """Runtime validation for pydantic."""
+        yield lambda v: validate_instance(v, cls)
+
     def __len__(self):
         return self.length
 
@@ -1120,6 +1125,11 @@ class Padded:
     lengths: Ints1d
     indices: Ints1d
 
+    @classmethod
+    def __get_validators__(cls):
+        """Runtime validation for pydantic."""
+        yield lambda v: validate_instance(v, cls)
+
     def copy(self):
         return Padded(
             self.data.copy(),
@@ -1166,6 +1176,11 @@ class Ragged:
     data_shape: Tuple[int, ...]
     starts_ends: Optional[Ints1d] = None
 
+    @classmethod
+    def __get_validators__(cls):
+        """Runtime validation for pydantic."""
+        yield lambda v: validate_instance(v, cls)
+
     def __init__(self, data: _Array, lengths: Ints1d):
         self.lengths = lengths
         # Frustratingly, the -1 dimension doesn't work with 0 size...
@@ -1235,6 +1250,11 @@ class Pairs(Generic[_P]):
     one: _P
     two: _P
 
+    @classmethod
+    def __get_validators__(cls):
+        """Runtime validation for pydantic."""
+        yield lambda v: validate_instance(v, cls)
+
     def __getitem__(self, index) -> "Pairs[_P]":
         return Pairs(self.one[index], self.two[index])
 
@@ -1252,6 +1272,11 @@ class ArgsKwargs:
     args: Tuple[Any, ...]
     kwargs: Dict[str, Any]
 
+    @classmethod
+    def __get_validators__(cls):
+        """Runtime validation for pydantic."""
+        yield lambda v: validate_instance(v, cls)
+
     @classmethod
     def from_items(cls, items: Sequence[Tuple[Union[int, str], Any]]) -> "ArgsKwargs":
         """Create an ArgsKwargs object from a sequence of (key, value) tuples,
@@ -1292,6 +1317,14 @@ class Unserializable:
     obj: Any
 
 
+def validate_instance(obj, cls):
+    """Runtime validator for pydantic to validate batch types. Without it, pydantic
+    would try to create the dataclass from lists, tuples and dictionaries."""
+    if not isinstance(obj, cls):
+        raise TypeError(f"not a valid {cls.__name__}")
+    return obj
+
+
 def validate_array(obj, ndim=None, dtype=None):
     """Runtime validator for pydantic to validate array types."""
     xp = get_array_module(obj)
-- 
2.43.0


From a15bb952d586f0647dce09d7147be4c40943793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:36 +0000
Subject: [PATCH 78/91] fix: declare the summed type of two-dimensional integer
 arrays like the other array types

---
 thinc/types.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index a841fea..a9c335a 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -699,12 +699,15 @@ class Ints2d(_Array2d, _Ints):
 
     @overload
     @abstractmethod
-    def sum(self, keepdims: Fal = False, axis: int = -1, out: Optional["Ints1d"] = None) -> Ints1d: ...
+    def sum(self, *, keepdims: Tru, axis: _2_AllAx = None, out: Optional["Ints2d"] = None) -> "Ints2d": ...
     @overload
     @abstractmethod
-    def sum(self, keepdims: Tru, axis: int = -1, out: Optional["Ints2d"] = None) -> "Ints2d": ...
+    def sum(self, *, keepdims: Fal = False, axis: OneAx, out: Optional[Ints1d] = None) -> Ints1d: ...
+    @overload
+    @abstractmethod
+    def sum(self, *, keepdims: Fal = False, axis: Optional[TwoAx] = None, out = None) -> int: ...
     @abstractmethod
-    def sum(self, keepdims: bool = False, axis: int = -1, out: Optional[Union["Ints1d", "Ints2d"]] = None) -> Union["Ints2d", Ints1d]: ...
+    def sum(self, *, keepdims: bool = False, axis: _2_AllAx = None, out: Union[None, Ints1d, "Ints2d"] = None) -> _2I_ReduceResults: ...
 
 
 class _Array3d(_Array):
-- 
2.43.0


From e24f6f40f24d0f5bf9e851a01cfc9b8b4c8b7750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:00 +0000
Subject: [PATCH 79/91] fix: return the generic reductions' results on the GPU

---
 thinc/backends/cupy_ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thinc/backends/cupy_ops.py b/thinc/backends/cupy_ops.py
index 472b6c5..ab47c88 100644
--- a/thinc/backends/cupy_ops.py
+++ b/thinc/backends/cupy_ops.py
@@ -287,19 +287,19 @@ class CupyOps(Ops):
         if X.dtype in ("float32", "float64") and lengths.dtype == "int32":
             return _custom_kernels.reduce_mean(X, lengths=lengths)
         else:
-            super().reduce_mean(X, lengths)
+            return super().reduce_mean(X, lengths)
 
     def backprop_reduce_mean(self, d_means, lengths):
         if d_means.dtype in ("float32", "float64") and lengths.dtype == "int32":
             return _custom_kernels.backprop_reduce_mean(d_means, lengths)
         else:
-            super().backprop_reduce_mean(d_means, lengths)
+            return super().backprop_reduce_mean(d_means, lengths)
 
     def reduce_max(self, X, lengths):
         if X.dtype in ("float32", "float64") and lengths.dtype == "int32":
             return _custom_kernels.reduce_max(X, lengths)
         else:
-            super().reduce_max(X, lengths)
+            return super().reduce_max(X, lengths)
 
     def backprop_reduce_max(self, d_maxes, which, lengths):
         if (
@@ -309,7 +309,7 @@ class CupyOps(Ops):
         ):
             return _custom_kernels.backprop_reduce_max(d_maxes, which, lengths)
         else:
-            super().backprop_reduce_max(d_maxes, which, lengths)
+            return super().backprop_reduce_max(d_maxes, which, lengths)
 
     def reduce_sum(self, X, lengths):
         if X.dtype in ("float32", "float64") and lengths.dtype == "int32":
-- 
2.43.0


From a94e6493ffdd4673e20ebc2bb8a8486c72040d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:00 +0000
Subject: [PATCH 80/91] fix: run the CUDA kernels on contiguous arrays

---
 thinc/backends/_custom_kernels.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/thinc/backends/_custom_kernels.py b/thinc/backends/_custom_kernels.py
index fa83701..7265c77 100644
--- a/thinc/backends/_custom_kernels.py
+++ b/thinc/backends/_custom_kernels.py
@@ -93,9 +93,15 @@ class LazyKernel:
         self._kernel = None
         self._compile_callback = compile_callback
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, grid, block, args, **kwargs):
         self._compile_kernel()
-        self._kernel(*args, **kwargs)
+        # The kernels address the memory of their arguments as C contiguous arrays.
+        contiguous = tuple(_as_contig(arg) for arg in args)
+        self._kernel(grid, block, contiguous, **kwargs)
+        # The first argument is the output. It is only not contiguous when an
+        # operation works in place.
+        if contiguous[0] is not args[0]:
+            args[0][...] = contiguous[0]
 
     def _compile_kernel(self):
         if self._kernel is not None:
@@ -181,9 +187,15 @@ def _alloc(shape, dtype, *, zeros: bool = True):
 
 def _alloc_like(array, zeros: bool = True):
     if zeros:
-        return cupy.zeros_like(array)
+        return cupy.zeros_like(array, order="C")
     else:
-        return cupy.empty_like(array)
+        return cupy.empty_like(array, order="C")
+
+
+def _as_contig(arg):
+    if isinstance(arg, cupy.ndarray) and not arg.flags["C_CONTIGUOUS"]:
+        return cupy.ascontiguousarray(arg)
+    return arg
 
 
 def pad(seqs, round_to=1, *, threads_per_block=128, num_blocks=128):
-- 
2.43.0


From aa34534dcffed871902d67ebc808b2692813c482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:00 +0000
Subject: [PATCH 81/91] fix: check the range of GPU table ids before narrowing
 them

---
 thinc/backends/_custom_kernels.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/thinc/backends/_custom_kernels.py b/thinc/backends/_custom_kernels.py
index 7265c77..52fffe2 100644
--- a/thinc/backends/_custom_kernels.py
+++ b/thinc/backends/_custom_kernels.py
@@ -298,8 +298,8 @@ def gather_add(table, indices, *, threads_per_block=128, num_blocks=128):
             f"gather_add expects indices with dimensionality 2, was: {indices.ndim}"
         )
     _is_float_array(table)
-    indices = indices.astype("int32")
     _check_indices(indices, table.shape[0])
+    indices = indices.astype("int32")
 
     B = indices.shape[0]
     K = indices.shape[1]
@@ -853,8 +853,6 @@ def _check_lengths(lengths, n_elems: int, *, min_length=0):
 
 
 def _check_indices(indices, n: int):
-    assert indices.dtype == "int32", "indices should be encoded as 32-bit integers"
-
     if not _values_within_range(indices, 0, n):
         raise IndexError(f"index out of bounds, must be >= 0 && < {n}")
 
-- 
2.43.0


From b6f8f296f4735a400ca5a0cedf7115ed26b71873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:12 +0000
Subject: [PATCH 82/91] fix: run the LSTM of the base backend on GPU lengths

---
 thinc/backends/ops.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index ceb71de..dd8001e 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1472,7 +1472,9 @@ def lstm_forward_training(
     xp = get_array_module(params)
     depth, dirs, nO = c_init.shape
     N, nI = X.shape
-    batch_size = lengths[0]
+    # Work on numbers: the elements of a GPU array would be arrays themselves.
+    batch_sizes = [int(size) for size in lengths]
+    batch_size = batch_sizes[0]
     # Preallocate these so we can pass them through for loop.
     G = cast(Floats4d, xp.zeros((depth, dirs, X.shape[0], nO * 4), dtype="f"))
     Y = cast(Floats4d, xp.zeros((depth, dirs, X.shape[0], nO), dtype="f"))
@@ -1482,7 +1484,7 @@ def lstm_forward_training(
     # Compute the start and end indices first.
     indices = []
     start = 0
-    for batch_size in lengths:
+    for batch_size in batch_sizes:
         indices.append((start, start + batch_size))
         start += batch_size
     params_i = 0
@@ -1589,7 +1591,8 @@ def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tu
     # Similarly, we want to compute the indices first
     indices = []
     start = 0
-    for batch_size in lengths:
+    batch_sizes = [int(size) for size in lengths]
+    for batch_size in batch_sizes:
         indices.append((start, start + batch_size))
         start += batch_size
 
-- 
2.43.0


From 8d1c3fe43ec7e2b42977f084d298d4aac180190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:12 +0000
Subject: [PATCH 83/91] fix: return the gradients of with_cpu on the device

---
 thinc/layers/with_cpu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/with_cpu.py b/thinc/layers/with_cpu.py
index 190a4f8..7441590 100644
--- a/thinc/layers/with_cpu.py
+++ b/thinc/layers/with_cpu.py
@@ -6,6 +6,7 @@ from thinc.backends import Ops
 
 from ..config import registry
 from ..model import Model
+from ..util import convert_recursive, is_numpy_array
 
 
 @registry.layers("with_cpu.v1")
@@ -27,7 +28,8 @@ def forward(model: Model, X: Any, is_train: bool) -> Tuple[Any, Callable]:
 
     def with_cpu_backprop(d_outputs):
         cpu_d_outputs = _to_cpu(d_outputs)
-        return backprop(cpu_d_outputs)
+        cpu_d_inputs = backprop(cpu_d_outputs)
+        return convert_recursive(is_numpy_array, model.ops.asarray, cpu_d_inputs)
 
     return gpu_outputs, with_cpu_backprop
 
-- 
2.43.0


From 60ab6d41d84dc8220f301125ee5d74828c917741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:44 +0000
Subject: [PATCH 84/91] fix: move the state of optimizers with to_gpu and
 to_cpu, as documented

---
 thinc/optimizers.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index cf84c01..b096e41 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -4,7 +4,7 @@ from collections import defaultdict
 from types import GeneratorType
 from typing import Any, Dict, List, Optional, Tuple, Union, cast
 
-from .backends import get_array_ops
+from .backends import CupyOps, NumpyOps, get_array_ops
 from .config import registry
 from .schedules import Schedule, constant
 from .types import FloatsXd, Generator
@@ -206,6 +206,20 @@ class Optimizer(object):
             err = f"Invalid schedule for '{name}' ({type(value)})"
             raise ValueError(err)
 
+    def to_gpu(self):
+        """Transfer the state of the optimizer to the GPU."""
+        self._to_ops(CupyOps())
+
+    def to_cpu(self):
+        """Transfer the state of the optimizer to CPU."""
+        self._to_ops(NumpyOps())
+
+    def _to_ops(self, ops):
+        for state in (self.mom1, self.mom2, self.averages):
+            if state is not None:
+                for key, value in state.items():
+                    state[key] = ops.asarray(value)
+
     def step_schedules(self):
         self._step += 1
 
-- 
2.43.0


From f7d771b6600e84ae678c887f81259d95e8fc00cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:44 +0000
Subject: [PATCH 85/91] fix: return the device from Model.to_gpu, as documented

---
 thinc/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index 2c59833..c0baf00 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -535,12 +535,14 @@ class Model(Generic[InT, OutT]):
             copied.set_grad(name, self.get_grad(name).copy())
         return cast(SelfT, copied)
 
-    def to_gpu(self, gpu_id: int) -> None:  # pragma: no cover
-        """Transfer the model to a given GPU device."""
+    def to_gpu(self, gpu_id: int):  # pragma: no cover
+        """Transfer the model to a given GPU device. Returns the device."""
         import cupy.cuda.device
 
-        with cupy.cuda.device.Device(gpu_id):
+        device = cupy.cuda.device.Device(gpu_id)
+        with device:
             self._to_ops(CupyOps())
+        return device
 
     def to_cpu(self) -> None:  # pragma: no cover
         """Transfer the model to CPU."""
-- 
2.43.0


From d0780305644b5114e259be450ebd6d455a87fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:08 +0000
Subject: [PATCH 86/91] fix: keep the types of parameters and gradients when a
 model is moved

---
 thinc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index c0baf00..f9da066 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -554,9 +554,9 @@ class Model(Generic[InT, OutT]):
             node.ops = ops
             for name in node.param_names:
                 if node.has_param(name):
-                    node.set_param(name, ops.asarray_f(node.get_param(name)))
+                    node.set_param(name, ops.asarray(node.get_param(name)))
                 if node.has_grad(name):
-                    node.set_grad(name, ops.asarray_f(node.get_grad(name)))
+                    node.set_grad(name, ops.asarray(node.get_grad(name)))
             for shim in node.shims:
                 shim.to_device(ops.device_type, ops.device_id)
 
-- 
2.43.0


From 676149c3577154c04a486e63662b895e9d448e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:51 +0000
Subject: [PATCH 87/91] fix: store the result of NumpyOps.gemm in an output
 array that is not contiguous

---
 thinc/backends/numpy_ops.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 3129680..4d6ee18 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -106,8 +106,10 @@ class NumpyOps(Ops):
         if out is not None:
             if out.ndim != 2 or out.shape[0] != nM or out.shape[1] != nN:
                 raise ValueError(f"Provided 'out' array should have shape {(nM, nN)}, but found {(<object>out).shape}.")
+            given = out
             out = self.as_contig(out)
         else:
+            given = None
             # Can be uninitialized as 'beta' is zero.
             out = numpy.empty((nM, nN), dtype=x.dtype)
 
@@ -131,6 +133,10 @@ class NumpyOps(Ops):
         else:
             raise ValueError(f"unsupported or mismatching array data types; got '{x.dtype}', '{y.dtype}', '{out.dtype}'")
 
+        if given is not None and given is not out:
+            # BLAS stored the result in a contiguous copy of the array.
+            given[...] = out
+            return given
         return out
 
     def relu(self, np.ndarray X, inplace=False):
-- 
2.43.0


From c999eb0c6901e24900a22b4e4f5cc1a2e56a2ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:51 +0000
Subject: [PATCH 88/91] fix: convert PyTorch tensors to the requested type in
 the base Ops.asarray

---
 thinc/backends/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index dd8001e..6d44a79 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -779,7 +779,8 @@ class Ops:
                 return self.xp.asarray(data, dtype=dtype)
         elif hasattr(data, "numpy"):
             # Handles PyTorch Tensor
-            return data.numpy()  # type: ignore[union-attr]
+            array = data.numpy()  # type: ignore[union-attr]
+            return array if dtype is None else self.xp.asarray(array, dtype=dtype)
         elif dtype is not None:
             return self.xp.array(data, dtype=dtype)
         else:
-- 
2.43.0


From cd4f449c2d98edcabb014137de0cec05b1b4cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:51 +0000
Subject: [PATCH 89/91] fix: convert arrays with negative strides to PyTorch

---
 thinc/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thinc/util.py b/thinc/util.py
index 5f31104..5bbe35f 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -416,6 +416,10 @@ def xp2torch(
     if device is None:
         device = get_torch_default_device()
 
+    if any(stride < 0 for stride in xp_tensor.strides):
+        # PyTorch does not support negative strides, e.g. of a reversed array.
+        xp_tensor = xp_tensor.copy()
+
     if hasattr(xp_tensor, "toDlpack"):
         dlpack_tensor = xp_tensor.toDlpack()  # type: ignore
         torch_tensor = torch.utils.dlpack.from_dlpack(dlpack_tensor)
-- 
2.43.0


From edac6b5152089bfd4e90d5c8843a995ce945bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:18 +0000
Subject: [PATCH 90/91] fix: keep the file on disk when saving a model over it
 fails

---
 thinc/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thinc/model.py b/thinc/model.py
index f9da066..8d11b7c 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -577,9 +577,11 @@ class Model(Generic[InT, OutT]):
         """Serialize the model to disk. Most models will serialize to a single
         file, which should just be the bytes contents of model.to_bytes().
         """
+        # Opening the file discards what it holds, so serialize the model first.
+        bytes_data = self.to_bytes()
         path = Path(path) if isinstance(path, str) else path
         with path.open("wb") as file_:
-            file_.write(self.to_bytes())
+            file_.write(bytes_data)
 
     def to_dict(self) -> Dict:
         """Serialize the model to a dict representation.
-- 
2.43.0


From fd4ea0889b80b4301d96fffb8110bd4863280483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:08 +0000
Subject: [PATCH 91/91] fix: keep accumulated gradients when a PyTorch backward
 pass fails

---
 thinc/shims/pytorch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index cd6818e..86fc747 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -152,7 +152,12 @@ class PyTorchShim(Shim):
                     accumulated.append((param, param.grad))
                     param.grad = None
 
-            torch.autograd.backward(*grads.args, **grads.kwargs)
+            try:
+                torch.autograd.backward(*grads.args, **grads.kwargs)
+            except BaseException:
+                for param, grad in accumulated:
+                    param.grad = grad
+                raise
 
             # Unscale weights and check for overflows during backprop.
             grad_tensors = []
-- 
2.43.0

