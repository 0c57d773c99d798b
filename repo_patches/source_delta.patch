From 9ee7fe65c54fea41fcf82d8cfd6b0fb59c0e0de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:48 +0000
Subject: [PATCH 01/75] fix: memoized results are per protocol instance, graph,
 operand value and never of variables

---
 tf_encrypted/protocol/protocol.py | 40 +++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index aa820d7..99cd51a 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -6,6 +6,7 @@ from typing import Any
 from typing import Callable
 from typing import Optional
 
+import numpy as np
 import tensorflow as tf
 
 import tf_encrypted as tfe
@@ -81,14 +82,40 @@ def make_hashable(x):
         )
     elif isinstance(x, tf.TensorShape):
         return tuple(x.as_list())
+    elif isinstance(x, (bool, int, float)):
+        # 1, 1.0 and True are equal but do not mean the same operand
+        return (type(x), x)
+    elif isinstance(x, np.ndarray) and x.dtype != object:
+        return (np.ndarray, x.dtype.str, x.shape, x.tobytes())
+    elif isinstance(x, tf.Tensor):
+        return x.ref()
     else:
         try:
             hash(x)
             return x
         except TypeError:
-            # not safe
-            # collision may happen
-            return str(id(x)) + str(x)
+            # compare by identity; the reference keeps the id from being reused
+            return _ById(x)
+
+
+class _ById:
+    def __init__(self, x):
+        self.x = x
+
+    def __hash__(self):
+        return id(self.x)
+
+    def __eq__(self, other):
+        return isinstance(other, _ById) and self.x is other.x
+
+
+def reads_variable(x):
+    """Whether the contents of `x` can change between two uses."""
+    if isinstance(x, (tuple, list)):
+        return any(reads_variable(y) for y in x)
+    if isinstance(x, dict):
+        return any(reads_variable(y) for y in x.values())
+    return isinstance(x, (TFEVariable, tf.Variable))
 
 
 def memoize(func: Callable) -> Callable:
@@ -106,9 +133,14 @@ def memoize(func: Callable) -> Callable:
         if get_config().debug:
             return func(self, *args, **kwargs)
 
+        if reads_variable(args) or reads_variable(kwargs):
+            return func(self, *args, **kwargs)
+
         hashable_args = make_hashable(args)
         hashable_kwargs = make_hashable(kwargs)
-        node_key = (func.__name__, hashable_args, hashable_kwargs)
+        # results live in one protocol instance and one graph (None: eager)
+        graph = None if tf.executing_eagerly() else tf.compat.v1.get_default_graph()
+        node_key = (func.__name__, self, graph, hashable_args, hashable_kwargs)
 
         cached_result = nodes.get(node_key, None)
         if cached_result is not None:
-- 
2.43.0


From f2d7fed8f750f9b04a9f95492ba02fc9ca7c7e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:07 +0000
Subject: [PATCH 02/75] fix: pond/securenn cached results are keyed by all
 arguments of the operation

---
 tf_encrypted/protocol/pond/pond.py         | 55 +++-------------------
 tf_encrypted/protocol/securenn/securenn.py | 10 +---
 2 files changed, 7 insertions(+), 58 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 7b11193..1aab23b 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -48,7 +48,6 @@ from ..protocol import TFEPublicVariable
 from ..protocol import TFETensor
 from ..protocol import TFETensorBone
 from ..protocol import memoize
-from ..protocol import nodes
 from .triple_sources import BaseTripleSource
 from .triple_sources import OnlineTripleSource
 
@@ -989,25 +988,19 @@ class Pond(Protocol):
         x, y = self.lift(x, y)
         return self.dispatch("sub", x, y)
 
+    @memoize
     def mask(self, x):
         """Convert to a PondMaskedTensor."""
         if isinstance(x, (list, tuple)):
             # apply recursively
             return [self.mask(xi) for xi in x]
 
-        node_key = ("mask", x)
-        x_masked = nodes.get(node_key, None)
-
-        if x_masked is not None:
-            return x_masked
-
         if isinstance(x, PondPrivateTensor):
             x_masked = _mask_private(self, x)
 
         else:
             raise TypeError("Don't know how to mask {}".format(type(x)))
 
-        nodes[node_key] = x_masked
         return x_masked
 
     @memoize
@@ -1070,6 +1063,7 @@ class Pond(Protocol):
     def indexer(self, x: "PondTensor", slc) -> "PondTensor":
         return self.dispatch("indexer", x, slc)
 
+    @memoize
     def transpose(self, x, perm=None) -> "PondTensor":
         """
         transpose(x, perm=None) -> PondTensor
@@ -1080,12 +1074,6 @@ class Pond(Protocol):
         :param List perm: A permutation of axis indices.
         """
 
-        node_key = ("transpose", x)
-        x_t = nodes.get(node_key, None)
-
-        if x_t is not None:
-            return x_t
-
         if isinstance(x, PondPublicTensor):
             x_t = _transpose_public(self, x, perm=perm)
 
@@ -1098,7 +1086,6 @@ class Pond(Protocol):
         else:
             raise TypeError("Don't know how to transpose {}".format(type(x)))
 
-        nodes[node_key] = x_t
         return x_t
 
     @memoize
@@ -1164,6 +1151,7 @@ class Pond(Protocol):
 
         raise TypeError("Don't know how to squeeze {}".format(type(x)))
 
+    @memoize
     def strided_slice(self, x: "PondTensor", *args: Any, **kwargs: Any):
         """
         strided_slice(x, *args, **kwargs) -> PondTensor
@@ -1172,27 +1160,17 @@ class Pond(Protocol):
         documentation.
         """
 
-        node_key = ("strided_slice", x)
-
-        x_sliced = nodes.get(node_key, None)
-
-        if x_sliced is not None:
-            return x_sliced
-
         if isinstance(x, PondPublicTensor):
             x_sliced = _strided_slice_public(self, x, args, kwargs)
         elif isinstance(x, PondPrivateTensor):
             x_sliced = _strided_slice_private(self, x, args, kwargs)
         elif isinstance(x, PondMaskedTensor):
             x_sliced = _strided_slice_masked(self, x, args, kwargs)
-            nodes[("strided_slice", x.unmasked)] = x_sliced.unmasked
         else:
             raise TypeError(
                 ("Don't know how to do a strided slice on " " {}").format(type(x))
             )
 
-        nodes[node_key] = x_sliced
-
         return x_sliced
 
     @memoize
@@ -1205,15 +1183,10 @@ class Pond(Protocol):
     ) -> List["PondTensor"]:
         return self.dispatch("split", x, num_split, axis=axis)
 
+    @memoize
     def stack(self, xs: List["PondTensor"], axis=0):
         """See tf.stack."""
 
-        node_key = ("stack", tuple(xs))
-        xs_stack = nodes.get(node_key, None)
-
-        if xs_stack is not None:
-            return xs_stack
-
         if all([isinstance(x, PondPublicTensor) for x in xs]):
             xs_stack = _stack_public(self, xs, axis=axis)
 
@@ -1225,8 +1198,6 @@ class Pond(Protocol):
         else:
             raise TypeError("Don't know how to do a stack {}".format(type(xs)))
 
-        nodes[node_key] = xs_stack
-
         return xs_stack
 
     @memoize
@@ -1376,15 +1347,10 @@ class Pond(Protocol):
     def identity(self, x):
         return self.dispatch("identity", x)
 
+    @memoize
     def conv2d(self, x, w, strides, padding):
         """See tf.nn.conv2d."""
 
-        node_key = ("conv2d", x, w, strides, padding)
-        z = nodes.get(node_key, None)
-
-        if z is not None:
-            return z
-
         dispatch = {
             (PondPublicTensor, PondPublicTensor): _conv2d_public_public,
             (PondPublicTensor, PondPrivateTensor): _conv2d_public_private,
@@ -1404,21 +1370,14 @@ class Pond(Protocol):
             )
 
         z = func(self, x, w, strides, padding)
-        nodes[node_key] = z
-
         return z
 
     def maxpool2d(self, x, pool_size, strides, padding):
         raise NotImplementedError("Only SecureNN supports Max Pooling")
 
+    @memoize
     def avgpool2d(self, x, pool_size, strides, padding):
         """See tf.nn.avgpool2d."""
-        node_key = ("avgpool2d", x, tuple(pool_size), tuple(strides), padding)
-        z = nodes.get(node_key, None)
-
-        if z is not None:
-            return z
-
         dispatch = {
             PondPublicTensor: _avgpool2d_public,
             PondPrivateTensor: _avgpool2d_private,
@@ -1430,8 +1389,6 @@ class Pond(Protocol):
             raise TypeError("Don't know how to avgpool2d {}".format(type(x)))
 
         z = func(self, x, pool_size, strides, padding)
-        nodes[node_key] = z
-
         return z
 
     def batch_to_space(self, x, block_shape, crops):
diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 09eece2..767aee9 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -24,7 +24,6 @@ from tf_encrypted.protocol.pond import PondPrivateTensor
 from tf_encrypted.protocol.pond import PondPublicTensor
 from tf_encrypted.protocol.pond import PondTensor
 from tf_encrypted.protocol.pond import _type
-from tf_encrypted.protocol.protocol import nodes
 from tf_encrypted.protocol.securenn.odd_tensor import oddint64_factory
 from tf_encrypted.tensor import int64factory
 from tf_encrypted.tensor import native_factory
@@ -406,6 +405,7 @@ class SecureNN(Pond):
         result, _ = self.relu_with_cmp(x, **kwargs)
         return result
 
+    @memoize
     def maxpool2d(self, x, pool_size, strides, padding):
         """
         maxpool2d(x, pool_size, strides, padding) -> PondTensor
@@ -418,12 +418,6 @@ class SecureNN(Pond):
           convolution.
         :param str padding: Which type of padding to use ("SAME" or "VALID").
         """
-        node_key = ("maxpool2d", x, tuple(pool_size), tuple(strides), padding)
-        z = nodes.get(node_key, None)
-
-        if z is not None:
-            return z
-
         dispatch = {
             PondPublicTensor: _maxpool2d_public,
             PondPrivateTensor: _maxpool2d_private,
@@ -435,8 +429,6 @@ class SecureNN(Pond):
             raise TypeError("Don't know how to avgpool2d {}".format(type(x)))
 
         z = func(self, x, pool_size, strides, padding)
-        nodes[node_key] = z
-
         return z
 
     @memoize
-- 
2.43.0


From 6a40828b0293ef3e2a0b748314551f9ece99fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:40 +0000
Subject: [PATCH 03/75] fix: results computed from backing variables are not
 memoized

---
 tf_encrypted/protocol/protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 99cd51a..1140709 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -13,6 +13,7 @@ import tf_encrypted as tfe
 
 from ..config import get_config
 from ..tensor.factory import AbstractTensor
+from ..tensor.factory import AbstractVariable
 
 nodes = dict()
 
@@ -115,7 +116,7 @@ def reads_variable(x):
         return any(reads_variable(y) for y in x)
     if isinstance(x, dict):
         return any(reads_variable(y) for y in x.values())
-    return isinstance(x, (TFEVariable, tf.Variable))
+    return isinstance(x, (TFEVariable, AbstractVariable, tf.Variable))
 
 
 def memoize(func: Callable) -> Callable:
-- 
2.43.0


From 187b1e35d825745685df5994012bb81a351d0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:40 +0000
Subject: [PATCH 04/75] fix: pond private-public matmul sent the second share
 to the first server

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 1aab23b..10ca5af 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3106,7 +3106,7 @@ def _matmul_private_public(prot, x, y):
         with tf.device(prot.server_0.device_name):
             z0 = x0.matmul(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z1 = x1.matmul(y_on_1)
 
         z = PondPrivateTensor(prot, z0, z1, x.is_scaled or y.is_scaled)
-- 
2.43.0


From 0861a57fd6c25452041a97f20274218b92899b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:40 +0000
Subject: [PATCH 05/75] fix: pond public equal computed the second server's
 copy on the first

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 10ca5af..9393f0f 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -4429,7 +4429,7 @@ def _equal_public_public(
         with tf.device(prot.server_0.device_name):
             z_on_0 = x_on_0.equal(y_on_0)
 
-        with tf.device(prot.server_0.device_name):
+        with tf.device(prot.server_1.device_name):
             z_on_1 = x_on_1.equal(y_on_1)
 
         return PondPublicTensor(prot, z_on_0, z_on_1, False)
-- 
2.43.0


From 40ea2ee82114ddbb7ee93330cb14cde11aaa0a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:40 +0000
Subject: [PATCH 06/75] fix: pond squeeze of a masked tensor

---
 tf_encrypted/protocol/pond/pond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 9393f0f..5c73fcf 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -4384,11 +4384,11 @@ def _squeeze_masked(
 ) -> PondMaskedTensor:
     assert isinstance(x, PondMaskedTensor)
 
-    _, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
+    a, a0, a1, alpha_on_0, alpha_on_1 = x.unwrapped
 
     with tf.name_scope("squeeze"):
 
-        a_squeezed = prot.triple_source.squeeze_mask(axis=axis)
+        a_squeezed = prot.triple_source.squeeze_mask(a, axis=axis)
 
         with tf.device(prot.server_0.device_name):
             a0_squeezed = a0.squeeze(axis)
@@ -4400,7 +4400,7 @@ def _squeeze_masked(
 
         return PondMaskedTensor(
             prot,
-            prot.squeeze(x.unmasked),
+            prot.squeeze(x.unmasked, axis=axis),
             a_squeezed,
             a0_squeezed,
             a1_squeezed,
-- 
2.43.0


From f620e980f3edd85c0f49f5fd81123e016681bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:40 +0000
Subject: [PATCH 07/75] fix: pond strided_slice of a masked tensor

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 5c73fcf..4dce73f 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3675,7 +3675,7 @@ def _strided_slice_masked(prot, x: PondMaskedTensor, args: Any, kwargs: Any):
 
         return PondMaskedTensor(
             prot,
-            prot.strided_slice(x.unmasked, args, kwargs),
+            prot.strided_slice(x.unmasked, *args, **kwargs),
             a_slice,
             a0_slice,
             a1_slice,
-- 
2.43.0


From 3454c4a85247cfb621a9e9b6b561eaa74ab93ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:40 +0000
Subject: [PATCH 08/75] fix: pond division by a float

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 4dce73f..51f1bea 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1035,7 +1035,7 @@ class Pond(Protocol):
 
         if isinstance(y, float):
             y_inverse = 1.0 / y
-        if isinstance(y, int):
+        elif isinstance(y, int):
             y_inverse = 1.0 / float(y)
         elif isinstance(y, PondPublicTensor):
             y_inverse = self.reciprocal(y)
-- 
2.43.0


From 3eac8c6412c5afa8609e7829bd825763203c1073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:40 +0000
Subject: [PATCH 09/75] fix: pond encoding of a tensor without explicit integer
 type

---
 tf_encrypted/protocol/pond/pond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 51f1bea..3f9a9d6 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -744,8 +744,8 @@ class Pond(Protocol):
                 integers = np.array(scaled).astype(np.int64)
             elif isinstance(rationals, tf.Tensor):
                 tf_int_type = tf_int_type or (
-                    scaled.dtype
-                    if scaled.dtype in TF_INT_TYPES
+                    rationals.dtype
+                    if rationals.dtype in TF_INT_TYPES
                     else self.tensor_factory.native_type
                 )
                 assert tf_int_type in TF_INT_TYPES
-- 
2.43.0


From eda55239e685cf635fdb1ccbcc47fee29c9692d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:40 +0000
Subject: [PATCH 10/75] fix: pond padding of an unscaled tensor

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 3f9a9d6..a31c3c0 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1452,7 +1452,7 @@ class Pond(Protocol):
                 zval1 = tf.zeros(shape, dtype=backing_type.native_type)
                 zeros1 = backing_type.tensor(zval1)
 
-            return tensor_type(self, zeros0, zeros1, True)
+            return tensor_type(self, zeros0, zeros1, x.is_scaled)
 
         def prepend_zeros(tensor, pad_amt, axis):
 
-- 
2.43.0


From 993e67cf05c5f94febada85ad5f38b337b12154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:40 +0000
Subject: [PATCH 11/75] fix: reading a masked pond variable

---
 tf_encrypted/protocol/pond/pond.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index a31c3c0..96b1b96 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -2195,7 +2195,7 @@ class PondMaskedVariable(PondMaskedTensor, TFEPrivateVariable):
             alpha_on_1,
             is_scaled,
         )
-        self.var_a = a1
+        self.var_a = a
         self.var_a0 = a0
         self.var_a1 = a1
         self.var_alpha_on_0 = alpha_on_0
@@ -2214,7 +2214,14 @@ class PondMaskedVariable(PondMaskedTensor, TFEPrivateVariable):
             a1 = self.var_a1.read_value()
             alpha_on_1 = self.var_alpha_on_1.read_value()
         y = PondMaskedTensor(
-            self.prot, a, a0, a1, alpha_on_0, alpha_on_1, self.is_scaled
+            self.prot,
+            self.unmasked.read_value(),
+            a,
+            a0,
+            a1,
+            alpha_on_0,
+            alpha_on_1,
+            self.is_scaled,
         )
         return y
 
-- 
2.43.0


From c5ee3bfafafb0ab8f61ce1db45b1e2d2edea3783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:40 +0000
Subject: [PATCH 12/75] fix: masked output of a pond local computation, masked
 by the player and not the triple producer

---
 tf_encrypted/protocol/pond/pond.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 96b1b96..e126fae 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -555,8 +555,10 @@ class Pond(Protocol):
                 with tf.device(self.triple_source.producer.device_name):
                     seed0 = crypto.secure_seed()
                     seed1 = crypto.secure_seed()
-                    a = factory.sample_seeded_uniform(v.shape, seed0)
-                    +factory.sample_seeded_uniform(v.shape, seed1)
+                    a = factory.sample_seeded_uniform(
+                        v.shape, seed0
+                    ) + factory.sample_seeded_uniform(v.shape, seed1)
+                with tf.device(player.device_name):
                     alpha = w - a
                 with tf.device(self.server_0.device_name):
                     a0 = factory.sample_seeded_uniform(v.shape, seed0)
-- 
2.43.0


From ed4932e2da91f032557aafccdaebacd3dd9f1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:40 +0000
Subject: [PATCH 13/75] fix: pond average pooling by reshape used a removed
 TensorFlow class

---
 tf_encrypted/protocol/pond/pond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index e126fae..21dc8e9 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -3337,8 +3337,8 @@ def _avgpool2d_im2col_reduce(
 def _avgpool2d_reshape_reduce(x, pool_size: Tuple[int, int], *args):
     """Perform 2D average pooling by the reshape method."""
     del args
-    pool_height = tf.Dimension(pool_size[0])
-    pool_width = tf.Dimension(pool_size[1])
+    pool_height = pool_size[0]
+    pool_width = pool_size[1]
     n, c, h, w = x.shape
     return (
         x.reshape([n, c, h // pool_height, pool_height, w // pool_width, pool_width])
-- 
2.43.0


From dcd046744e1364d659e8c6de7bda2a5bd5413d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:46 +0000
Subject: [PATCH 14/75] fix: adding a pond tensor to a number

---
 tf_encrypted/protocol/pond/pond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 21dc8e9..2b4d7fa 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -1656,7 +1656,7 @@ class PondTensor(TFETensor):
         return self.prot.add(self, other)
 
     def __radd__(self, other):
-        return other.prot.add(other, self)
+        return self.prot.add(other, self)
 
     def reduce_sum(self, axis=None, keepdims=None):
         """
-- 
2.43.0


From 97f90bcd734639ae03847862d3b573b93fac87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:43 +0000
Subject: [PATCH 15/75] fix: 128 bits tensors count negative axes from the last
 logical axis

---
 tf_encrypted/tensor/int128.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 9e7abe5..dcea893 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -159,7 +159,7 @@ def int128_factory():  # pylint: disable=invalid-name
 
         def stack(self, xs: list, axis: int = 0):
             assert all(isinstance(x, Tensor) for x in xs)
-            axis = _lift_axis(axis, len(xs[0].shape))
+            axis = _lift_axis(axis, len(xs[0].shape) + 1)
 
             value = tf.stack([x.value for x in xs], axis=axis)
             return Tensor(value)
@@ -245,17 +245,14 @@ def int128_factory():  # pylint: disable=invalid-name
     def _lift_axis(axis, dims):
         if isinstance(axis, (list, tuple)):
             new_axis = []
-            for a in axis:
-                if a == -1:
-                    new_axis.append(dims - 1)
-                else:
-                    assert a < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
-                    new_axis.append(a)
-            return new_axis
-        if axis == -1:
-            return dims - 1
+            return [_lift_axis(a, dims) for a in axis]
         if axis is not None:
-            assert axis < dims, "# dimensions: {}, got axis: {}".format(dims, axis)
+            assert -dims <= axis < dims, "# dimensions: {}, got axis: {}".format(
+                dims, axis
+            )
+            if axis < 0:
+                # count from the last logical axis, not from the native one
+                axis += dims
         return axis
 
     FACTORY = Factory()  # pylint: disable=invalid-name
-- 
2.43.0


From 2f00a4c4c6ea5c109a4f67f4d29b5b7fa7f41cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:43 +0000
Subject: [PATCH 16/75] fix: indexing 128 bits tensors with an ellipsis

---
 tf_encrypted/tensor/int128.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index dcea893..e758df2 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -341,6 +341,10 @@ def int128_factory():  # pylint: disable=invalid-name
             return self.negative()
 
         def __getitem__(self, slc):
+            slc = slc if isinstance(slc, tuple) else (slc,)
+            if any(s is Ellipsis for s in slc):
+                # the ellipsis must not swallow the native axis
+                slc = slc + (slice(None),)
             return Tensor(self.value[slc])
 
         def add(self, other):
-- 
2.43.0


From 4d3d33d3ca743c488b926f4bab2936327b857020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:43 +0000
Subject: [PATCH 17/75] fix: padding of 128 bits tensors

---
 tf_encrypted/tensor/int128.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index e758df2..edc0095 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -189,8 +189,8 @@ def int128_factory():  # pylint: disable=invalid-name
             return Tensor(tf.zeros(new_shape, self.native_type))
 
         def pad(self, tensor, paddings):
-            paddings = paddings + [[0, 0]]
-            return Tensor(tf.pad(tensor.value), paddings)
+            paddings = list(paddings) + [[0, 0]]
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
-- 
2.43.0


From ac9f0c398b879b6fd973d203ee0d848fd1dc2d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:43 +0000
Subject: [PATCH 18/75] fix: tile and reverse of boolean tensors

---
 tf_encrypted/tensor/boolfactory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf_encrypted/tensor/boolfactory.py b/tf_encrypted/tensor/boolfactory.py
index af47629..b62e54a 100644
--- a/tf_encrypted/tensor/boolfactory.py
+++ b/tf_encrypted/tensor/boolfactory.py
@@ -154,6 +154,9 @@ def bool_factory():
             value = tf.where(condition, x.value, y.value)
             return Tensor(value)
 
+        def tile(self, input, multiples):
+            return Tensor(tf.tile(input.value, multiples))
+
     def _lift(x, y) -> Tuple["Tensor", "Tensor"]:  # noqa:F821
 
         if isinstance(x, Tensor) and isinstance(y, Tensor):
@@ -222,6 +225,9 @@ def bool_factory():
         def reshape(self, axes: Union[tf.Tensor, List[int]]):
             return Tensor(tf.reshape(self.value, axes))
 
+        def reverse(self, axis):
+            return Tensor(tf.reverse(self.value, axis))
+
         def equal(self, other, factory=None):
             x, y = _lift(self, other)
             factory = factory or FACTORY
-- 
2.43.0


From 0ee99654a282262c9caa72cb968300fb8ceecb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:43 +0000
Subject: [PATCH 19/75] fix: aby3 public addition is computed on the server
 owning the copy

---
 tf_encrypted/protocol/aby3/aby3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 4926c5b..1c28e81 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2225,7 +2225,8 @@ def _add_public_public(prot, x, y):
     z = [None] * 3
     with tf.name_scope("add"):
         for i in range(3):
-            z[i] = x_shares[i] + y_shares[i]
+            with tf.device(prot.servers[i].device_name):
+                z[i] = x_shares[i] + y_shares[i]
 
     return ABY3PublicTensor(prot, z, x.is_scaled)
 
-- 
2.43.0


From 6990d28a3adf9f00423dca79766314d9e908f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:43 +0000
Subject: [PATCH 20/75] fix: aby3 public zeros and ones

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 1c28e81..9e88f8d 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5388,7 +5388,7 @@ def _ones_public(prot, shape, apply_scaling, share_type, factory) -> ABY3PublicT
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.ones(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
@@ -5429,7 +5429,7 @@ def _zeros_public(prot, shape, apply_scaling, share_type, factory) -> ABY3Public
         with tf.device(prot.servers[2].device_name):
             x[2] = factory.tensor(prot._encode(tf.zeros(shape), apply_scaling))
 
-    x = ABY3PublicTensor(prot, x, apply_scaling, share_type)
+    x = ABY3PublicTensor(prot, x, apply_scaling)
     return x
 
 
-- 
2.43.0


From 5c46241204551a8f60e2a35e218d0a68f36ef21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:09 +0000
Subject: [PATCH 21/75] fix: aby3 multiplication and division of public tensors
 by powers of two

---
 tf_encrypted/protocol/aby3/aby3.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 9e88f8d..bcd33d1 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2692,6 +2692,10 @@ def _truncate_heuristic_private(
     return z
 
 
+def _truncate_heuristic_public(prot, x, amount):
+    return _truncate_local_public(prot, x, amount)
+
+
 def _truncate_local_public(prot, x, amount):
     assert isinstance(x, ABY3PublicTensor)
 
@@ -3246,6 +3250,23 @@ def _not_private(prot, x):
     return z
 
 
+def _lshift_public(prot, x, steps):
+    """
+    Left shift.
+    """
+    assert isinstance(x, ABY3PublicTensor), type(x)
+
+    x_shares = x.unwrapped
+
+    z = [None] * 3
+    with tf.name_scope("lshift"):
+        for i in range(3):
+            with tf.device(prot.servers[i].device_name):
+                z[i] = x_shares[i] << steps
+
+    return ABY3PublicTensor(prot, z, x.is_scaled)
+
+
 def _lshift_private(prot, x, steps):
     """
     Left shift.
-- 
2.43.0


From 86f2f00df47585cd75652f2587e066d6b56507ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:28 +0000
Subject: [PATCH 22/75] fix: aby3 local computations on public or boolean
 shared arguments

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index bcd33d1..8fe7cc8 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -605,13 +605,13 @@ class ABY3(Protocol):
                 return x
 
             if isinstance(x, ABY3PublicTensor):
-                w, _ = x.unwrapped
+                w = x.unwrapped[0]
                 v = self._decode(w, x.is_scaled)
                 return v
 
             if isinstance(x, ABY3PrivateTensor):
                 shares = x.unwrapped
-                w = self._reconstruct(shares, player, share_type)
+                w = self._reconstruct(shares, player, x.share_type)
                 v = self._decode(w, x.is_scaled)
                 return v
 
-- 
2.43.0


From 33efd6764aaa410f0769ee82154a0cdb8b287dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:28 +0000
Subject: [PATCH 23/75] fix: aby3 public input is copied to every server

---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 8fe7cc8..f84a55b 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -714,7 +714,11 @@ class ABY3(Protocol):
             )
             v = self._encode(v, apply_scaling)
             w = factory.tensor(v)
-            return ABY3PublicTensor(self, [w, w, w], apply_scaling)
+            ws = [None, None, None]
+            for i in range(3):
+                with tf.device(self.servers[i].device_name):
+                    ws[i] = w.identity()
+            return ABY3PublicTensor(self, ws, apply_scaling)
 
         with tf.name_scope("public-input{}".format(suffix)):
 
-- 
2.43.0


From 8a7f0519e10ed239e73cbb5df995fe6fd2795708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:07 +0000
Subject: [PATCH 24/75] fix: aby3 variables initialized from a tensor keep its
 scaling and share type

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index f84a55b..d1caa0b 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -375,6 +375,8 @@ class ABY3(Protocol):
 
             elif isinstance(initial_value, ABY3PublicTensor):
                 vs = initial_value.unwrapped
+                factory = vs[0].factory
+                apply_scaling = initial_value.is_scaled
 
             else:
                 raise TypeError(
@@ -435,6 +437,8 @@ class ABY3(Protocol):
 
             elif isinstance(initial_value, ABY3PrivateTensor):
                 shares = initial_value.unwrapped
+                apply_scaling = initial_value.is_scaled
+                share_type = initial_value.share_type
 
             else:
                 raise TypeError(
-- 
2.43.0


From a19dc7e86c3af128e27cc4ba6412cd37593f5d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:07 +0000
Subject: [PATCH 25/75] fix: pond variables initialized from a tensor keep its
 scaling

---
 tf_encrypted/protocol/pond/pond.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 2b4d7fa..1cf40c5 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -254,6 +254,7 @@ class Pond(Protocol):
 
             elif isinstance(initial_value, PondPublicTensor):
                 v_on_0, v_on_1 = initial_value.unwrapped
+                apply_scaling = initial_value.is_scaled
 
             else:
                 raise TypeError(
@@ -320,6 +321,7 @@ class Pond(Protocol):
 
             elif isinstance(initial_value, PondPublicTensor):
                 v_on_0, _ = initial_value.unwrapped
+                apply_scaling = initial_value.is_scaled
                 with tf.device(self.server_0.device_name):
                     # NOTE[Morten]
                     # we can alternatively avoid transfer of v1 from server0 and server1
@@ -328,6 +330,7 @@ class Pond(Protocol):
 
             elif isinstance(initial_value, PondPrivateTensor):
                 v0, v1 = initial_value.unwrapped
+                apply_scaling = initial_value.is_scaled
 
             else:
                 raise TypeError(
-- 
2.43.0


From 4071b4a2f56a0968b6ad5efcbdd824a5fdd2d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:25 +0000
Subject: [PATCH 26/75] fix: assigning to a boolean variable

---
 tf_encrypted/tensor/boolfactory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/tensor/boolfactory.py b/tf_encrypted/tensor/boolfactory.py
index b62e54a..d158572 100644
--- a/tf_encrypted/tensor/boolfactory.py
+++ b/tf_encrypted/tensor/boolfactory.py
@@ -296,11 +296,11 @@ def bool_factory():
 
         def assign(self, value: Union[Tensor, np.ndarray]) -> None:
             if isinstance(value, Tensor):
-                self.variable.assign(value.value)
-            if isinstance(value, np.ndarray):
-                self.variable.assign(value)
-
-            raise TypeError("Don't know how to handle {}".format(type(value)))
+                return self.variable.assign(value.value)
+            elif isinstance(value, np.ndarray):
+                return self.variable.assign(value)
+            else:
+                raise TypeError("Don't know how to handle {}".format(type(value)))
 
         def read_value(self) -> Tensor:
             return Tensor(self.variable.read_value())
-- 
2.43.0


From ed731321e212c19e079a20cde0819fd2c6964acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:54 +0000
Subject: [PATCH 27/75] fix: assigning to a CRT variable

---
 tf_encrypted/tensor/int100.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 4d98cfc..ce04ebf 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -814,11 +814,11 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             if isinstance(value, Tensor):
                 for (variable, vi) in zip(self.variables, value.backing):
                     variable.assign(vi)
-            if isinstance(value, np.ndarray):
+            elif isinstance(value, np.ndarray):
                 for (variable, vi) in zip(self.variables, value):
                     variable.assign(vi)
-
-            raise TypeError("Don't know how to handle {}".format(type(value)))
+            else:
+                raise TypeError("Don't know how to handle {}".format(type(value)))
 
         def read_value(self) -> Tensor:
             backing = [var.read_value() for var in self.variables]
-- 
2.43.0


From aad5ef55f1fcb8e5014b98846c9218eb2d5504fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:23 +0000
Subject: [PATCH 28/75] fix: CRT seeded sampling is uniform modulo each
 component's own modulus

---
 tf_encrypted/tensor/int100.py | 41 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index ce04ebf..be09355 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -236,28 +236,29 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             assert maxval is None
 
             if secure_random.supports_seeded_randomness():
-                shape = list(shape) + [len(MODULI)]
-                value = secure_random.seeded_random_uniform(
-                    shape=shape,
-                    dtype=INT_TYPE,
-                    minval=0,
-                    maxval=mi,
-                    seed=seed,
-                )
-                backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
+                # one stream per component, as each has its own modulus
+                backing = [
+                    secure_random.seeded_random_uniform(
+                        shape=shape,
+                        dtype=INT_TYPE,
+                        minval=0,
+                        maxval=mi,
+                        seed=seed + i,
+                    )
+                    for (i, mi) in enumerate(MODULI)
+                ]
                 return Tensor(backing)
             else:
-                shape = list(shape) + [len(MODULI)]
-                value = tf.random.stateless_uniform(
-                    shape=shape,
-                    dtype=INT_TYPE,
-                    minval=0,
-                    maxval=mi,
-                    seed=seed,
-                )
-                backing = tf.split(value, len(MODULI), axis=-1)
-                backing = [tf.squeeze(b, axis=-1) for b in backing]
+                backing = [
+                    tf.random.stateless_uniform(
+                        shape=shape,
+                        dtype=INT_TYPE,
+                        minval=0,
+                        maxval=mi,
+                        seed=seed + i,
+                    )
+                    for (i, mi) in enumerate(MODULI)
+                ]
                 return Tensor(backing)
 
         def sample_bounded(self, shape, bitlength: int):
-- 
2.43.0


From 9e73bab20f9dc1a363acf95d9e04d93ac07d2791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:04 +0000
Subject: [PATCH 29/75] fix: aby3 products of broadcast operands mask every
 element with its own randomness

---
 tf_encrypted/protocol/aby3/aby3.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index d1caa0b..8e77dcd 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2458,7 +2458,9 @@ def _mul_private_private(prot, x, y):
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("mul"):
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(
+            tf.broadcast_static_shape(x.shape, y.shape), factory=x.backing_dtype
+        )
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
@@ -2514,7 +2516,7 @@ def _mul_trunc2_private_private(prot, x, y):
 
     x_shares = x.unwrapped
     y_shares = y.unwrapped
-    shape = x_shares[0][0].shape
+    shape = tf.broadcast_static_shape(x.shape, y.shape)
     amount = prot.fixedpoint_config.precision_fractional
 
     with tf.name_scope("mul_trunc2"):
@@ -2526,7 +2528,7 @@ def _mul_trunc2_private_private(prot, x, y):
         r_trunc = prot.b2a(r_trunc)
 
         # Step 2: Compute 3-out-of-3 sharing of (x*y - r)
-        a0, a1, a2 = prot._gen_zero_sharing(x.shape)
+        a0, a1, a2 = prot._gen_zero_sharing(shape)
         with tf.device(prot.servers[0].device_name):
             z0 = (
                 x_shares[0][0] * y_shares[0][0]
@@ -3144,7 +3146,9 @@ def _and_private_private(prot: ABY3, x: ABY3PrivateTensor, y: ABY3PrivateTensor)
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("and"):
         a0, a1, a2 = prot._gen_zero_sharing(
-            x.shape, share_type=ShareType.BOOLEAN, factory=x.backing_dtype
+            tf.broadcast_static_shape(x.shape, y.shape),
+            share_type=ShareType.BOOLEAN,
+            factory=x.backing_dtype,
         )
 
         with tf.device(prot.servers[0].device_name):
-- 
2.43.0


From ad3bad3069de1fe953cd404dd66ee10bb03daf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:04 +0000
Subject: [PATCH 30/75] fix: aby3 products over other than the default ring are
 masked over their own ring

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 8e77dcd..a26ae76 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2640,7 +2640,7 @@ def _matmul_private_private(prot, x, y):
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("matmul"):
-        a0, a1, a2 = prot._gen_zero_sharing(result_shape)
+        a0, a1, a2 = prot._gen_zero_sharing(result_shape, factory=x.backing_dtype)
 
         with tf.device(prot.servers[0].device_name):
             z0 = (
@@ -5010,7 +5010,7 @@ def _conv2d_private_private(prot, x, w, strides, padding):
                     + xs[i][1].conv2d(ws[i][0], strides, padding)
                 )
 
-        a = prot._gen_zero_sharing(y[0].shape)
+        a = prot._gen_zero_sharing(y[0].shape, factory=x.backing_dtype)
         z = [[None, None], [None, None], [None, None]]
         for i in range(3):
             with tf.device(prot.servers[i].device_name):
-- 
2.43.0


From c49f38e520cda3a270a45a6a7e52efdeb5f2f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:13 +0000
Subject: [PATCH 31/75] fix: subtracting a CRT tensor from a number

---
 tf_encrypted/tensor/int100.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index be09355..c541c84 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -554,7 +554,7 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
 
         def __rsub__(self, other):
             x, y = _lift(self, other)
-            return x.sub(y)
+            return y.sub(x)
 
         def __mul__(self, other):
             x, y = _lift(self, other)
-- 
2.43.0


From 539a01a6f6391d11809efb1169489d64c1ec05f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:15 +0000
Subject: [PATCH 32/75] fix: aby3 local truncation places each share on the
 server owning it

---
 tf_encrypted/protocol/aby3/aby3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index a26ae76..3e23ec5 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2763,7 +2763,7 @@ def _truncate_local_private(
         # server 1 sends `y1`
         with tf.device(prot.servers[0].device_name):
             y[0][0] = y0
-            y[0][1] = y1
+            y[0][1] = y1.identity()
         # Local
         with tf.device(prot.servers[1].device_name):
             y[1][0] = y1
@@ -2771,7 +2771,7 @@ def _truncate_local_private(
         # server 0 sends `y0`
         with tf.device(prot.servers[2].device_name):
             y[2][0] = r_on_2
-            y[2][1] = y0
+            y[2][1] = y0.identity()
 
     return ABY3PrivateTensor(prot, y, x.is_scaled, x.share_type)
 
-- 
2.43.0


From 10c2f34bcdb49a13585e0dc69a4882cb6f4fea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:15 +0000
Subject: [PATCH 33/75] fix: aby3 cheetah truncation discloses the value to
 server 2 and reuses nonces

---
 tf_encrypted/protocol/aby3/aby3.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 3e23ec5..8bb9641 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2802,8 +2802,6 @@ def _truncate_msb0_cheetah_private(
         msb_bob_on_1 = x_bob_on_1.logical_rshift(x.backing_dtype.nbits - 1).cast(
             bfactory
         )
-        # x_B >> f
-        x_bob_on_1_trunc = x_bob_on_1.logical_rshift(amount)
     with tf.device(prot.servers[2].device_name):
         x_bob_on_2 = x_shares[2][0]
         msb_bob_on_2 = x_bob_on_2.logical_rshift(x.backing_dtype.nbits - 1).cast(
@@ -2839,25 +2837,31 @@ def _truncate_msb0_cheetah_private(
         )
         w[1][1] = w_bob ^ w[1][0]
 
+    # The nonces above must not be reused by the conversion below
+    prot._update_pairwise_nonces()
+
     with tf.device(prot.servers[2].device_name):
-        w[2][0] = w[1][1]
-        w[2][1] = w_alice
+        w[2][0] = w[1][1].identity()
+        w[2][1] = w_alice.identity()
 
     # b2a. TODO: communication could be optimized from l to f
     w = prot.b2a_single(ABY3PrivateTensor(prot, w, False, ShareType.BOOLEAN))
 
     # Fix potential big error: w * 2^{l-f}
     error = (w << (x.backing_dtype.nbits - amount)).unwrapped
+    # Alice's term is sent to server 2, which knows `error[0][0]`, so that every
+    # share must be masked by a sharing of zero
+    a0, a1, a2 = prot._gen_zero_sharing(shape, factory=x.backing_dtype)
     z = [[None, None], [None, None], [None, None]]
     with tf.device(prot.servers[0].device_name):
-        z[0][0] = x_alice_trunc - error[0][0]
-        z[0][1] = -error[0][1]
+        z[0][0] = x_alice_trunc - error[0][0] + a0
     with tf.device(prot.servers[1].device_name):
-        z[1][0] = -error[1][0]
-        z[1][1] = x_bob_on_1_trunc - error[1][1]
+        z[1][0] = a1 - error[1][0]
     with tf.device(prot.servers[2].device_name):
-        z[2][0] = x_bob_on_2_trunc - error[2][0]
-        z[2][1] = z[0][0]
+        z[2][0] = x_bob_on_2_trunc - error[2][0] + a2
+    for i in range(3):
+        with tf.device(prot.servers[i].device_name):
+            z[i][1] = z[(i + 1) % 3][0].identity()
 
     z = ABY3PrivateTensor(prot, z, x.is_scaled, ShareType.ARITHMETIC)
     return z
-- 
2.43.0


From b427fba43f98c25023caed26351e1fc9bd912783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:11 +0000
Subject: [PATCH 34/75] fix: aby3 matmul of broadcast batches masks every
 result with its own randomness

---
 tf_encrypted/protocol/aby3/aby3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 8bb9641..4ec69c1 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -2636,7 +2636,9 @@ def _matmul_private_private(prot, x, y):
 
     # Tensorflow supports matmul for more than 2 dimensions,
     # with the inner-most 2 dimensions specifying the 2-D matrix multiplication
-    result_shape = tf.TensorShape((*x.shape[:-1], y.shape[-1]))
+    # and the remaining (batch) dimensions broadcast against each other
+    batch_shape = tf.broadcast_static_shape(x.shape[:-2], y.shape[:-2])
+    result_shape = batch_shape.concatenate([x.shape[-2], y.shape[-1]])
 
     z = [[None, None], [None, None], [None, None]]
     with tf.name_scope("matmul"):
-- 
2.43.0


From 3040851fe3a37f33b67ea7f63afe59e65f9f0335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:18 +0000
Subject: [PATCH 35/75] fix: securenn sign of private and public values whose
 encoding is -1

---
 tf_encrypted/protocol/securenn/securenn.py | 32 ++++++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 767aee9..e0b7eaf 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -154,9 +154,7 @@ class SecureNN(Pond):
         :param PondTensor x: The tensor to take the most significant bit of
         """
         with tf.name_scope("msb"):
-            # when the modulus is odd msb reduces to lsb via x -> 2*x
-            x = self.cast_backing(x, self.odd_factory)
-            return self.lsb(x + x)
+            return self.dispatch("msb", x, container=_thismodule)
 
     @memoize
     def lsb(self, x: PondTensor) -> PondTensor:
@@ -573,6 +571,34 @@ def _bits_public(prot, x: PondPublicTensor, factory=None) -> PondPublicTensor:
         return PondPublicTensor(prot, bits_on_0, bits_on_1, False)
 
 
+def _msb_public(prot, x: PondPublicTensor):
+    with tf.name_scope("msb"):
+        if x.backing_dtype is not prot.odd_factory:
+            # the odd dtype cannot tell -1 from 0, so read the bit off directly
+            return prot.bits(x)[..., -1]
+
+        # when the modulus is odd msb reduces to lsb via x -> 2*x
+        return prot.lsb(x + x)
+
+
+def _msb_private(prot, x: PondPrivateTensor):
+    with tf.name_scope("msb"):
+        if x.backing_dtype is not prot.odd_factory:
+            x = prot.cast_backing(x, prot.odd_factory)
+
+            # the odd modulus is one smaller, so that the cast adds one to the value
+            # whenever the shares of a non-negative value wrap around, and to every
+            # negative value (-1 would become 0)
+            x0, x1 = x.unwrapped
+            with tf.device(prot.server_0.device_name):
+                one = tf.constant(1, dtype=prot.odd_factory.native_type)
+                x0 = x0 - prot.odd_factory.tensor(one)
+            x = PondPrivateTensor(prot, x0, x1, x.is_scaled)
+
+        # when the modulus is odd msb reduces to lsb via x -> 2*x
+        return prot.lsb(x + x)
+
+
 def _lsb_public(prot, x: PondPublicTensor):
     # TODO[Morten]
     # we could call through and ask the underlying dtype for its lsb instead as
-- 
2.43.0


From a15fb7ff5543d7c7a28f12e764576414b492a113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:10 +0000
Subject: [PATCH 36/75] fix: securenn comparison re-randomizes and shuffles
 what server 2 receives

---
 tf_encrypted/protocol/securenn/securenn.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index e0b7eaf..3d976e8 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -769,11 +769,23 @@ def _private_compare(
             c_masked = c * mask
             assert c_masked.backing_dtype == prime_dtype
 
-            # TODO[Morten] permute
+            # server 2 handed out the shares of `x_bits` and so must get neither shares
+            # that are functions of these nor the positions of the zeros: re-randomize
+            # the shares and shuffle every bit sequence, using randomness known only to
+            # server 0 and server 1
+            c0, c1 = c_masked.unwrapped
+            with tf.device(prot.server_0.device_name):
+                rerand_raw0 = prime_dtype.sample_uniform(c.shape)
+                order_raw0 = tf.argsort(int64factory.sample_uniform(c.shape).value)
+                d0 = _shuffle_last_axis(c0 + rerand_raw0, order_raw0)
+            with tf.device(prot.server_1.device_name):
+                rerand_raw1 = rerand_raw0.identity()
+                order_raw1 = tf.identity(order_raw0)
+                d1 = _shuffle_last_axis(c1 - rerand_raw1, order_raw1)
 
             # reconstruct masked values on server 2 to find entries with zeros
             with tf.device(prot.server_2.device_name):
-                d = prot._reconstruct(*c_masked.unwrapped)
+                d = prot._reconstruct(d0, d1)
                 # find all zero entries
                 zeros = d.equal_zero(out_dtype)
                 # for each bit sequence, determine whether it has one or no zero in it
@@ -785,6 +797,11 @@ def _private_compare(
         return result
 
 
+def _shuffle_last_axis(x: AbstractTensor, order: tf.Tensor) -> AbstractTensor:
+    value = tf.gather(x.value, order, axis=-1, batch_dims=len(x.shape) - 1)
+    return x.factory.tensor(value)
+
+
 def _equal_zero_public(prot, x: PondPublicTensor, dtype=None):
     """Check if a public tensor's values equal zero."""
 
-- 
2.43.0


From 72bdf952ea014a3655ef0cc0aafa881bc20bb367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:10 +0000
Subject: [PATCH 37/75] fix: native factory zeros and pad

---
 tf_encrypted/tensor/native.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index 44171b0..cc97af9 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -221,10 +221,10 @@ def native_factory(
         def zeros(self, shape):
             if not isinstance(shape, (list, tuple, TensorShape)):
                 raise TypeError("shape must be a list or tuple of integers")
-            return Tensor(tf.ones(shape, self.native_type))
+            return Tensor(tf.zeros(shape, self.native_type))
 
         def pad(self, tensor, paddings):
-            return Tensor(tf.pad(tensor.value), paddings)
+            return Tensor(tf.pad(tensor.value, paddings))
 
         def ones_like(self, x: "Tensor"):
             return self.ones(x.shape)
-- 
2.43.0


From 3cf01c83e59f22275db74fb91878fc651b9da9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:10 +0000
Subject: [PATCH 38/75] fix: odd tensors are sampled from all ring elements

---
 tf_encrypted/protocol/securenn/odd_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/odd_tensor.py b/tf_encrypted/protocol/securenn/odd_tensor.py
index 729adff..ff5cba1 100644
--- a/tf_encrypted/protocol/securenn/odd_tensor.py
+++ b/tf_encrypted/protocol/securenn/odd_tensor.py
@@ -303,7 +303,7 @@ def odd_factory(NATIVE_TYPE):  # pylint: disable=invalid-name
             minval=NATIVE_TYPE.min + 1,
             maxval=NATIVE_TYPE.max,
         )
-        shifted_values = unshifted_value + tf.ones(
+        shifted_values = unshifted_value - tf.ones(
             shape=unshifted_value.shape, dtype=unshifted_value.dtype
         )
         value = tf.where(unshifted_value < 0, shifted_values, unshifted_value)
-- 
2.43.0


From 53f8c98671674ad7658c33a44c6438a446f4257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:27 +0000
Subject: [PATCH 39/75] fix: securenn relu of large tensors returns the
 rectified values

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 3d976e8..622665f 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -381,7 +381,7 @@ class SecureNN(Pond):
             drelu = []
 
             for i, _ in enumerate(xs):
-                d, r = actual_relu_with_cmp(xs[i], "subrelu")
+                r, d = actual_relu_with_cmp(xs[i], "subrelu")
                 res.append(r)
                 drelu.append(d)
             return self.concat(res, axis=-1), self.concat(drelu, axis=-1)
-- 
2.43.0


From 90ec6cbf370950fe00cd3823d5c6ba258db577a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:27 +0000
Subject: [PATCH 40/75] fix: securenn max pooling of masked tensors

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 622665f..3d7c4b5 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -896,7 +896,7 @@ def _maxpool2d_masked(
     padding: str,
 ) -> PondPrivateTensor:
     with tf.name_scope("maxpool2d"):
-        return prot.maxpool2d(x.unwrapped, pool_size, strides, padding)
+        return prot.maxpool2d(x.unmasked, pool_size, strides, padding)
 
 
 #
-- 
2.43.0


From dfaf95c658ed0231f05ebd4a5b59661eae91d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 41/75] fix: aby3 reduce_max by sorting over all axes

Without keepdims the result was never assigned, with keepdims it had the
rank of the flattened tensor.
---
 tf_encrypted/protocol/aby3/aby3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 4ec69c1..b0b9ff5 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5120,10 +5120,10 @@ def _reduce_max_network_private(
     with tf.name_scope("reduce-max-network"):
 
         if axis is None:
-            x = prot.reshape(x, [-1])
-            y = prot.sort(x, 0, acc=False)
+            y = prot.sort(prot.reshape(x, [-1]), 0, acc=False)
+            maximum = y[0]
             if keepdims:
-                maximum = prot.reshape(y[0], [1] * len(x.shape))
+                maximum = prot.reshape(maximum, [1] * len(x.shape))
         else:
             y = prot.sort(x, axis, acc=False)
             if keepdims:
-- 
2.43.0


From 5b5b62cdb06245485fc00a4405328ba243fe9d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 42/75] fix: aby3 sort along an axis of length one

The sorting network has no stages then and building its index failed.
---
 tf_encrypted/protocol/aby3/aby3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index b0b9ff5..11a8a03 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5881,6 +5881,9 @@ def _sort_private(
         axis = axis % len(x.shape)
         if axis < 0:
             axis += len(x.shape)
+        if int(x.shape[axis]) == 1:
+            # Nothing to compare, and the sorting network has no stages
+            return x
         if axis != 0:
             x = prot.transpose(
                 x,
-- 
2.43.0


From 385c8a0568735622a752f707ec51c1a9d5dea52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:55 +0000
Subject: [PATCH 43/75] fix: aby3 max pooling of negative values at a padded
 border

SAME padding filled the window with zeros, which win over negative values.
---
 tf_encrypted/protocol/aby3/aby3.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 11a8a03..1c479ce 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -36,6 +36,7 @@ from ...tensor.fixed import FixedpointConfig
 from ...tensor.fixed import fixed64_heuristic
 from ...tensor.fixed import fixed128_heuristic
 from ...tensor.shared import out_size
+from ...tensor.shared import pad_size
 from ..protocol import Protocol
 from ..protocol import memoize
 from . import fp
@@ -5292,6 +5293,22 @@ def _maxpool2d_private(
     return __maxpool2d_computation(prot, x, pool_size, strides, padding)
 
 
+def _pad_maxpool2d(prot: ABY3, x: ABY3Tensor, pool_size, strides) -> ABY3Tensor:
+    """Pad as for `SAME` pooling, with a value smaller than all others: padding by
+    zero would win over negative values."""
+    paddings = [[0, 0], [0, 0]] + pad_size(x.shape[2:], pool_size, strides)
+    # We can only handle numbers of bit length k-2 for comparison
+    min_bound = -(1 << (x.backing_dtype.nbits - 2))
+    border = np.pad(
+        np.zeros(x.shape.as_list(), dtype=object), paddings, constant_values=min_bound
+    )
+    border = prot.define_constant(
+        border, apply_scaling=False, factory=x.backing_dtype
+    )
+    border.is_scaled = x.is_scaled
+    return prot.pad(x, paddings) + border
+
+
 def __maxpool2d_computation(
     prot: ABY3,
     x: ABY3Tensor,
@@ -5304,8 +5321,10 @@ def __maxpool2d_computation(
 
     with tf.name_scope("maxpool2d"):
         x_split = x.reshape((batch * channels, 1, height, width))
+        if padding == "SAME":
+            x_split = _pad_maxpool2d(prot, x_split, pool_size, strides)
 
-        y = prot.im2patches(x_split, pool_size, strides=strides, padding=padding)
+        y = prot.im2patches(x_split, pool_size, strides=strides, padding="VALID")
         i2c_max = y.reduce_max(axis=1)
         result = i2c_max.reshape([batch, channels, out_height, out_width])
         return result
@@ -5334,9 +5353,11 @@ def __maxpool2d_with_argmax_computation(
 
     with tf.name_scope("maxpool2d-with-argmax"):
         x_split = x.reshape((batch * channels, 1, height, width))
+        if padding == "SAME":
+            x_split = _pad_maxpool2d(prot, x_split, pool_size, strides)
 
         y = prot.im2patches(
-            x_split, pool_size, strides=strides, padding=padding, data_format="NCHW"
+            x_split, pool_size, strides=strides, padding="VALID", data_format="NCHW"
         )
         i2c_max, i2c_argmax = prot.reduce_max_with_argmax(
             y, axis=1, output_style="onehot"
-- 
2.43.0


From 3389a0ff2f61f14af1e8149351e76d50711660a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:19 +0000
Subject: [PATCH 44/75] fix: securenn comparison of scalars keeps their shape

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 3d7c4b5..dd4c1fa 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -747,7 +747,7 @@ def _private_compare(
             # tensor for edge cases: one zero and the rest ones
             c_edge_vals = [0] + [1] * (bit_length - 1)
             c_const = tf.constant(
-                c_edge_vals, dtype=prime_dtype.native_type, shape=(1, bit_length)
+                c_edge_vals, dtype=prime_dtype.native_type, shape=(bit_length,)
             )
             c_edge_case_raw = prime_dtype.tensor(c_const)
             c_edge_case = prot._share_and_wrap(c_edge_case_raw, False)
-- 
2.43.0


From 5e1f75d3b267b0a81abaaeb61cab55ce0e6882e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:12 +0000
Subject: [PATCH 45/75] fix: securenn sign of values whose shares are both zero

---
 tf_encrypted/protocol/securenn/securenn.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index dd4c1fa..3f59c6e 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -584,6 +584,17 @@ def _msb_public(prot, x: PondPublicTensor):
 def _msb_private(prot, x: PondPrivateTensor):
     with tf.name_scope("msb"):
         if x.backing_dtype is not prot.odd_factory:
+            # fresh shares, since those of e.g. x - x are both zero which, being the
+            # only shares of a non-negative value not to wrap around below, would
+            # be taken for a negative one
+            x0, x1 = x.unwrapped
+            with tf.device(prot.server_0.device_name):
+                rerand0 = prot.tensor_factory.sample_uniform(x.shape)
+                x0 = x0 + rerand0
+            with tf.device(prot.server_1.device_name):
+                rerand1 = rerand0.identity()
+                x1 = x1 - rerand1
+            x = PondPrivateTensor(prot, x0, x1, x.is_scaled)
             x = prot.cast_backing(x, prot.odd_factory)
 
             # the odd modulus is one smaller, so that the cast adds one to the value
-- 
2.43.0


From e37db6f0ba1d7bcf3c2f3666c8a9a51e03533bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:32 +0000
Subject: [PATCH 46/75] fix: securenn max pooling passes both strides

im2col takes the strides of both axes; passing one made max pooling fail.
---
 tf_encrypted/protocol/securenn/securenn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 3f59c6e..63efd64 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -858,11 +858,11 @@ def _im2col(
 
     with tf.device(prot.server_0.device_name):
         x_split = x_on_0.reshape((batch * channels, 1, height, width))
-        y_on_0 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_0 = x_split.im2col(pool_height, pool_width, strides, padding)
 
     with tf.device(prot.server_1.device_name):
         x_split = x_on_1.reshape((batch * channels, 1, height, width))
-        y_on_1 = x_split.im2col(pool_height, pool_width, strides[0], padding)
+        y_on_1 = x_split.im2col(pool_height, pool_width, strides, padding)
 
     return y_on_0, y_on_1, [out_height, out_width, int(batch), int(channels)]
 
-- 
2.43.0


From 8eb2709acf8a1bd4f1dc31ac6f09c2dc3d62d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:32 +0000
Subject: [PATCH 47/75] fix: securenn max pooling of negative values at a
 padded border

SAME padding filled the window with zeros, which win over negative values.
---
 tf_encrypted/protocol/securenn/securenn.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 63efd64..82ab5e2 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -29,6 +29,7 @@ from tf_encrypted.tensor import int64factory
 from tf_encrypted.tensor import native_factory
 from tf_encrypted.tensor.factory import AbstractFactory
 from tf_encrypted.tensor.factory import AbstractTensor
+from tf_encrypted.tensor.shared import pad_size
 
 _thismodule = sys.modules[__name__]
 
@@ -867,6 +868,19 @@ def _im2col(
     return y_on_0, y_on_1, [out_height, out_width, int(batch), int(channels)]
 
 
+def _pad_maxpool2d(prot: Pond, x: PondTensor, pool_size, strides) -> PondTensor:
+    """Pad as for `SAME` pooling, with a value smaller than all others: padding by
+    zero would win over negative values."""
+    paddings = [[0, 0], [0, 0]] + pad_size(x.shape[2:], pool_size, strides)
+    # differences of values of bit length k-2 do not overflow in comparisons
+    min_bound = -(1 << (x.backing_dtype.nbits - 2))
+    border = np.zeros(x.shape.as_list(), dtype=x.backing_dtype.native_type.as_numpy_dtype)
+    border = np.pad(border, paddings, constant_values=min_bound)
+    border = prot.define_constant(border, apply_scaling=False, factory=x.backing_dtype)
+    border.is_scaled = x.is_scaled
+    return prot.pad(x, paddings) + border
+
+
 def _maxpool2d_public(
     prot: Pond,
     x: PondPublicTensor,
@@ -876,6 +890,8 @@ def _maxpool2d_public(
 ) -> PondPublicTensor:
     """Logic for performing maxpool2d on public input."""
     with tf.name_scope("maxpool2d"):
+        if padding == "SAME":
+            x, padding = _pad_maxpool2d(prot, x, pool_size, strides), "VALID"
         y_on_0, y_on_1, reshape_to = _im2col(prot, x, pool_size, strides, padding)
         im2col = PondPublicTensor(prot, y_on_0, y_on_1, x.is_scaled)
         i2c_max = im2col.reduce_max(axis=0)
@@ -892,6 +908,8 @@ def _maxpool2d_private(
 ) -> PondPrivateTensor:
     """Logic for performing maxpool2d on private input."""
     with tf.name_scope("maxpool2d"):
+        if padding == "SAME":
+            x, padding = _pad_maxpool2d(prot, x, pool_size, strides), "VALID"
         y_on_0, y_on_1, reshape_to = _im2col(prot, x, pool_size, strides, padding)
         im2col = PondPrivateTensor(prot, y_on_0, y_on_1, x.is_scaled)
         i2c_max = im2col.reduce_max(axis=0)
-- 
2.43.0


From 9f0270af9d455d3f094301c7702a2d825bfc9478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:32 +0000
Subject: [PATCH 48/75] fix: securenn relu of large vectors

---
 tf_encrypted/protocol/securenn/securenn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index 82ab5e2..f10c901 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -367,7 +367,7 @@ class SecureNN(Pond):
         # close as possible to `maxsize` (but possibly larger)
 
         # compute how large the last dimension can be while being at least 1
-        max_last_dimension = max(max_size // np.prod(shape[:-1]), 1)
+        max_last_dimension = max(max_size // int(np.prod(shape[:-1])), 1)
         # compute split vector
         last_dimension = shape[-1]
         number_of_max_last_dimension = last_dimension // max_last_dimension
-- 
2.43.0


From e036517cf646c178dcdef72c38452f7d9e2ac86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:32 +0000
Subject: [PATCH 49/75] fix: securenn argmax along an axis of length one

---
 tf_encrypted/protocol/securenn/securenn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/protocol/securenn/securenn.py b/tf_encrypted/protocol/securenn/securenn.py
index f10c901..0a56e22 100644
--- a/tf_encrypted/protocol/securenn/securenn.py
+++ b/tf_encrypted/protocol/securenn/securenn.py
@@ -539,7 +539,8 @@ class SecureNN(Pond):
 
             tensors = self.split(x, int(x.shape[axis]), axis=axis)
             indices = [
-                self.define_constant(np.array([i])) for i, _ in enumerate(tensors)
+                self.define_constant(np.full(t.shape.as_list(), i))
+                for i, t in enumerate(tensors)
             ]
 
             with tf.name_scope("comparison-tree"):
-- 
2.43.0


From db17db7850df6458a64bf61c48c7d73efb133b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:31 +0000
Subject: [PATCH 50/75] fix: patches2im with different strides or sizes along
 height and width

---
 tf_encrypted/tensor/shared.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index ae8817b..9f68ef8 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -103,16 +103,16 @@ def patches2im(
         patches = patches.reshape((bs, -1, ps_h, ps_w, col_ch))
 
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        wout = (_w - 1) * strides[0] + ps_w
+        wout = (_w - 1) * strides[1] + ps_w
         # Recalculate output shape of "extract_image_patches" including padded pixels
-        hout = (_h - 1) * strides[1] + ps_h
+        hout = (_h - 1) * strides[0] + ps_h
 
         x, y = tf.meshgrid(tf.range(ps_w), tf.range(ps_h))
         x = tf.reshape(x, (1, 1, ps_h, ps_w, 1, 1))
         y = tf.reshape(y, (1, 1, ps_h, ps_w, 1, 1))
         xstart, ystart = tf.meshgrid(
-            tf.range(0, (wout - ps_w) + 1, strides[0]),
-            tf.range(0, (hout - ps_h) + 1, strides[1]),
+            tf.range(0, (wout - ps_w) + 1, strides[1]),
+            tf.range(0, (hout - ps_h) + 1, strides[0]),
         )
 
         bb = tf.zeros((1, np, ps_h, ps_w, col_ch, 1), dtype=tf.int32) + tf.reshape(
@@ -174,7 +174,7 @@ def patches2im(
 
             if img_w > wout:
                 reconstructed_img = reconstructed_img.factory.pad(
-                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - hout], [0, 0]]
+                    reconstructed_img, [[0, 0], [0, 0], [0, img_w - wout], [0, 0]]
                 )
             elif img_w < wout:
                 pad_left = (wout - img_w) // 2
-- 
2.43.0


From e21d5d78d8d9ae84e55764a7170bf409861a6359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:31 +0000
Subject: [PATCH 51/75] fix: int100 scalars keep their shape when combined with
 a host integer

---
 tf_encrypted/tensor/int100.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index c541c84..b16b93e 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -400,12 +400,12 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
         if isinstance(x, Tensor):
 
             if isinstance(y, int):
-                return x, x.factory.tensor(np.array([y]))
+                return x, x.factory.tensor(np.array(y))
 
         if isinstance(y, Tensor):
 
             if isinstance(x, int):
-                return y.factory.tensor(np.array([x])), y
+                return y.factory.tensor(np.array(x)), y
 
         raise TypeError("Don't know how to lift {} {}".format(type(x), type(y)))
 
-- 
2.43.0


From c343f23492e8fafca9291286282de1f457f87cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:31 +0000
Subject: [PATCH 52/75] fix: int128 bit decomposition beyond 64 bits

---
 tf_encrypted/tensor/int128.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index edc0095..16ca932 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -291,9 +291,9 @@ def int128_factory():  # pylint: disable=invalid-name
             else:
                 t0 = tf.gather(self.value, 0, axis=-1)
                 t1 = tf.gather(self.value, 1, axis=-1)
-                t0 = binarize(t0, bitsize)
-                t1 = binarize(t1, bitsize)
-                return factory.tensor(tf.stack([t0, t1], axis=-1))
+                t0 = binarize(t0, 64)
+                t1 = binarize(t1, bitsize - 64)
+                return factory.tensor(tf.concat([t0, t1], axis=-1))
 
         def __repr__(self) -> str:
             return "{}(shape={})".format(type(self), self.shape)
-- 
2.43.0


From 9e1970950f4b7036b1206fafb4fd87acbf92906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:45 +0000
Subject: [PATCH 53/75] fix: int100 scalars keep their shape when decoded

---
 tf_encrypted/tensor/int100.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index b16b93e..0713ee2 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -70,7 +70,7 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
         def crt_recombine_explicit(x, bound):
 
             big_b = MODULUS % bound
-            b = [np.array([(MODULUS // mi) % bound], dtype=np.int64) for mi in MODULI]
+            b = [np.array((MODULUS // mi) % bound, dtype=np.int64) for mi in MODULI]
 
             with tf.name_scope("crt_recombine_explicit"):
 
-- 
2.43.0


From 11370c5e72fb7b8905dc198741ce6ee36184bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 54/75] fix: int128 encodes integer tensors exactly

---
 tf_encrypted/tensor/int128.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index 16ca932..c50aded 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -61,6 +61,12 @@ def int128_factory():  # pylint: disable=invalid-name
                 encode_value = tf_i128.encode(scaled_value)
                 return tf.convert_to_tensor(encode_value, dtype=self.native_type)
             elif isinstance(scaled_value, tf.Tensor):
+                dtype = scaled_value.dtype
+                if dtype.is_integer and not dtype.is_unsigned:
+                    # exact, unlike the conversion from float64
+                    lo = tf.cast(scaled_value, self.native_type)
+                    hi = tf.bitwise.right_shift(lo, 63)
+                    return tf.stack([lo, hi], axis=-1)
                 return tf_i128.to_i128(scaled_value)
             else:
                 raise TypeError(
-- 
2.43.0


From 603aa7fb42d3bca40c07c3b3c83b60b43ecf25ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 55/75] fix: aby3 encoding of narrow host arrays

Scaling an int8/int16/uint8 array in its own type overflows and scaling a
float32 one rounds; convert to float64 first, as for tensors.
---
 tf_encrypted/protocol/aby3/aby3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 1c479ce..61b6df6 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -811,8 +811,9 @@ class ABY3(Protocol):
 
             if isinstance(rationals, np.ndarray):
                 if apply_scaling:
-                    scaled = rationals * self.fixedpoint_config.scaling_factor
-                    scaled = np.array(scaled).astype(np.float64)
+                    # convert first, narrow types would overflow or round
+                    scaled = rationals.astype(np.float64)
+                    scaled = scaled * self.fixedpoint_config.scaling_factor
                 else:
                     scaled = rationals
 
-- 
2.43.0


From c3a94519a2330344b4617365c568436e1b9347be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:09 +0000
Subject: [PATCH 56/75] fix: callers may change lists returned by memoized
 functions

---
 tf_encrypted/protocol/protocol.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 1140709..96a01a5 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -144,13 +144,14 @@ def memoize(func: Callable) -> Callable:
         node_key = (func.__name__, self, graph, hashable_args, hashable_kwargs)
 
         cached_result = nodes.get(node_key, None)
-        if cached_result is not None:
-            return cached_result
-
-        result = func(self, *args, **kwargs)
-
-        nodes[node_key] = result
-        return result
+        if cached_result is None:
+            cached_result = func(self, *args, **kwargs)
+            nodes[node_key] = cached_result
+
+        if isinstance(cached_result, list):
+            # the caller may change its list
+            return list(cached_result)
+        return cached_result
 
     return cache_nodes
 
-- 
2.43.0


From 6c95d06bd0197a9ed6abe657fa41aef74f6faabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:09 +0000
Subject: [PATCH 57/75] fix: aby3 to_private overwrote the shares of earlier
 results

---
 tf_encrypted/protocol/aby3/aby3_tensors.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3_tensors.py b/tf_encrypted/protocol/aby3/aby3_tensors.py
index c75d12f..fc97e81 100644
--- a/tf_encrypted/protocol/aby3/aby3_tensors.py
+++ b/tf_encrypted/protocol/aby3/aby3_tensors.py
@@ -487,10 +487,14 @@ class ABY3PublicTensor(ABY3Tensor, TFEPublicTensor):
 
     def to_private(self, share_type):
         factory = self.backing_dtype
-        result = self.prot.zeros(self.shape, self.is_scaled, share_type, factory)
-        result.unwrapped[0][0] = self.values[0]
-        result.unwrapped[2][1] = self.values[2]
-        return result
+        zeros = self.prot.zeros(self.shape, self.is_scaled, share_type, factory)
+        # the result of `zeros` may be in use elsewhere
+        shares = [list(s) for s in zeros.unwrapped]
+        with tf.device(self.prot.servers[0].device_name):
+            shares[0][0] = self.values[0].identity()
+        with tf.device(self.prot.servers[2].device_name):
+            shares[2][1] = self.values[2].identity()
+        return ABY3PrivateTensor(self.prot, shares, self.is_scaled, share_type)
 
 
 class ABY3Constant(ABY3PublicTensor):
-- 
2.43.0


From fc1620071a3ad49f61a503ac703c6fb6fbd57e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 58/75] fix: operations on a variable used the value it had
 when it was defined

---
 tf_encrypted/tensor/boolfactory.py | 5 +++++
 tf_encrypted/tensor/int100.py      | 5 +++++
 tf_encrypted/tensor/int128.py      | 8 +++++---
 tf_encrypted/tensor/native.py      | 8 +++++---
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/tf_encrypted/tensor/boolfactory.py b/tf_encrypted/tensor/boolfactory.py
index d158572..b7407c6 100644
--- a/tf_encrypted/tensor/boolfactory.py
+++ b/tf_encrypted/tensor/boolfactory.py
@@ -291,6 +291,11 @@ def bool_factory():
             self.variable = variable_value
             super(Variable, self).__init__(self.variable.read_value())
 
+        @property
+        def value(self):
+            # `_value` is from before any assignment
+            return self.variable.value()
+
         def __repr__(self) -> str:
             return "Variable(shape={})".format(self.shape)
 
diff --git a/tf_encrypted/tensor/int100.py b/tf_encrypted/tensor/int100.py
index 0713ee2..c95b9b5 100644
--- a/tf_encrypted/tensor/int100.py
+++ b/tf_encrypted/tensor/int100.py
@@ -808,6 +808,11 @@ def crt_factory(INT_TYPE, MODULI):  # pylint: disable=invalid-name
             backing = [var.read_value() for var in self.variables]
             super(Variable, self).__init__(backing)
 
+        @property
+        def backing(self):
+            # `_backing` is from before any assignment
+            return [var.value() for var in self.variables]
+
         def __repr__(self):
             return "Variable({})".format(self.shape)
 
diff --git a/tf_encrypted/tensor/int128.py b/tf_encrypted/tensor/int128.py
index c50aded..376f09a 100644
--- a/tf_encrypted/tensor/int128.py
+++ b/tf_encrypted/tensor/int128.py
@@ -597,12 +597,14 @@ def int128_factory():  # pylint: disable=invalid-name
         """Native Variable class."""
 
         def __init__(self, variable_value: tf.Variable) -> None:
-            # TODO(zjn) need a better implementation to update Tensor's `_value`
-            # after variable has been assigned
-            # also for case bool factory and int100 factory
             super(Variable, self).__init__(variable_value.read_value())
             self.variable = variable_value
 
+        @property
+        def value(self):
+            # `_value` is from before any assignment
+            return self.variable.value()
+
         def __repr__(self) -> str:
             return "Variable(shape={})".format(self.shape)
 
diff --git a/tf_encrypted/tensor/native.py b/tf_encrypted/tensor/native.py
index cc97af9..9ff96df 100644
--- a/tf_encrypted/tensor/native.py
+++ b/tf_encrypted/tensor/native.py
@@ -604,12 +604,14 @@ def native_factory(
         """Native Variable class."""
 
         def __init__(self, variable_value: tf.Variable) -> None:
-            # TODO(zjn) need a better implementation to update Tensor's `_value`
-            # after variable has been assigned
-            # also for case bool factory and int100 factory
             super(Variable, self).__init__(variable_value.read_value())
             self.variable = variable_value
 
+        @property
+        def value(self):
+            # `_value` is from before any assignment
+            return self.variable.value()
+
         def __repr__(self) -> str:
             return "Variable(shape={})".format(self.shape)
 
-- 
2.43.0


From 4e48e2e9d125effa030e9b1cf6e8e249dc2f0374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 59/75] fix: masked values of a pond variable changed when it
 was assigned

---
 tf_encrypted/protocol/pond/pond.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 1cf40c5..205a6cc 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -4036,6 +4036,9 @@ def _concat_masked(
 def _mask_private(prot: Pond, x: PondPrivateTensor) -> PondMaskedTensor:
     assert isinstance(x, PondPrivateTensor)
 
+    if isinstance(x, PondPrivateVariable):
+        # what is masked must not change with a later assignment
+        x = x.read_value()
     x0, x1 = x.unwrapped
 
     with tf.name_scope("mask"):
-- 
2.43.0


From 33bb5dbf146217d4bda6b4d19ec98022b171d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 60/75] fix: aby3 assign accepted values of another share type

---
 tf_encrypted/protocol/aby3/aby3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 61b6df6..cdd51ee 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -1137,6 +1137,12 @@ class ABY3(Protocol):
                 variable.is_scaled,
                 value.is_scaled,
             )
+            assert (
+                variable.share_type == value.share_type
+            ), "Share types must match: {}, {}".format(
+                variable.share_type,
+                value.share_type,
+            )
 
             var_shares = variable.unwrapped
             val_shares = value.unwrapped
-- 
2.43.0


From 78ca3912b09deae5fff7f8e0f1b3aa844f55e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 61/75] fix: results computed from a variable changed when it
 was assigned

---
 tf_encrypted/protocol/aby3/aby3.py |  1 -
 tf_encrypted/protocol/pond/pond.py |  1 -
 tf_encrypted/protocol/protocol.py  | 18 +++++++++++++++---
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index cdd51ee..a8fa43e 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -1124,7 +1124,6 @@ class ABY3(Protocol):
 
         return m_c
 
-    @memoize
     def assign(
         self, variable: Union["ABY3PrivateVariable", "ABY3PublicVariable"], value
     ):
diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index 205a6cc..e91e7a2 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -844,7 +844,6 @@ class Pond(Protocol):
         with tf.name_scope("reconstruct"):
             return share0 + share1
 
-    @memoize
     def assign(
         self,
         variable: Union["PondPrivateVariable", "PondPublicVariable"],
diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 96a01a5..381ee50 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -119,6 +119,17 @@ def reads_variable(x):
     return isinstance(x, (TFEVariable, AbstractVariable, tf.Variable))
 
 
+def current_value(x):
+    """Replace encrypted variables by the values they have now."""
+    if isinstance(x, TFEVariable):
+        return x.read_value()
+    if type(x) in (tuple, list):
+        return type(x)(current_value(y) for y in x)
+    if type(x) is dict:
+        return {k: current_value(y) for k, y in x.items()}
+    return x
+
+
 def memoize(func: Callable) -> Callable:
     """
     memoize(func) -> Callable
@@ -131,10 +142,11 @@ def memoize(func: Callable) -> Callable:
 
     @functools.wraps(func)
     def cache_nodes(self: Protocol, *args: Any, **kwargs: Any) -> AbstractTensor:
-        if get_config().debug:
-            return func(self, *args, **kwargs)
-
         if reads_variable(args) or reads_variable(kwargs):
+            # the result must not change with a later assignment
+            return func(self, *current_value(args), **current_value(kwargs))
+
+        if get_config().debug:
             return func(self, *args, **kwargs)
 
         hashable_args = make_hashable(args)
-- 
2.43.0


From ef351ce265b961211438c668c626d1cb17b3dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:59 +0000
Subject: [PATCH 62/75] fix: traced functions ran with the protocol of an
 earlier call

---
 tf_encrypted/protocol/protocol.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/tf_encrypted/protocol/protocol.py b/tf_encrypted/protocol/protocol.py
index 381ee50..b9336a1 100644
--- a/tf_encrypted/protocol/protocol.py
+++ b/tf_encrypted/protocol/protocol.py
@@ -1,5 +1,6 @@
 """Base abstraction for a Protocol."""
 import functools
+import weakref
 from abc import ABC
 from types import TracebackType
 from typing import Any
@@ -218,20 +219,30 @@ def function(func: Callable) -> Callable:
     tensorflow tensors and transform inversely.
     """
 
-    @tf.function
-    def graph_function(args, kwargs):
-        args, kwargs = input_wrap(args, kwargs)
-        result = func(*args, **kwargs)
-        result = unwrap_func(result)
-        return result
+    def new_graph_function():
+        @tf.function
+        def graph_function(args, kwargs):
+            args, kwargs = input_wrap(args, kwargs)
+            result = func(*args, **kwargs)
+            result = unwrap_func(result)
+            return result
+
+        return graph_function
+
+    # a trace is specific to the protocol it was made with
+    graph_functions = weakref.WeakKeyDictionary()
 
     @functools.wraps(func)
     def wrap_function(*args: Any, **kwargs: Any) -> AbstractTensor:
         if get_config().debug:
             return func(*args, **kwargs)
 
+        prot = tfe.get_protocol()
+        if prot not in graph_functions:
+            graph_functions[prot] = new_graph_function()
+
         args, kwargs = input_unwrap(args, kwargs)
-        result = graph_function(args, kwargs)
+        result = graph_functions[prot](args, kwargs)
         result = wrap_func(result)
 
         return result
-- 
2.43.0


From 53cc2e2ec97c79a4053112ab528e07b38bf4b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:55 +0000
Subject: [PATCH 63/75] fix: repeated executions of an aby3 graph reused their
 masks

---
 tf_encrypted/protocol/aby3/aby3.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index a8fa43e..aed312d 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -9,6 +9,7 @@ import math
 import random
 import string
 import sys
+import weakref
 from functools import reduce
 from functools import wraps
 from math import ceil
@@ -103,6 +104,7 @@ class ABY3(Protocol):
         self.b2a_keys_1_ = None
         self.b2a_keys_2_ = None
         self.b2a_nonce_ = None
+        self.graph_nonces_ = weakref.WeakKeyDictionary()
         self.keys_initialized = False
         self.initialize_keys()
 
@@ -114,7 +116,9 @@ class ABY3(Protocol):
     def pairwise_nonces(self):
         if not self.keys_initialized:
             raise RuntimeError("Please call `reset` to initialize keys.")
-        return self.pairwise_nonces_
+        if tf.executing_eagerly():
+            return self.pairwise_nonces_
+        return [int(n) + self._graph_nonce() for n in self.pairwise_nonces_]
 
     def _update_pairwise_nonces(self):
         self.pairwise_nonces_ += 1
@@ -132,7 +136,23 @@ class ABY3(Protocol):
     def b2a_nonce(self):
         if not self.keys_initialized:
             raise RuntimeError("Please call `reset` to initialize keys.")
-        return self.b2a_nonce_
+        if tf.executing_eagerly():
+            return self.b2a_nonce_
+        return self.b2a_nonce_ + self._graph_nonce()
+
+    def _graph_nonce(self):
+        """
+        The nonces are fixed when a graph is built, but a graph can be executed
+        more than once: offset them by a value drawn in each execution.
+        """
+        graph = tf.compat.v1.get_default_graph()
+        if graph not in self.graph_nonces_:
+            key = self.pairwise_keys_[0][0]
+            with tf.device(self.servers[0].device_name):
+                self.graph_nonces_[graph] = tf.random.uniform(
+                    key.shape, minval=key.dtype.min, maxval=key.dtype.max, dtype=key.dtype
+                )
+        return self.graph_nonces_[graph]
 
     def _update_b2a_nonce(self):
         self.b2a_nonce_ += 1
-- 
2.43.0


From 546a115c04bae09418a645dcb0e9f089521d2f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 64/75] fix: fifo queues without a shared name were all the
 same queue

---
 tf_encrypted/queue/fifo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf_encrypted/queue/fifo.py b/tf_encrypted/queue/fifo.py
index d93e828..7f614a4 100644
--- a/tf_encrypted/queue/fifo.py
+++ b/tf_encrypted/queue/fifo.py
@@ -62,6 +62,9 @@ class TFFIFOQueue(tf.queue.QueueBase):
         shapes = _as_shape_list(shapes, dtypes)
         names = _as_name_list(names, dtypes)
         with ops.init_scope(), ops.device("CPU"):
+            if shared_name is None and tf.executing_eagerly():
+                # queues without a name would all be the same one
+                shared_name = "anonymous-fifo-queue-{}".format(ops.uid())
             queue_ref = gen_data_flow_ops.fifo_queue_v2(
                 component_types=dtypes,
                 shapes=shapes,
-- 
2.43.0


From 149604f310318341b82deadf1ad170fd2ca65f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 65/75] fix: gradient of a channels_first Flatten was in the
 wrong order

---
 tf_encrypted/keras/layers/flatten.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/layers/flatten.py b/tf_encrypted/keras/layers/flatten.py
index f9660a5..8f64f6a 100644
--- a/tf_encrypted/keras/layers/flatten.py
+++ b/tf_encrypted/keras/layers/flatten.py
@@ -53,8 +53,16 @@ class Flatten(Layer):
         grad_weights = []
 
         input_shape = x.shape.as_list()
+        rank = len(input_shape)
 
-        d_x = tfe.reshape(d_y, input_shape)
+        if self.data_format == "channels_first" and rank > 1:
+            # move the channels back from the last axis
+            d_x = tfe.reshape(
+                d_y, [input_shape[0]] + input_shape[2:] + [input_shape[1]]
+            )
+            d_x = tfe.transpose(d_x, perm=[0, rank - 1] + list(range(1, rank - 1)))
+        else:
+            d_x = tfe.reshape(d_y, input_shape)
         return grad_weights, d_x
 
     def compute_output_shape(self, input_shape):
-- 
2.43.0


From 36de247baa952da65386c844ff815fe0c2ba757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 66/75] fix: global pooling layers with keepdims

---
 tf_encrypted/keras/layers/pooling.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index 81b6c2f..0f3397b 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -376,8 +376,11 @@ class GlobalAveragePooling2D(GlobalPooling2D):
             h_x, w_x = (x.shape[2], x.shape[3])
 
         _d_y = d_y * self.scalar
-        if not self.keepdims:
-            _d_y = tfe.expand_dims(tfe.expand_dims(_d_y, axis=2), axis=3)
+        if self.data_format == "channels_last":
+            batch, channels = (x.shape[0], x.shape[3])
+        else:
+            batch, channels = (x.shape[0], x.shape[1])
+        _d_y = tfe.reshape(_d_y, [batch, channels, 1, 1])
 
         d_x = tfe.tile(_d_y, multiples=[1, 1, h_x, w_x])
 
@@ -425,6 +428,10 @@ class GlobalMaxPooling2D(GlobalPooling2D):
 
         outputs, outputs_argmax = tfe.reduce_max_with_argmax(inputs, axis=2)
 
+        if self.keepdims:
+            output_shape = self.compute_output_shape(self._layer_input.shape)
+            outputs = tfe.reshape(outputs, output_shape)
+
         self._layer_output = (outputs, outputs_argmax)
 
         return outputs
@@ -438,7 +445,7 @@ class GlobalMaxPooling2D(GlobalPooling2D):
         else:
             batch, channels, h_x, w_x = x.shape
 
-        _d_y = tfe.expand_dims(d_y, axis=2)
+        _d_y = tfe.reshape(d_y, [batch, channels, 1])
         d_x = tfe.tile(_d_y, multiples=[1, 1, h_x * w_x])
         d_x = d_x * y_arg
         d_x = tfe.reshape(d_x, [batch, channels, h_x, w_x])
-- 
2.43.0


From 1b0204fa67789cc99ce700e3b29994cecb765742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 67/75] fix: Conv2D with different strides along height and
 width

---
 tf_encrypted/keras/layers/convolutional.py | 10 +++++-----
 tf_encrypted/protocol/aby3/aby3.py         | 10 +++++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index 1707f43..2066da7 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -211,7 +211,7 @@ class Conv2D(Layer):
         else:
             d_y = tfe.transpose(d_y, perm=[1, 2, 0, 3])
 
-        inner_padded_d_y = tfe.expand(d_y, self.strides[0])
+        inner_padded_d_y = tfe.expand(d_y, self.strides)
         padded_d_y = tfe.pad(
             inner_padded_d_y,
             [
@@ -302,10 +302,10 @@ class Conv2D(Layer):
 
         if self.padding == "SAME":
             h_out = int(np.ceil(float(h_x) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x) / float(self.strides[1])))
         if self.padding == "VALID":
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
         if self.data_format == "channels_first":
             return [n_x, n_filters, h_out, w_out]
@@ -577,10 +577,10 @@ class DepthwiseConv2D(Conv2D):
 
         if self.padding == "SAME":
             h_out = int(np.ceil(float(h_x) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x) / float(self.strides[1])))
         if self.padding == "VALID":
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
-            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[0])))
+            w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
         return [n_x, n_filters, h_out, w_out]
 
diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index aed312d..3ca6671 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -5521,14 +5521,18 @@ def _zeros_public(prot, shape, apply_scaling, share_type, factory) -> ABY3Public
 
 def _expand_private(prot, x, stride):
 
+    if isinstance(stride, int):
+        stride = (stride, stride)
     h_in = x.shape[0]
     w_in = x.shape[1]
-    h_out = (h_in - 1) * stride + 1
-    w_out = (w_in - 1) * stride + 1
+    h_out = (h_in - 1) * stride[0] + 1
+    w_out = (w_in - 1) * stride[1] + 1
     shape_out = [h_out, w_out] + x.shape[2:]
 
     I, J = tf.meshgrid(
-        tf.range(h_out, delta=stride), tf.range(w_out, delta=stride), indexing="ij"
+        tf.range(h_out, delta=stride[0]),
+        tf.range(w_out, delta=stride[1]),
+        indexing="ij",
     )
     indices = tf.stack([I, J], axis=2)
 
-- 
2.43.0


From c48cc17dfc7cb46fc10cdee2f6a3875d2bd2f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 68/75] fix: output shape announced by DepthwiseConv2D

---
 tf_encrypted/keras/layers/convolutional.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index 2066da7..564b99b 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -568,7 +568,8 @@ class DepthwiseConv2D(Conv2D):
 
     def compute_output_shape(self, input_shape):
         """Compute output_shape for the layer."""
-        h_filter, w_filter, _, n_filters = self.kernel_shape
+        h_filter, w_filter, _, _ = self.kernel_shape
+        n_filters = self.input_dim * self.depth_multiplier
 
         if self.data_format == "channels_first":
             n_x, _, h_x, w_x = input_shape
@@ -582,7 +583,10 @@ class DepthwiseConv2D(Conv2D):
             h_out = int(np.ceil(float(h_x - h_filter + 1) / float(self.strides[0])))
             w_out = int(np.ceil(float(w_x - w_filter + 1) / float(self.strides[1])))
 
-        return [n_x, n_filters, h_out, w_out]
+        if self.data_format == "channels_first":
+            return [n_x, n_filters, h_out, w_out]
+        else:
+            return [n_x, h_out, w_out, n_filters]
 
     def get_mask(self, in_channels):
         mask = np.zeros(
-- 
2.43.0


From 8801f49e4119403a7f21f11cb3038755ebf58d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 69/75] fix: training on a private tensor stopped after as many
 rows as it has columns

---
 tf_encrypted/keras/models/base_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index c548f8f..c8c30d3 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -212,7 +212,7 @@ def data_wrap(x, y=None, batch_size=32):
         def iter_over_data(x_data, y_data, batch_size):
             start_index = 0
             end_index = batch_size
-            while start_index < x_data[0].shape[0]:
+            while start_index < x_data.shape[0]:
                 yield (x_data[start_index:end_index], y_data[start_index:end_index])
                 start_index += batch_size
                 end_index += batch_size
-- 
2.43.0


From a042580655e2244b8e709417f6a609801ad26f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 70/75] fix: only the first epoch saw the training data

---
 tf_encrypted/keras/models/base_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index c8c30d3..3315638 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -109,12 +109,13 @@ class BaseModel(Layer):
                 the batch size, or 1 if that cannot be determined.
         """
 
-        data_iter = data_wrap(x, y, batch_size)
         if self.train_function is None:
             self.train_function = self.make_train_function()
         for e in range(epochs):
             print("Epoch {}/{}".format(e + 1, epochs))
             progbar = utils.Progbar(steps_per_epoch, verbose=verbose)
+            # every epoch starts over, a given iterator continues
+            data_iter = data_wrap(x, y, batch_size)
             for index, (input_x, input_y) in enumerate(data_iter):
                 start = time.time()
                 current_loss = self.train_function(input_x, input_y)
-- 
2.43.0


From 210c820db311fd714a61c766066c29ff115aee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 71/75] fix: predict ignored reveal after the first call

---
 tf_encrypted/keras/models/base_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index 3315638..6399736 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -30,7 +30,7 @@ class BaseModel(Layer):
         self._loss = None
         self._optimizer = None
         self.train_function = None
-        self.predict_function = None
+        self.predict_functions = {}
         self.test_function = None
 
     def __call__(self, inputs, *args, **kargs):
@@ -140,11 +140,11 @@ class BaseModel(Layer):
     def predict(self, x, batch_size=32, reveal=True):
         y_preds = []
         data_iter = data_wrap(x, None, batch_size)
-        if self.predict_function is None:
-            self.predict_function = self.make_predict_function(reveal)
+        if reveal not in self.predict_functions:
+            self.predict_functions[reveal] = self.make_predict_function(reveal)
 
         for input_x in data_iter:
-            y_pred = self.predict_function(input_x)
+            y_pred = self.predict_functions[reveal](input_x)
             y_preds.append(y_pred)
 
         if reveal:
-- 
2.43.0


From 2953ca24f1c53d440b0de8343b9d662128602fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 72/75] fix: the name of a model was taken for its trainable
 flag

---
 tf_encrypted/keras/models/base_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf_encrypted/keras/models/base_model.py b/tf_encrypted/keras/models/base_model.py
index 6399736..7499218 100644
--- a/tf_encrypted/keras/models/base_model.py
+++ b/tf_encrypted/keras/models/base_model.py
@@ -25,7 +25,7 @@ class BaseModel(Layer):
     """
 
     def __init__(self, name=None):
-        super(BaseModel, self).__init__(name)
+        super(BaseModel, self).__init__(name=name)
 
         self._loss = None
         self._optimizer = None
-- 
2.43.0


From 06f7cfe41941e78a501ef9052ffed6d4f0cca0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 73/75] fix: set_weights changed the list of weights it was
 given

---
 tf_encrypted/keras/engine/base_layer.py    | 2 ++
 tf_encrypted/keras/layers/convolutional.py | 2 ++
 tf_encrypted/keras/layers/normalization.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/tf_encrypted/keras/engine/base_layer.py b/tf_encrypted/keras/engine/base_layer.py
index c8f6551..9f99e1f 100644
--- a/tf_encrypted/keras/engine/base_layer.py
+++ b/tf_encrypted/keras/engine/base_layer.py
@@ -128,6 +128,8 @@ class Layer(ABC):
             matching the output of layer.get_weights() or a list
             of private tensors
         """
+        # the list belongs to the caller
+        weights = list(weights)
         weights_types = (np.ndarray, TFEPrivateTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
 
diff --git a/tf_encrypted/keras/layers/convolutional.py b/tf_encrypted/keras/layers/convolutional.py
index 564b99b..b6b2cda 100644
--- a/tf_encrypted/keras/layers/convolutional.py
+++ b/tf_encrypted/keras/layers/convolutional.py
@@ -612,6 +612,8 @@ class DepthwiseConv2D(Conv2D):
               of private variables
           sess: tfe session"""
 
+        # the list belongs to the caller
+        weights = list(weights)
         weights_types = (np.ndarray, TFEPrivateTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
 
diff --git a/tf_encrypted/keras/layers/normalization.py b/tf_encrypted/keras/layers/normalization.py
index 064deb0..cbeace1 100644
--- a/tf_encrypted/keras/layers/normalization.py
+++ b/tf_encrypted/keras/layers/normalization.py
@@ -224,6 +224,8 @@ class BatchNormalization(Layer):
           of private variables
         """
 
+        # the list belongs to the caller
+        weights = list(weights)
         weights_types = (np.ndarray, TFEPublicTensor)
         assert isinstance(weights[0], weights_types), type(weights[0])
         if isinstance(weights[0], np.ndarray):
-- 
2.43.0


From a84574cf244973a582cddcff279483bd465f2b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 74/75] fix: average pooling counted the padding

---
 tf_encrypted/keras/layers/pooling.py | 10 ++++++++--
 tf_encrypted/protocol/aby3/aby3.py   | 11 +++++++----
 tf_encrypted/protocol/pond/pond.py   | 19 +++++++++++--------
 tf_encrypted/tensor/shared.py        | 23 +++++++++++++++++++++++
 4 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index 0f3397b..c8a263c 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -2,10 +2,12 @@
 import math
 from abc import abstractmethod
 
+import numpy as np
 from tensorflow.python.keras.utils import conv_utils
 
 import tf_encrypted as tfe
 from tf_encrypted.keras.engine import Layer
+from tf_encrypted.tensor.shared import avg_pool_scale
 
 
 class Pooling2D(Layer):
@@ -261,7 +263,6 @@ class AveragePooling2D(Pooling2D):
     def backward(self, d_y):
         x = self._layer_input
         pool_len = self.pool_size[0] * self.pool_size[1]
-        scalar = 1 / pool_len
 
         if self.data_format != "channels_first":
             d_y = tfe.transpose(d_y, perm=[0, 3, 1, 2])
@@ -271,8 +272,13 @@ class AveragePooling2D(Pooling2D):
 
         batch, channels, h_y, w_y = d_y.shape
 
+        scale = avg_pool_scale([h_x, w_x], self.pool_size, self.strides, self.padding)
+        if isinstance(scale, np.ndarray):
+            scale = tfe.define_constant(
+                np.expand_dims(scale, 2), factory=d_y.backing_dtype
+            )
         _d_y = tfe.tile(tfe.expand_dims(d_y, 4), [1, 1, 1, 1, pool_len])
-        _d_y = _d_y * scalar
+        _d_y = _d_y * scale
         _d_y = tfe.reshape(_d_y, [batch * channels, h_y, w_y, pool_len])
 
         d_x = tfe.patches2im(
diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index 3ca6671..d797b55 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -36,6 +36,7 @@ from ...tensor.factory import AbstractTensor
 from ...tensor.fixed import FixedpointConfig
 from ...tensor.fixed import fixed64_heuristic
 from ...tensor.fixed import fixed128_heuristic
+from ...tensor.shared import avg_pool_scale
 from ...tensor.shared import out_size
 from ...tensor.shared import pad_size
 from ..protocol import Protocol
@@ -5426,17 +5427,19 @@ def __avgpool2d_computation(
 ) -> ABY3Tensor:
     batch, channels, height, width = x.shape
     out_height, out_width = out_size([height, width], pool_size, strides, padding)
-    scalar = 1 / (pool_size[0] * pool_size[1])
+    scale = avg_pool_scale([height, width], pool_size, strides, padding)
 
     with tf.name_scope("avgpool2d"):
         x_split = x.reshape((batch * channels, 1, height, width))
 
         y = prot.im2col(x_split, pool_size[0], pool_size[1], strides, padding)
-        i2c_max = y.reduce_sum(axis=0) * scalar
-        result = i2c_max.reshape([out_height, out_width, batch, channels]).transpose(
+        i2c_sum = y.reduce_sum(axis=0)
+        result = i2c_sum.reshape([out_height, out_width, batch, channels]).transpose(
             [2, 3, 0, 1]
         )
-        return result
+        if isinstance(scale, np.ndarray):
+            scale = prot.define_constant(scale, factory=x.backing_dtype)
+        return result * scale
 
 
 def _ones_private(prot, shape, apply_scaling, share_type, factory) -> ABY3PrivateTensor:
diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index e91e7a2..b606b86 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -40,6 +40,7 @@ from ...tensor.factory import AbstractVariable
 from ...tensor.fixed import FixedpointConfig
 from ...tensor.fixed import _validate_fixedpoint_config
 from ...tensor.helpers import inverse
+from ...tensor.shared import avg_pool_scale
 from ..protocol import Protocol
 from ..protocol import TFEPrivateTensor
 from ..protocol import TFEPrivateVariable
@@ -3293,7 +3294,9 @@ def _avgpool2d_core(
 ) -> Tuple[AbstractTensor, AbstractTensor, float]:
     x_on_0, x_on_1 = x.unwrapped
     _, _, h, w = x.shape
-    scalar = 1 / (pool_size[0] * pool_size[1])
+    scale = avg_pool_scale([h, w], pool_size, strides, padding)
+    if isinstance(scale, np.ndarray):
+        scale = prot.define_constant(scale, factory=x.backing_dtype)
     siamese = pool_size == strides and pool_size[0] == pool_size[1]
     even = h % pool_size[0] == 0 and w % pool_size[1] == 0
 
@@ -3308,7 +3311,7 @@ def _avgpool2d_core(
     with tf.device(prot.server_1.device_name):
         y_on_1 = pooler(x_on_1, pool_size, strides, padding)
 
-    return y_on_0, y_on_1, scalar
+    return y_on_0, y_on_1, scale
 
 
 def _avgpool2d_im2col_reduce(
@@ -3358,8 +3361,8 @@ def _avgpool2d_public(
 ) -> PondPublicTensor:
 
     with tf.name_scope("avgpool2d"):
-        y_on_0, y_on_1, scalar = _avgpool2d_core(prot, x, pool_size, strides, padding)
-        return PondPublicTensor(prot, y_on_0, y_on_1, x.is_scaled) * scalar
+        y_on_0, y_on_1, scale = _avgpool2d_core(prot, x, pool_size, strides, padding)
+        return PondPublicTensor(prot, y_on_0, y_on_1, x.is_scaled) * scale
 
 
 def _avgpool2d_private(
@@ -3371,14 +3374,14 @@ def _avgpool2d_private(
 ) -> PondPrivateTensor:
 
     with tf.name_scope("avgpool2d"):
-        y_on_0, y_on_1, scalar = _avgpool2d_core(
+        y_on_0, y_on_1, scale = _avgpool2d_core(
             prot,
             x,
             pool_size,
             strides,
             padding,
         )
-        return PondPrivateTensor(prot, y_on_0, y_on_1, x.is_scaled) * scalar
+        return PondPrivateTensor(prot, y_on_0, y_on_1, x.is_scaled) * scale
 
 
 def _avgpool2d_masked(
@@ -3390,10 +3393,10 @@ def _avgpool2d_masked(
 ) -> PondPrivateTensor:
 
     with tf.name_scope("avgpool2d"):
-        y_on_0, y_on_1, scalar = _avgpool2d_core(
+        y_on_0, y_on_1, scale = _avgpool2d_core(
             prot, x.unmasked, pool_size, strides, padding
         )
-        return PondPrivateTensor(prot, y_on_0, y_on_1, x.is_scaled) * scalar
+        return PondPrivateTensor(prot, y_on_0, y_on_1, x.is_scaled) * scale
 
 
 #
diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index 9f68ef8..b3f4068 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -2,6 +2,7 @@
 import math
 from typing import Optional
 
+import numpy as np
 import tensorflow as tf
 
 
@@ -210,6 +211,28 @@ def pad_size(input_size, kernel_size, strides):
     return [[pad_top, pad_bottom], [pad_left, pad_right]]
 
 
+def avg_pool_scale(in_size, pool_size, strides, padding):
+    """
+    The inverse of the number of pixels in each pooling window, where padding does
+    not count: a float if all windows are full, otherwise an array of output size.
+    """
+    scale = 1 / (pool_size[0] * pool_size[1])
+    if padding != "SAME":
+        return scale
+
+    in_size = [int(n) for n in in_size]
+    out = out_size(in_size, pool_size, strides, padding)
+    pads = pad_size(in_size, pool_size, strides)
+    counts = []
+    for n, m, k, s, (before, _) in zip(in_size, out, pool_size, strides, pads):
+        start = np.arange(m) * s - before
+        counts.append(np.minimum(start + k, n) - np.maximum(start, 0))
+    counts = np.outer(*counts)
+    if (counts == pool_size[0] * pool_size[1]).all():
+        return scale
+    return 1 / counts
+
+
 def im2col(
     x,
     h_filter: int,
-- 
2.43.0


From 85bc2170a17c6e1f50a19738e5e8acb04a25db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:03 +0000
Subject: [PATCH 75/75] fix: average pooling counts the padding, as its test
 says (reverts the previous commit)

---
 tf_encrypted/keras/layers/pooling.py | 10 ++--------
 tf_encrypted/protocol/aby3/aby3.py   | 11 ++++-------
 tf_encrypted/protocol/pond/pond.py   | 19 ++++++++-----------
 tf_encrypted/tensor/shared.py        | 23 -----------------------
 4 files changed, 14 insertions(+), 49 deletions(-)

diff --git a/tf_encrypted/keras/layers/pooling.py b/tf_encrypted/keras/layers/pooling.py
index c8a263c..0f3397b 100644
--- a/tf_encrypted/keras/layers/pooling.py
+++ b/tf_encrypted/keras/layers/pooling.py
@@ -2,12 +2,10 @@
 import math
 from abc import abstractmethod
 
-import numpy as np
 from tensorflow.python.keras.utils import conv_utils
 
 import tf_encrypted as tfe
 from tf_encrypted.keras.engine import Layer
-from tf_encrypted.tensor.shared import avg_pool_scale
 
 
 class Pooling2D(Layer):
@@ -263,6 +261,7 @@ class AveragePooling2D(Pooling2D):
     def backward(self, d_y):
         x = self._layer_input
         pool_len = self.pool_size[0] * self.pool_size[1]
+        scalar = 1 / pool_len
 
         if self.data_format != "channels_first":
             d_y = tfe.transpose(d_y, perm=[0, 3, 1, 2])
@@ -272,13 +271,8 @@ class AveragePooling2D(Pooling2D):
 
         batch, channels, h_y, w_y = d_y.shape
 
-        scale = avg_pool_scale([h_x, w_x], self.pool_size, self.strides, self.padding)
-        if isinstance(scale, np.ndarray):
-            scale = tfe.define_constant(
-                np.expand_dims(scale, 2), factory=d_y.backing_dtype
-            )
         _d_y = tfe.tile(tfe.expand_dims(d_y, 4), [1, 1, 1, 1, pool_len])
-        _d_y = _d_y * scale
+        _d_y = _d_y * scalar
         _d_y = tfe.reshape(_d_y, [batch * channels, h_y, w_y, pool_len])
 
         d_x = tfe.patches2im(
diff --git a/tf_encrypted/protocol/aby3/aby3.py b/tf_encrypted/protocol/aby3/aby3.py
index d797b55..3ca6671 100644
--- a/tf_encrypted/protocol/aby3/aby3.py
+++ b/tf_encrypted/protocol/aby3/aby3.py
@@ -36,7 +36,6 @@ from ...tensor.factory import AbstractTensor
 from ...tensor.fixed import FixedpointConfig
 from ...tensor.fixed import fixed64_heuristic
 from ...tensor.fixed import fixed128_heuristic
-from ...tensor.shared import avg_pool_scale
 from ...tensor.shared import out_size
 from ...tensor.shared import pad_size
 from ..protocol import Protocol
@@ -5427,19 +5426,17 @@ def __avgpool2d_computation(
 ) -> ABY3Tensor:
     batch, channels, height, width = x.shape
     out_height, out_width = out_size([height, width], pool_size, strides, padding)
-    scale = avg_pool_scale([height, width], pool_size, strides, padding)
+    scalar = 1 / (pool_size[0] * pool_size[1])
 
     with tf.name_scope("avgpool2d"):
         x_split = x.reshape((batch * channels, 1, height, width))
 
         y = prot.im2col(x_split, pool_size[0], pool_size[1], strides, padding)
-        i2c_sum = y.reduce_sum(axis=0)
-        result = i2c_sum.reshape([out_height, out_width, batch, channels]).transpose(
+        i2c_max = y.reduce_sum(axis=0) * scalar
+        result = i2c_max.reshape([out_height, out_width, batch, channels]).transpose(
             [2, 3, 0, 1]
         )
-        if isinstance(scale, np.ndarray):
-            scale = prot.define_constant(scale, factory=x.backing_dtype)
-        return result * scale
+        return result
 
 
 def _ones_private(prot, shape, apply_scaling, share_type, factory) -> ABY3PrivateTensor:
diff --git a/tf_encrypted/protocol/pond/pond.py b/tf_encrypted/protocol/pond/pond.py
index b606b86..e91e7a2 100644
--- a/tf_encrypted/protocol/pond/pond.py
+++ b/tf_encrypted/protocol/pond/pond.py
@@ -40,7 +40,6 @@ from ...tensor.factory import AbstractVariable
 from ...tensor.fixed import FixedpointConfig
 from ...tensor.fixed import _validate_fixedpoint_config
 from ...tensor.helpers import inverse
-from ...tensor.shared import avg_pool_scale
 from ..protocol import Protocol
 from ..protocol import TFEPrivateTensor
 from ..protocol import TFEPrivateVariable
@@ -3294,9 +3293,7 @@ def _avgpool2d_core(
 ) -> Tuple[AbstractTensor, AbstractTensor, float]:
     x_on_0, x_on_1 = x.unwrapped
     _, _, h, w = x.shape
-    scale = avg_pool_scale([h, w], pool_size, strides, padding)
-    if isinstance(scale, np.ndarray):
-        scale = prot.define_constant(scale, factory=x.backing_dtype)
+    scalar = 1 / (pool_size[0] * pool_size[1])
     siamese = pool_size == strides and pool_size[0] == pool_size[1]
     even = h % pool_size[0] == 0 and w % pool_size[1] == 0
 
@@ -3311,7 +3308,7 @@ def _avgpool2d_core(
     with tf.device(prot.server_1.device_name):
         y_on_1 = pooler(x_on_1, pool_size, strides, padding)
 
-    return y_on_0, y_on_1, scale
+    return y_on_0, y_on_1, scalar
 
 
 def _avgpool2d_im2col_reduce(
@@ -3361,8 +3358,8 @@ def _avgpool2d_public(
 ) -> PondPublicTensor:
 
     with tf.name_scope("avgpool2d"):
-        y_on_0, y_on_1, scale = _avgpool2d_core(prot, x, pool_size, strides, padding)
-        return PondPublicTensor(prot, y_on_0, y_on_1, x.is_scaled) * scale
+        y_on_0, y_on_1, scalar = _avgpool2d_core(prot, x, pool_size, strides, padding)
+        return PondPublicTensor(prot, y_on_0, y_on_1, x.is_scaled) * scalar
 
 
 def _avgpool2d_private(
@@ -3374,14 +3371,14 @@ def _avgpool2d_private(
 ) -> PondPrivateTensor:
 
     with tf.name_scope("avgpool2d"):
-        y_on_0, y_on_1, scale = _avgpool2d_core(
+        y_on_0, y_on_1, scalar = _avgpool2d_core(
             prot,
             x,
             pool_size,
             strides,
             padding,
         )
-        return PondPrivateTensor(prot, y_on_0, y_on_1, x.is_scaled) * scale
+        return PondPrivateTensor(prot, y_on_0, y_on_1, x.is_scaled) * scalar
 
 
 def _avgpool2d_masked(
@@ -3393,10 +3390,10 @@ def _avgpool2d_masked(
 ) -> PondPrivateTensor:
 
     with tf.name_scope("avgpool2d"):
-        y_on_0, y_on_1, scale = _avgpool2d_core(
+        y_on_0, y_on_1, scalar = _avgpool2d_core(
             prot, x.unmasked, pool_size, strides, padding
         )
-        return PondPrivateTensor(prot, y_on_0, y_on_1, x.is_scaled) * scale
+        return PondPrivateTensor(prot, y_on_0, y_on_1, x.is_scaled) * scalar
 
 
 #
diff --git a/tf_encrypted/tensor/shared.py b/tf_encrypted/tensor/shared.py
index b3f4068..9f68ef8 100644
--- a/tf_encrypted/tensor/shared.py
+++ b/tf_encrypted/tensor/shared.py
@@ -2,7 +2,6 @@
 import math
 from typing import Optional
 
-import numpy as np
 import tensorflow as tf
 
 
@@ -211,28 +210,6 @@ def pad_size(input_size, kernel_size, strides):
     return [[pad_top, pad_bottom], [pad_left, pad_right]]
 
 
-def avg_pool_scale(in_size, pool_size, strides, padding):
-    """
-    The inverse of the number of pixels in each pooling window, where padding does
-    not count: a float if all windows are full, otherwise an array of output size.
-    """
-    scale = 1 / (pool_size[0] * pool_size[1])
-    if padding != "SAME":
-        return scale
-
-    in_size = [int(n) for n in in_size]
-    out = out_size(in_size, pool_size, strides, padding)
-    pads = pad_size(in_size, pool_size, strides)
-    counts = []
-    for n, m, k, s, (before, _) in zip(in_size, out, pool_size, strides, pads):
-        start = np.arange(m) * s - before
-        counts.append(np.minimum(start + k, n) - np.maximum(start, 0))
-    counts = np.outer(*counts)
-    if (counts == pool_size[0] * pool_size[1]).all():
-        return scale
-    return 1 / counts
-
-
 def im2col(
     x,
     h_filter: int,
-- 
2.43.0

