From 42b578e6264ca0f35f73fb191efdd1291ecbc605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:15 +0000
Subject: [PATCH 01/13] fix: use collections.abc
 (collections.{Mapping,Sequence,Iterable} are gone since Python 3.10)

---
 haiku/_src/group_norm.py | 4 ++--
 haiku/_src/layer_norm.py | 4 ++--
 haiku/_src/stateful.py   | 3 ++-
 haiku/_src/utils.py      | 4 ++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 55c7956..213707a 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Group normalization implementation for Haiku."""
 
-import collections
+import collections.abc
 import types
 from typing import Optional, Sequence, Union
 
@@ -109,7 +109,7 @@ class GroupNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = axis
     else:
diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 257f28c..8df833f 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Layer Norm."""
 
-import collections
+import collections.abc
 import types
 from typing import Optional, Sequence, Union
 
@@ -75,7 +75,7 @@ class LayerNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = tuple(axis)
     else:
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 7d73dca..bd76b0b 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -15,6 +15,7 @@
 """Wrappers for JAX transformations that respect Haiku internal state."""
 
 import collections
+import collections.abc
 import functools
 import inspect
 from typing import Any, Callable, Mapping, MutableMapping, Optional, Tuple, TypeVar
@@ -45,7 +46,7 @@ def internal_state(*, params=True) -> InternalState:
 
 def update_recursive(dst: MutableMapping[Any, Any], src: Mapping[Any, Any]):
   for k, v in src.items():
-    if isinstance(v, collections.Mapping):
+    if isinstance(v, collections.abc.Mapping):
       dst.setdefault(k, {})
       update_recursive(dst[k], v)
     else:
diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index c28ad21..0bfbcb7 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Misc utility functions."""
 
-import collections
+import collections.abc
 import decimal
 import inspect
 import pprint
@@ -119,7 +119,7 @@ def replicate(
 ) -> Tuple[T]:
   """Replicates entry in `element` `num_times` if needed."""
   if (isinstance(element, (str, bytes)) or
-      not isinstance(element, collections.Sequence)):
+      not isinstance(element, collections.abc.Sequence)):
     return (element,) * num_times
   elif len(element) == 1:
     return tuple(element * num_times)
-- 
2.43.0


From a294143e5b8dee39434f816881c5f2b906c5994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:27 +0000
Subject: [PATCH 02/13] fix: jax.tree_multimap no longer exists, fall back to
 jax.tree_map

---
 haiku/_src/recurrent.py | 14 ++++++++------
 haiku/_src/stateful.py  | 13 ++++++++-----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/haiku/_src/recurrent.py b/haiku/_src/recurrent.py
index 306c518..5216c49 100644
--- a/haiku/_src/recurrent.py
+++ b/haiku/_src/recurrent.py
@@ -129,7 +129,7 @@ def static_unroll(core, input_sequence, initial_state, time_major=True):
     output_sequence.append(outputs)
 
   # Stack outputs along the time axis.
-  output_sequence = jax.tree_multimap(
+  output_sequence = stateful.tree_multimap(
       lambda *args: jnp.stack(args, axis=time_axis),
       *output_sequence)
   return output_sequence, state
@@ -670,14 +670,16 @@ class ResetCore(RNNCore):
     # >> batch_entry 1:
     # >>  [[0. 0.]
     # >>  [0. 0.]]
-    should_reset = jax.tree_multimap(_validate_and_conform, should_reset, state)
+    should_reset = stateful.tree_multimap(
+        _validate_and_conform, should_reset, state)
     if self._is_batched(state):
       batch_size = jax.tree_leaves(inputs)[0].shape[0]
     else:
       batch_size = None
-    initial_state = jax.tree_multimap(
+    initial_state = stateful.tree_multimap(
         lambda s, i: i.astype(s.dtype), state, self.initial_state(batch_size))
-    state = jax.tree_multimap(jnp.where, should_reset, initial_state, state)
+    state = stateful.tree_multimap(
+        jnp.where, should_reset, initial_state, state)
     return self.core(inputs, state)
 
   def initial_state(self, batch_size: Optional[int]):
@@ -718,7 +720,7 @@ class _DeepRNN(RNNCore):
     concat = lambda *args: jnp.concatenate(args, axis=-1)
     for idx, layer in enumerate(self.layers):
       if self.skip_connections and idx > 0:
-        current_inputs = jax.tree_multimap(concat, inputs, current_inputs)
+        current_inputs = stateful.tree_multimap(concat, inputs, current_inputs)
 
       if isinstance(layer, RNNCore):
         current_inputs, next_state = layer(current_inputs, state[state_idx])
@@ -729,7 +731,7 @@ class _DeepRNN(RNNCore):
         current_inputs = layer(current_inputs)
 
     if self.skip_connections:
-      out = jax.tree_multimap(concat, *outputs)
+      out = stateful.tree_multimap(concat, *outputs)
     else:
       out = current_inputs
 
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index bd76b0b..a32f70b 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -28,6 +28,9 @@ InternalState = collections.namedtuple("InternalState", "params,state,rng")
 Bundle = Mapping[str, Mapping[str, Any]]
 T = TypeVar("T")
 
+# `jax.tree_map` accepts multiple trees in versions of JAX without tree_multimap.
+tree_multimap = getattr(jax, "tree_multimap", jax.tree_map)
+
 
 def copy_structure(bundle: T) -> T:
   return jax.tree_map(lambda x: x, bundle)
@@ -309,16 +312,16 @@ def difference(before: InternalState, after: InternalState) -> InternalState:
   is_new_param = lambda a, b: a is not b
   params_before, params_after = box_and_fill_missing(before.params,
                                                      after.params)
-  params_after = jax.tree_multimap(functools.partial(if_changed, is_new_param),
-                                   params_before, params_after)
+  params_after = tree_multimap(functools.partial(if_changed, is_new_param),
+                               params_before, params_after)
 
   # state
   def is_new_state(a: base.StatePair, b: base.StatePair):
     return a.initial is not b.initial or a.current is not b.current
 
   state_before, state_after = box_and_fill_missing(before.state, after.state)
-  state_after = jax.tree_multimap(functools.partial(if_changed, is_new_state),
-                                  state_before, state_after)
+  state_after = tree_multimap(functools.partial(if_changed, is_new_state),
+                              state_before, state_after)
 
   # rng
   def is_new_rng(a: Optional[base.PRNGSequenceState],
@@ -506,7 +509,7 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = jax.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    ys = tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
 
   return carry, ys
 
-- 
2.43.0


From 1656b055d9f40e502b6e23b0fe449190cc31cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:37 +0000
Subject: [PATCH 03/13] fix: hk.scan(reverse=True) misordered its outputs
 during init

---
 haiku/_src/stateful.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index a32f70b..8ce5965 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -509,7 +509,9 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    # NOTE: `y0` is the output for the last element of `xs` if `reverse`.
+    concat = lambda y0, ys: jnp.concatenate([ys, y0] if reverse else [y0, ys])
+    ys = tree_multimap(concat, y0, ys)
 
   return carry, ys
 
-- 
2.43.0


From e4063b3bccf3d26507d56b94aef3fb33c15c6487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:37 +0000
Subject: [PATCH 04/13] fix: GroupNorm normalized over the wrong axes if axis
 was negative

---
 haiku/_src/group_norm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 213707a..caf1fcd 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -221,6 +221,9 @@ class GroupNorm(hk.Module):
       axes = tuple(range(self.rank))
       self.axis = axes[self.axis]
 
+    # Negative axes count from the end of the ungrouped input.
+    self.axis = tuple(a + self.rank if a < 0 else a for a in self.axis)
+
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
       self.group_shape = (
-- 
2.43.0


From 2b2713c9820614cccb082b7d73301e8b224be5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:37 +0000
Subject: [PATCH 05/13] fix: without_apply_rng(hk.transform(f)) returned a
 TransformedWithState

---
 haiku/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/transform.py b/haiku/_src/transform.py
index b439f7e..55fa353 100644
--- a/haiku/_src/transform.py
+++ b/haiku/_src/transform.py
@@ -145,7 +145,7 @@ def without_apply_rng(f: TransformedT) -> TransformedT:
 
   tie_in_original_fn(f, f.init, apply_fn)
 
-  return TransformedWithState(init=f.init, apply=apply_fn)
+  return f._replace(apply=apply_fn)
 
 
 # TODO(tomhennigan) Remove apply_rng.
-- 
2.43.0


From c54320771cbab3605aa2c996c5a02d635b159274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:28 +0000
Subject: [PATCH 06/13] fix: assert_state_unchanged missed the use of reserved
 rng keys

hk.while_loop rejects the use of random keys in cond_fun, but only noticed
keys being added to the sequence: a cond_fun consuming a key reserved earlier
with hk.reserve_rng_keys was accepted, and shared that key with body_fun.
---
 haiku/_src/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index a2bb0b0..b386de8 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -839,7 +839,8 @@ def assert_state_unchanged():
 
   params_diff = params_after - params_before
   state_diff = state_after - state_before
-  rng_diff = rng_after - rng_before
+  # NOTE: Consuming a reserved key only removes keys, so compare both ways.
+  rng_diff = rng_after ^ rng_before
   if params_diff or state_diff or rng_diff:
     raise StateChangedError("Within this code block you are not able to modify "
                             "Haiku managed state (e.g. via `next_rng_key` or "
-- 
2.43.0


From c5e3a48e7d97fef147d7e8ac79aac07407fc34c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:04 +0000
Subject: [PATCH 07/13] fix: ConvND rejected the documented padding given as
 (low, high) pairs

---
 haiku/_src/pad.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/haiku/_src/pad.py b/haiku/_src/pad.py
index dd99f2a..a9b2895 100644
--- a/haiku/_src/pad.py
+++ b/haiku/_src/pad.py
@@ -53,7 +53,8 @@ def reverse_causal(effective_kernel_size: int) -> Tuple[int, int]:
 
 
 def create(
-    padding: Union[hk.pad.PadFn, Sequence[hk.pad.PadFn]],
+    padding: Union[hk.pad.PadFn, Sequence[hk.pad.PadFn],
+                   Sequence[Tuple[int, int]]],
     kernel: Union[int, Sequence[int]],
     rate: Union[int, Sequence[int]],
     n: int,
@@ -64,7 +65,8 @@ def create(
     padding: callable or list of callables of length n. The callables take an
       integer representing the effective kernel size (kernel size when the rate
       is 1) and return a list of two integers representing the padding before
-      and padding after for that dimension.
+      and padding after for that dimension. Explicit ``(before, after)`` pairs
+      can be given instead of callables and are used as they are.
     kernel: int or list of ints of length ``n``. The size of the kernel for each
       dimension. If it is an int it will be replicated for the non channel and
       batch dimensions.
@@ -83,7 +85,7 @@ def create(
       lambda kernel, rate: (kernel - 1) * rate + 1,
       utils.replicate(kernel, n, "kernel"), utils.replicate(rate, n, "rate"))
   paddings = map(  # pylint: disable=deprecated-lambda
-      lambda x, y: x(y), utils.replicate(padding, n, "padding"),
-      effective_kernel_size)
+      lambda x, y: x(y) if callable(x) else tuple(x),
+      utils.replicate(padding, n, "padding"), effective_kernel_size)
 
   return tuple(paddings)
-- 
2.43.0


From 0b3e2ceb6ace5e1d4d28fd3b8cdbd8a159b14551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:21 +0000
Subject: [PATCH 08/13] fix: a module name ending in a newline was accepted as
 a valid identifier

---
 haiku/_src/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/module.py b/haiku/_src/module.py
index ac0a3eb..22772b7 100644
--- a/haiku/_src/module.py
+++ b/haiku/_src/module.py
@@ -439,7 +439,7 @@ def wrap_method(method_name, unbound_method):
   return wrapped
 
 
-_VALID_IDENTIFIER_R = re.compile(r"^[a-zA-Z_]([a-zA-Z0-9_])*$")
+_VALID_IDENTIFIER_R = re.compile(r"^[a-zA-Z_]([a-zA-Z0-9_])*\Z")
 valid_identifier = lambda name: bool(_VALID_IDENTIFIER_R.match(name))
 
 
-- 
2.43.0


From 9500f627913808d6d1065b72c7473453e45f0ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 09/13] fix: GroupNorm uses the sizes of the current input, not
 of the first one

---
 haiku/_src/group_norm.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index caf1fcd..9ff0c6a 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -181,7 +181,8 @@ class GroupNorm(hk.Module):
           f"was channels={channels}, groups={self.groups}")
 
     if self.rank is None:
-      self._initialize(x, channels)
+      self._initialize(x)
+    self._set_shapes(x, channels)
 
     dtype = x.dtype
     if self.channel_index == -1:
@@ -212,7 +213,7 @@ class GroupNorm(hk.Module):
 
     return x
 
-  def _initialize(self, x: jnp.ndarray, channels: int):
+  def _initialize(self, x: jnp.ndarray):
     assert self.rank is None
     self.rank = x.ndim
 
@@ -226,11 +227,17 @@ class GroupNorm(hk.Module):
 
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
+    else:
+      assert self.channel_index == 1
+      self.axis = tuple(a if a == 0 else a + 1 for a in self.axis)
+
+  def _set_shapes(self, x: jnp.ndarray, channels: int):
+    # The sizes (unlike the rank) of the inputs may change between calls.
+    if self.channel_index == -1:
       self.group_shape = (
           (-1,) + x.shape[1:-1] + (self.groups, channels // self.groups))
     else:
       assert self.channel_index == 1
-      self.axis = tuple(a if a == 0 else a + 1 for a in self.axis)
       self.group_shape = (
           (-1, self.groups, channels // self.groups) + x.shape[2:])
 
-- 
2.43.0


From 2abe3daa977fe8cd0f0110ecd1f3db986bdbab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 10/13] fix: ExponentialMovingAverage warmup with values that
 are not float32

---
 haiku/_src/moving_averages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/moving_averages.py b/haiku/_src/moving_averages.py
index b5f0e35..db47470 100644
--- a/haiku/_src/moving_averages.py
+++ b/haiku/_src/moving_averages.py
@@ -115,7 +115,7 @@ class ExponentialMovingAverage(hk.Module):
 
     decay = jax.lax.convert_element_type(self.decay, value.dtype)
     if self.warmup_length > 0:
-      decay = jax.lax.select(counter <= 0, 0.0, decay)
+      decay = jax.lax.select(counter <= 0, jnp.zeros_like(decay), decay)
 
     one = jnp.ones([], value.dtype)
     hidden = hk.get_state("hidden", value.shape, value.dtype, init=jnp.zeros)
-- 
2.43.0


From ee085e87356543cc77eb2bccd9a31922635b875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 11/13] fix: Bias accepts any sequence as output_size

---
 haiku/_src/bias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/bias.py b/haiku/_src/bias.py
index 1dbb31b..11fa7d6 100644
--- a/haiku/_src/bias.py
+++ b/haiku/_src/bias.py
@@ -91,7 +91,7 @@ class Bias(hk.Module):
       name: Name of the module.
     """
     super().__init__(name=name)
-    self.output_size = output_size
+    self.output_size = None if output_size is None else tuple(output_size)
     self.bias_dims = bias_dims
     self.b_init = b_init or jnp.zeros
     self.bias_shape = None
-- 
2.43.0


From f0677f5da67f71a656a1f2977728e9230ec7a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 12/13] fix: InstanceNorm with channels_first scales and
 offsets per channel

---
 haiku/_src/layer_norm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 8df833f..cac7bfc 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -86,6 +86,7 @@ class LayerNorm(hk.Module):
     self.create_offset = create_offset
     self.scale_init = scale_init or jnp.ones
     self.offset_init = offset_init or jnp.zeros
+    self._param_axis = -1
 
   def __call__(
       self,
@@ -123,7 +124,8 @@ class LayerNorm(hk.Module):
     mean = jnp.mean(inputs, axis=axis, keepdims=True)
     variance = jnp.var(inputs, axis=axis, keepdims=True)
 
-    param_shape = inputs.shape[-1:]
+    param_shape = inputs.shape[self._param_axis:]
+    param_shape = param_shape[:1] + (1,) * (len(param_shape) - 1)
     if self.create_scale:
       scale = hk.get_parameter("scale", param_shape, inputs.dtype,
                                init=self.scale_init)
@@ -192,3 +194,4 @@ class InstanceNorm(LayerNorm):
         scale_init=scale_init,
         offset_init=offset_init,
         name=name)
+    self._param_axis = utils.get_channel_index(data_format)
-- 
2.43.0


From fc115253aa84653f8278e0a5c17c0a0b6ae454ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 13/13] fix: hold on to values while asserting that state is
 unchanged

assert_state_unchanged compared ids of values that were no longer referenced;
an id could be reused by a new value and the change went unnoticed.
---
 haiku/_src/base.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index b386de8..1f1bc3c 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -803,9 +803,10 @@ def assert_no_new_parameters():
     raise AssertionError(f"New parameters were created: {list(sorted(diff))}")
 
 
-def _get_ids(collection_name: str) -> FrozenSet[int]:
-  """Returns the identity for all state in the current context."""
-  out = []
+def _get_by_id(collection_name: str) -> Mapping[int, Any]:
+  """Returns all state in the current context by identity."""
+  # NOTE: Referencing the values prevents their ids from being reused.
+  out = {}
   collection = getattr(current_frame(), collection_name)
   for mod_name, bundle in collection.items():
     if not isinstance(bundle, Mapping):
@@ -813,20 +814,20 @@ def _get_ids(collection_name: str) -> FrozenSet[int]:
       warnings.warn(f"Invalid entry {mod_name!r} in collection {collection}")
       continue
 
-    out.extend(map(id, bundle.values()))
+    out.update((id(v), v) for v in bundle.values())
 
-  return frozenset(out)
+  return out
 
 
 def _all_state():
-  params = _get_ids("params")
-  state = _get_ids("state")
+  params = _get_by_id("params")
+  state = _get_by_id("state")
   rng = current_frame().rng_stack.peek()
   if rng is not None:
     key, subkeys = rng.internal_state
-    rng = frozenset(map(id, [key] + list(subkeys)))
+    rng = {id(v): v for v in [key] + list(subkeys)}
   else:
-    rng = frozenset()
+    rng = {}
   return params, state, rng
 
 
@@ -837,10 +838,10 @@ def assert_state_unchanged():
   yield
   params_after, state_after, rng_after = _all_state()
 
-  params_diff = params_after - params_before
-  state_diff = state_after - state_before
+  params_diff = params_after.keys() - params_before.keys()
+  state_diff = state_after.keys() - state_before.keys()
   # NOTE: Consuming a reserved key only removes keys, so compare both ways.
-  rng_diff = rng_after ^ rng_before
+  rng_diff = rng_after.keys() ^ rng_before.keys()
   if params_diff or state_diff or rng_diff:
     raise StateChangedError("Within this code block you are not able to modify "
                             "Haiku managed state (e.g. via `next_rng_key` or "
-- 
2.43.0

