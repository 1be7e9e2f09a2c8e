From d94251174332b371b66f987d7a83701feace0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 01/58] fix: remove freeze_parameters overrides when its
 context exits

---
 src/fastforward/quantization/freeze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index 0a66805..fd5de4b 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -114,7 +114,7 @@ def freeze_parameters(
         for submodule in module.modules():
             for _, quantizer in ff.nn.quantized_module.named_quantizers(submodule, recurse=False):
                 override = _FreezeParametersOverride(submodule, remove_quantizer=remove_quantizers)
-                quantizer.register_override(override)
+                hooks.append(quantizer.register_override(override))
 
     try:
         # Disable strict quantization because override returns 'normal' tensors.
-- 
2.43.0


From a56992b20dcfe2f38c13c5c76cabdbbf1126a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 02/58] fix: restore strict quantization flag when a hooked
 module raises

---
 src/fastforward/quantization/strict_quantization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/strict_quantization.py b/src/fastforward/quantization/strict_quantization.py
index ace6068..9cf98b4 100644
--- a/src/fastforward/quantization/strict_quantization.py
+++ b/src/fastforward/quantization/strict_quantization.py
@@ -65,7 +65,7 @@ class ModuleStrictQuantHandle:
             module: The module to attach hooks to.
         """
         pre_handle = module.register_forward_pre_hook(self._pre_forward_hook)
-        post_handle = module.register_forward_hook(self._post_forward_hook)
+        post_handle = module.register_forward_hook(self._post_forward_hook, always_call=True)
         self._handles.append(pre_handle)
         self._handles.append(post_handle)
 
-- 
2.43.0


From ed3ecda33004adf64f00c40cb5245210cefdc1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 03/58] fix: clean up prepared modules when range estimation
 setup fails

---
 src/fastforward/range_setting/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/range_setting/common.py b/src/fastforward/range_setting/common.py
index 128f065..a390ac6 100644
--- a/src/fastforward/range_setting/common.py
+++ b/src/fastforward/range_setting/common.py
@@ -278,11 +278,11 @@ def estimate_ranges(
         )
 
     prepared_modules: list[tuple[_Module, _T]] = []
-    for module in model_or_layers:
-        for module_part in estimator.split_module(module):
-            metadata = estimator.prepare(module_part)
-            prepared_modules.append((module_part, metadata))
     try:
+        for module in model_or_layers:
+            for module_part in estimator.split_module(module):
+                metadata = estimator.prepare(module_part)
+                prepared_modules.append((module_part, metadata))
         yield
     finally:
         for module, metadata in prepared_modules:
-- 
2.43.0


From f13e40150c773ce579ed6bf7fd47a22dfe4e51f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 04/58] fix: do not concatenate raw data of tensors with
 different offsets

---
 src/fastforward/quantization/_linear_quantized_ops.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index 75acbf3..56be628 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -192,7 +192,7 @@ def cat_predicate(
     scale: torch.Tensor | float | None = None
     offset: torch.Tensor | float | None = None
 
-    for tensor in tensors:
+    for idx, tensor in enumerate(tensors):
         if not isinstance(tensor, QuantizedTensor):
             return False  # type: ignore[unreachable]
 
@@ -207,7 +207,12 @@ def cat_predicate(
             return False
 
         scale_match = scale is None or quant_params.scale == scale
-        offset_match = offset is None or quant_params.offset == offset
+        if idx == 0:
+            offset_match = True
+        elif offset is None or quant_params.offset is None:
+            offset_match = offset is quant_params.offset
+        else:
+            offset_match = bool(quant_params.offset == offset)
         if not (scale_match and offset_match):
             return False
         scale = quant_params.scale
-- 
2.43.0


From 9811ffdde6694d87b0175cd54f5ee4ae2e1489c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 05/58] fix: shift channel axes correctly when unsqueezing a
 per-channel tensor

---
 src/fastforward/quantization/_linear_quantized_ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index 56be628..7549879 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -248,7 +248,9 @@ def unsqueeze(input: QuantizedTensor, dim: int) -> QuantizedTensor:
         case ff.PerTensor():
             new_context = input.quantization_context
         case ff.PerChannel(axis):
-            new_axis = tuple(ax + ax >= dim for ax in axis)
+            ndim = input.raw_data.ndim
+            new_dim = dim % (ndim + 1)
+            new_axis = tuple(ax % ndim + (ax % ndim >= new_dim) for ax in axis)
             new_context = input.quantization_context.with_changes(
                 granularity=ff.PerChannel(new_axis)
             )
-- 
2.43.0


From 4228adda0a361a7d46a362d97d8ece279a45d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 06/58] fix: guard same-shape view predicates against
 non-quantized inputs

---
 src/fastforward/quantized_tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantized_tensor.py b/src/fastforward/quantized_tensor.py
index 3082ccc..8bffd22 100644
--- a/src/fastforward/quantized_tensor.py
+++ b/src/fastforward/quantized_tensor.py
@@ -568,6 +568,8 @@ def _dequantization_fallback(func: Callable[..., _U], *args: Any, **kwargs: Any)
 # tensors. This implementation works for any quantizer.
 @Predicate
 def _view_predicate(self: QuantizedTensor, *shape: int | Sequence[int] | torch.Size) -> bool:
+    if not isinstance(self, QuantizedTensor):
+        return False  # type: ignore[unreachable]
     if len(shape) == 1 and (isinstance(shape[0], torch.Size) or isinstance(shape[0], Sequence)):
         shape = torch.Size(shape[0])
     else:
@@ -577,7 +579,7 @@ def _view_predicate(self: QuantizedTensor, *shape: int | Sequence[int] | torch.S
 
 @Predicate
 def _view_as_predicate(self: QuantizedTensor, other: torch.Tensor) -> bool:
-    if not isinstance(other, torch.Tensor):
+    if not isinstance(self, QuantizedTensor) or not isinstance(other, torch.Tensor):
         return False  # type: ignore[unreachable]
     return other.shape == self.shape
 
-- 
2.43.0


From 3085ad903fbfb72bf37d254401d0023bbc01f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 07/58] fix: keep the scale of a degenerate symmetric range
 away from zero

---
 src/fastforward/quantization/affine/range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/affine/range.py b/src/fastforward/quantization/affine/range.py
index 19e70b6..515b631 100644
--- a/src/fastforward/quantization/affine/range.py
+++ b/src/fastforward/quantization/affine/range.py
@@ -108,7 +108,8 @@ def parameters_for_range(
         # Choose scale such that entire range falls within bounds
         neg_scale = torch.abs(min_range) / abs(int_min)
         pos_scale = torch.abs(max_range) / abs(integer_maximum(num_bits))
-        return torch.max(neg_scale, pos_scale), None
+        scale = torch.max(neg_scale, pos_scale)
+        return scale.clamp(torch.finfo(scale.dtype).eps), None
     else:
         # Choose scale and offset such that integer_minimum and integer_maximum
         # map to min and max, respectively.
-- 
2.43.0


From 64b707c54e43491fd8843dbf8615b6662e06cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 08/58] fix: compare all attributes of PerBlock granularities

---
 src/fastforward/quantization/granularity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastforward/quantization/granularity.py b/src/fastforward/quantization/granularity.py
index f106b24..3c555ac 100644
--- a/src/fastforward/quantization/granularity.py
+++ b/src/fastforward/quantization/granularity.py
@@ -168,6 +168,8 @@ class PerBlock(Granularity):
             corresponding dimensions.
     """
 
+    __match_args__ = ("block_dims", "block_sizes", "per_channel_dims", "strict_blocks")
+
     def __init__(
         self,
         block_dims: int | Sequence[int],
-- 
2.43.0


From 13fe9375651d396bbdfb420a074df983520b3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 09/58] fix: invalidate derived graph state when inputs or
 outputs are added

---
 src/fastforward/_orchestration/graph_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 7540431..f1249f5 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -491,6 +491,7 @@ class GraphModule(torch.nn.Module):
         if name in self._inputs:
             msg = f"Duplicate input name: {name}"
             raise ValueError(msg)
+        self._invalidate_caches()
         ref = InputRef(uuid.uuid4(), name)
         self._inputs[name] = ref
         return ref
@@ -504,6 +505,7 @@ class GraphModule(torch.nn.Module):
         Args:
             nodes: Sequence of NodeRef or AttributeRef to be added as outputs.
         """
+        self._invalidate_caches()
         for node in nodes:
             match base_ref := node.unwrap_ref():
                 case NodeRef(id=node_id, name=node_name):
-- 
2.43.0


From 5b86332011fc24390d004ec9e1c74b24170ba86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 10/58] fix: call func for every module in
 MPathCollection.apply(update=False)

---
 src/fastforward/mpath/_search.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/_search.py b/src/fastforward/mpath/_search.py
index 846ff77..7c7e660 100644
--- a/src/fastforward/mpath/_search.py
+++ b/src/fastforward/mpath/_search.py
@@ -111,7 +111,8 @@ class MPathCollection(abc.Sequence[FilterResult]):
         """
         _results: list[FilterResult] = []
         for result in self._results:
-            if update and (new_module := func(result.full_name, result.module)) is not None:
+            new_module = func(result.full_name, result.module)
+            if update and new_module is not None:
                 result = result.update_module(new_module, safe=safe)
             _results.append(result)
         self._results = _results
-- 
2.43.0


From 26113ff6763e779db34c172ac81bed09e7dfe6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 11/58] fix: report the offending type of unsupported FX
 arguments

---
 src/fastforward/_orchestration/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index b21f813..c3d3b20 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -324,7 +324,7 @@ class _GraphBuilder:
                     op=Op.call_function,
                 )
             case _:
-                raise TypeError("Unsupported FX argument type: {type(x)!r}")
+                raise TypeError(f"Unsupported FX argument type: {type(x)!r}")
 
     def _convert_args(self, fx_node: fx.Node) -> tuple[tuple[_BaseRef, ...], dict[str, _BaseRef]]:
         """Convert all positional and keyword FX args of a node into `_BaseRef`."""
-- 
2.43.0


From 22174c110de6045adb17e3785f385cdbbc79ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 12/58] fix: detach module recorders when the exported model
 raises

---
 src/fastforward/export/module_export.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/fastforward/export/module_export.py b/src/fastforward/export/module_export.py
index 18ed40c..7d59c2e 100644
--- a/src/fastforward/export/module_export.py
+++ b/src/fastforward/export/module_export.py
@@ -136,15 +136,12 @@ def export_modules(
             )
 
     module_io_recorders: list[ModuleIORecorder] = []
-    for module_name, module in modules.items():
-        module_io_recorder = ModuleIORecorder(module, module_name)
-        module_io_recorders.append(module_io_recorder)
-        module_io_recorder.attach()
-
-    model(*args, **kwargs)
+    with ExitStack() as stack:
+        for module_name, module in modules.items():
+            module_io_recorder = ModuleIORecorder(module, module_name)
+            module_io_recorders.append(stack.enter_context(module_io_recorder))
 
-    for module_io_recorder in module_io_recorders:
-        module_io_recorder.detach()
+        model(*args, **kwargs)
 
     paths: dict[str, pathlib.Path] = {}
 
-- 
2.43.0


From 93709747ff24bddbdd2c1d10ebd4709f0fe3f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 13/58] fix: only mark encodings symmetric when every offset is
 zero

---
 src/fastforward/export/_export_schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 513de00..bb742a0 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -48,7 +48,7 @@ def _preprocess_quantization_params(
     offset = ensure_tensor(offset)
     offset = torch.round(offset)
 
-    is_symmetric = (torch.all(offset).item()) == 0
+    is_symmetric = bool(torch.all(offset == 0).item())
     bitwidth = _strict_cast_to_int(bitwidth, "bitwidth")
 
     qnn_offset = offset - 2 ** (bitwidth - 1)
-- 
2.43.0


From 157d37d1097ed211037d2c80d47750ef255328a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:12 +0000
Subject: [PATCH 14/58] fix: reject fractional bitwidths in QDQ quantize
 lowering

---
 src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
index 1c70840..f78dab9 100644
--- a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
@@ -128,10 +128,9 @@ def _make_ff_quantize_by_tile_onnx(op: Any) -> Callable[..., Any]:
         offset: Any | None = None,
     ) -> Any:
         del output_dtype
-        bitwidth = int(num_bits)
         axis = _ff_axis_from_tile_size(tile_size, data=input)
         zero_point = _ff_zero_point_from_offset(scale, offset, op)
-        zero_point = op.Cast(zero_point, to=_ff_quant_dtype_for_bitwidth(bitwidth))
+        zero_point = op.Cast(zero_point, to=_ff_quant_dtype_for_bitwidth(num_bits))
         if axis is None:
             return op.QuantizeLinear(input, scale, zero_point)
         return op.QuantizeLinear(input, scale, zero_point, axis=axis)
-- 
2.43.0


From 5fe4809164b4aded0dcc40f82ba6c427c51fc6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:12 +0000
Subject: [PATCH 15/58] fix: evaluate must_advance of combined mpath fragments

---
 src/fastforward/mpath/fragments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/mpath/fragments.py b/src/fastforward/mpath/fragments.py
index 739683b..00c994d 100644
--- a/src/fastforward/mpath/fragments.py
+++ b/src/fastforward/mpath/fragments.py
@@ -171,7 +171,7 @@ class JointFragment(Fragment):
 
     @override
     def must_advance(self) -> bool:
-        return all(fragment.must_advance for fragment in self._selector_fragments)
+        return all(fragment.must_advance() for fragment in self._selector_fragments)
 
     @override
     def match(self, fragment_name: str, module: torch.nn.Module) -> bool:
@@ -204,7 +204,7 @@ class DisjointFragment(Fragment):
 
     @override
     def must_advance(self) -> bool:
-        return all(fragment.must_advance for fragment in self._selector_fragments)
+        return all(fragment.must_advance() for fragment in self._selector_fragments)
 
     @override
     def match(self, fragment_name: str, module: torch.nn.Module) -> bool:
-- 
2.43.0


From 57628eaadf31939aff9d7462899aff24799dbd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 16/58] fix: restore strict quantization flag for nested and
 repeated module hooks

---
 .../quantization/strict_quantization.py       | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/quantization/strict_quantization.py b/src/fastforward/quantization/strict_quantization.py
index 9cf98b4..a6d8821 100644
--- a/src/fastforward/quantization/strict_quantization.py
+++ b/src/fastforward/quantization/strict_quantization.py
@@ -29,9 +29,11 @@ class ModuleStrictQuantHandle:
         """
         self._enable_strict_quantization = enable_strict_quantization
         self._handles: list[RemovableHandle] = []
-        self._module_original_strict_mode: weakref.WeakKeyDictionary[torch.nn.Module, bool] = (
-            weakref.WeakKeyDictionary()
-        )
+        # A module may be entered more than once before it is left again, e.g., when it is
+        # attached twice or called recursively. Hence, keep a stack of original values.
+        self._module_original_strict_mode: weakref.WeakKeyDictionary[
+            torch.nn.Module, list[bool]
+        ] = weakref.WeakKeyDictionary()
 
     def _pre_forward_hook(self, module: torch.nn.Module, args: tuple[Any, ...]) -> None:
         """Pre-forward hook to set the strict quantization mode before module execution.
@@ -41,7 +43,8 @@ class ModuleStrictQuantHandle:
             args: The arguments passed to the module.
         """
         del args
-        self._module_original_strict_mode[module] = ff.get_strict_quantization()
+        original_modes = self._module_original_strict_mode.setdefault(module, [])
+        original_modes.append(ff.get_strict_quantization())
         ff.set_strict_quantization(self._enable_strict_quantization)
 
     def _post_forward_hook(
@@ -55,8 +58,8 @@ class ModuleStrictQuantHandle:
             output: The output of the module.
         """
         del args, output
-        if (strict_mode := self._module_original_strict_mode.get(module, None)) is not None:
-            ff.set_strict_quantization(strict_mode)
+        if original_modes := self._module_original_strict_mode.get(module):
+            ff.set_strict_quantization(original_modes.pop())
 
     def attach(self, module: torch.nn.Module) -> None:
         """Attach the pre-forward and post-forward hooks to a module.
@@ -65,7 +68,11 @@ class ModuleStrictQuantHandle:
             module: The module to attach hooks to.
         """
         pre_handle = module.register_forward_pre_hook(self._pre_forward_hook)
-        post_handle = module.register_forward_hook(self._post_forward_hook, always_call=True)
+        # Post hooks must run in reverse order of the pre hooks, otherwise nested handles
+        # restore each other's value.
+        post_handle = module.register_forward_hook(
+            self._post_forward_hook, prepend=True, always_call=True
+        )
         self._handles.append(pre_handle)
         self._handles.append(post_handle)
 
-- 
2.43.0


From 7fd92946d2b36c47146d6dd597d67900528782b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 17/58] fix: do not scale calibration activations in-place

---
 src/fastforward/quantization/gptq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/gptq.py b/src/fastforward/quantization/gptq.py
index de3ea4f..d725380 100644
--- a/src/fastforward/quantization/gptq.py
+++ b/src/fastforward/quantization/gptq.py
@@ -306,7 +306,8 @@ def calculate_hessian(
         hessian.mul_(n_samples / (n_samples + x.shape[1]))
         n_samples += x.shape[1]
 
-        x.mul_(math.sqrt(2.0 / n_samples))
+        # `x` may alias the caller's activations, hence do not scale in-place.
+        x = x * math.sqrt(2.0 / n_samples)
         hessian.add_(x @ x.transpose(0, 1))
 
     # Handle dead neurons (zero diagonal in Hessian).
-- 
2.43.0


From 8e3072ec9e30da747dc67b0e1c165e965684b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 18/58] fix: is_extension returns False when an attribute is
 missing

---
 src/fastforward/nn/quantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/nn/quantizer.py b/src/fastforward/nn/quantizer.py
index f0118f9..1ecc360 100644
--- a/src/fastforward/nn/quantizer.py
+++ b/src/fastforward/nn/quantizer.py
@@ -237,7 +237,7 @@ class QuantizerMetadata:
         for key, value in self._kwargs.items():
             if key == "shape" and value is None:
                 continue
-            if other._kwargs[key] != value:
+            if key not in other._kwargs or other._kwargs[key] != value:
                 return False
 
         return True
-- 
2.43.0


From 8d29952c0e429a24841f43b1b19e6993382ecd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 19/58] fix: support deepcopy of quantizers whose overrides
 refer back to them

---
 src/fastforward/nn/quantizer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/nn/quantizer.py b/src/fastforward/nn/quantizer.py
index 1ecc360..dfb0a87 100644
--- a/src/fastforward/nn/quantizer.py
+++ b/src/fastforward/nn/quantizer.py
@@ -342,18 +342,20 @@ class Quantizer(torch.nn.Module):
         if id(self) in memo:
             return memo[id(self)]  # type: ignore[no-any-return]
 
+        cls = type(self)
+        new_obj = cls.__new__(cls)
+
+        # Store in memo before copying the state, the state may refer back to self, e.g.,
+        # through an override.
+        memo[id(self)] = new_obj
+
         # Use torch.nn.Module.__getstate__
         state = super().__getstate__()
         new_state = copy.deepcopy(state, memo)
 
-        cls = type(self)
-        new_obj = cls.__new__(cls)
-
         # Use torch.nn.Module.__setstate__ to set state on new_obj
         super(Quantizer, new_obj).__setstate__(new_state)
 
-        memo[id(self)] = new_obj
-
         return new_obj
 
     def quantize(self, data: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From dc4a2cc49a980ec5e3ba4bb4d55b7ba30acfb6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 20/58] fix: dequantize to the dequantize dtype in export mode

---
 src/fastforward/quantization/affine/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/affine/function.py b/src/fastforward/quantization/affine/function.py
index db69db3..c7028e1 100644
--- a/src/fastforward/quantization/affine/function.py
+++ b/src/fastforward/quantization/affine/function.py
@@ -116,7 +116,7 @@ class AffineQuantizationFunction(QuantizationFunction[AffineQuantParams]):
             params.scale,
             params.offset,
             tile_size,
-            params.quantized_dtype or data.dtype,
+            params.dequantize_dtype or data.dtype,
         )
         return dequantized_data
 
-- 
2.43.0


From b00f776042ed2ed21d3785608025c07ae4dcc72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 21/58] fix: fake quantization operators respect the output
 dtype

---
 src/fastforward/quantization/_quantizer_impl.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fastforward/quantization/_quantizer_impl.py b/src/fastforward/quantization/_quantizer_impl.py
index d7516fc..c40e5e0 100644
--- a/src/fastforward/quantization/_quantizer_impl.py
+++ b/src/fastforward/quantization/_quantizer_impl.py
@@ -294,8 +294,8 @@ def quantize_by_tile_meta(
     output_dtype: torch.dtype | None,
     offset: torch.Tensor | None = None,
 ) -> torch.Tensor:
-    del scale, tile_size, num_bits, output_dtype, offset
-    return torch.empty_like(input)
+    del scale, tile_size, num_bits, offset
+    return torch.empty_like(input, dtype=output_dtype)
 
 
 @register_fake("fastforward::dequantize_by_tile")  # type: ignore[untyped-decorator]
@@ -306,8 +306,8 @@ def dequantize_by_tile_meta(
     offset: torch.Tensor | None = None,
     output_dtype: torch.dtype | None = None,
 ) -> torch.Tensor:
-    del scale, tile_size, offset, output_dtype
-    return torch.empty_like(input)
+    del scale, tile_size, offset
+    return torch.empty_like(input, dtype=output_dtype)
 
 
 @register_fake("fastforward::quantize_by_tile_backward")  # type: ignore[untyped-decorator]
@@ -332,8 +332,8 @@ def quantize_dynamic_by_tile_meta(
     allow_one_sided: bool,
     output_dtype: torch.dtype | None,
 ) -> RT:
-    del num_bits, symmetric, allow_one_sided, output_dtype
+    del num_bits, symmetric, allow_one_sided
     num_params = int(input.numel() / torch.Size(tile_size).numel())
-    scale = torch.empty(num_params)
-    offset = torch.empty(num_params)
-    return torch.empty_like(input), scale, offset
+    scale = torch.empty(num_params, device=input.device)
+    offset = torch.empty(num_params, device=input.device)
+    return torch.empty_like(input, dtype=output_dtype), scale, offset
-- 
2.43.0


From c95be8d7fcc572a9105045b6747be8356518f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 22/58] fix: allow a detached ModuleIORecorder to be attached
 again

---
 src/fastforward/export/_io_capture.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fastforward/export/_io_capture.py b/src/fastforward/export/_io_capture.py
index 37a3724..2eea012 100644
--- a/src/fastforward/export/_io_capture.py
+++ b/src/fastforward/export/_io_capture.py
@@ -81,6 +81,7 @@ class ModuleIORecorder:
         """Remove recorder from tracked module."""
         if self.handle is not None:
             self.handle.remove()
+            self.handle = None
 
     def store_io_as_dict(self, location: pathlib.Path) -> None:
         """Store inputs/outputs/kwargs as a pickle dictionary."""
-- 
2.43.0


From 4187f1ab1c7db4981ac99023f645b97617b9e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 23/58] fix: is_nonzero and sparse_mask of a quantized tensor
 no longer read the raw data

---
 src/fastforward/quantized_tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fastforward/quantized_tensor.py b/src/fastforward/quantized_tensor.py
index 8bffd22..057b328 100644
--- a/src/fastforward/quantized_tensor.py
+++ b/src/fastforward/quantized_tensor.py
@@ -206,7 +206,6 @@ _set_no_dispatch("retain_grad")
 _set_no_dispatch("shape")
 _set_no_dispatch("size")
 _set_no_dispatch("sparse_dim")
-_set_no_dispatch("sparse_mask")
 _set_no_dispatch("storage")
 _set_no_dispatch("storage_offset")
 _set_no_dispatch("storage_type")
@@ -223,7 +222,7 @@ if torch.__version__ < "2.13":
 _no_dispatch_attributes = [
     "is_coalesced", "is_complex", "is_conj", "is_contiguous", "is_cpu", "is_cuda",
     "is_distributed", "is_floating_point", "is_inference", "is_ipu", "is_leaf", "is_meta",
-    "is_mkldnn", "is_mps", "is_neg", "is_nested", "is_nonzero", "is_pinned",
+    "is_mkldnn", "is_mps", "is_neg", "is_nested", "is_pinned",
     "is_same_size", "is_set_to", "is_shared", "is_signed", "is_sparse", "is_sparse_csr",
     "is_vulkan", "is_xpu",
 ]
-- 
2.43.0


From 4bef5292d5bbf8e0cdfa6a994f6123337d09bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 24/58] fix: topk of a quantized tensor with a negative scale
 selects by dequantized values

---
 src/fastforward/quantization/_linear_quantized_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index 7549879..2fb84e0 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -282,6 +282,9 @@ def topk(
     largest: bool = True,
     sorted: bool = True,
 ) -> torch.return_types.topk:
+    if bool(torch.as_tensor(_affine_params(input).scale) < 0):
+        # A negative scale reverses the order of the raw data.
+        largest = not largest
     values, indices = torch.topk(input, k, dim=dim, largest=largest, sorted=sorted)
     values = input.quantization_context.attach(values)
     return torch.return_types.topk((values, indices))
-- 
2.43.0


From 6b58de28126e637e3916d431f52fc7faf9103854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 25/58] fix: quantized convolutions honour non-zero padding
 modes

---
 src/fastforward/nn/conv.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/nn/conv.py b/src/fastforward/nn/conv.py
index b6aedf7..33f2e36 100644
--- a/src/fastforward/nn/conv.py
+++ b/src/fastforward/nn/conv.py
@@ -29,6 +29,12 @@ class QuantizedConv2d(QuantizedModule, torch.nn.Conv2d):
 
     @override
     def forward(self, input: torch.Tensor) -> torch.Tensor:
+        padding: str | tuple[int, ...] = self.padding
+        if self.padding_mode != "zeros":
+            input = torch.nn.functional.pad(
+                input, self._reversed_padding_repeated_twice, mode=self.padding_mode
+            )
+            padding = (0,) * len(self.kernel_size)
         input = self.input_quantizer(input)
         weight = self.weight_quantizer(self.weight)
         bias: torch.Tensor | None
@@ -41,7 +47,7 @@ class QuantizedConv2d(QuantizedModule, torch.nn.Conv2d):
             weight,
             bias,
             self.stride,
-            self.padding,
+            padding,
             self.dilation,
             self.groups,
             output_quantizer=self.output_quantizer,
@@ -68,6 +74,12 @@ class QuantizedConv1d(QuantizedModule, torch.nn.Conv1d):
 
     @override
     def forward(self, input: torch.Tensor) -> torch.Tensor:
+        padding: str | tuple[int, ...] = self.padding
+        if self.padding_mode != "zeros":
+            input = torch.nn.functional.pad(
+                input, self._reversed_padding_repeated_twice, mode=self.padding_mode
+            )
+            padding = (0,) * len(self.kernel_size)
         input = self.input_quantizer(input)
         weight = self.weight_quantizer(self.weight)
         bias: torch.Tensor | None
@@ -80,7 +92,7 @@ class QuantizedConv1d(QuantizedModule, torch.nn.Conv1d):
             weight,
             bias,
             self.stride,
-            self.padding,
+            padding,
             self.dilation,
             self.groups,
             output_quantizer=self.output_quantizer,
-- 
2.43.0


From 7bfbe7d8397b1ae65d7b94097d6928933ad50531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 26/58] fix: reject integer storage dtypes whose range does not
 hold the quantization grid

---
 src/fastforward/quantization/_quantizer_impl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/_quantizer_impl.py b/src/fastforward/quantization/_quantizer_impl.py
index c40e5e0..9fb14e2 100644
--- a/src/fastforward/quantization/_quantizer_impl.py
+++ b/src/fastforward/quantization/_quantizer_impl.py
@@ -65,7 +65,11 @@ def can_support_bitwidth(dtype: torch.dtype, num_bits: float) -> bool:
                     f"Unknown mantissa size for {dtype}; precision loss possible."
                 )
     else:
-        available_precision_bits = torch.iinfo(dtype).bits
+        # The sign bit is included in the bitwidth of an integer type, hence, the
+        # signed quantization grid must lie fully within the range of dtype.
+        info = torch.iinfo(dtype)
+        max_value = 2 ** (num_bits - 1) - 1
+        return info.min <= -(2 ** (num_bits - 1)) and max_value <= info.max
 
     # The first integer that cannot be exactly represented using a floating
     # point representation is (2 ** (mantissa_bits + 1)) + 1. Since fastforward
-- 
2.43.0


From e6eec760ac70c6ecbd9dcb18d5316020adfd75ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 27/58] fix: granularity_from_sizes tests divisibility by the
 tile size

---
 src/fastforward/quantization/granularity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/granularity.py b/src/fastforward/quantization/granularity.py
index 3c555ac..3008f1a 100644
--- a/src/fastforward/quantization/granularity.py
+++ b/src/fastforward/quantization/granularity.py
@@ -330,5 +330,7 @@ def granularity_from_sizes(data_size: torch.Size, tile_size: torch.Size) -> Gran
     block_dims = tuple([i for i in dims if tile_size[i] not in (1, data_size[i])])
     block_sizes = tuple([tile_size[i] for i in block_dims])
     per_channel_dims = tuple([i for i in dims if tile_size[i] == 1 and data_size[i] > 1])
-    strict_blocks = all(data_dim % div == 0 for div, data_dim in zip(divs, data_size))
+    strict_blocks = all(
+        data_dim % tile_dim == 0 for data_dim, tile_dim in zip(data_size, tile_size)
+    )
     return PerBlock(block_dims, block_sizes, per_channel_dims, strict_blocks=strict_blocks)
-- 
2.43.0


From 2bd9cf75276a2d92b599f73719afbff9dd4c3f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 28/58] fix: grid range search evaluates every candidate of the
 grid

---
 src/fastforward/range_setting/min_error.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/range_setting/min_error.py b/src/fastforward/range_setting/min_error.py
index cc123c6..1319cbb 100644
--- a/src/fastforward/range_setting/min_error.py
+++ b/src/fastforward/range_setting/min_error.py
@@ -214,7 +214,8 @@ class _MinAvgErrorGridEstimator(SimpleEstimatorStep[SupportsRangeBasedOperator],
         quantizer.quantization_range = (min_threshold, max_threshold)
 
     def estimate_step(self, quantizer: SupportsRangeBasedOperator, data: torch.Tensor) -> None:
-        for i in range(self.num_candidates):
+        # The search grid may hold more candidates than were requested.
+        for i in range(self.min_threshold.shape[0]):
             quant_op = quantizer.operator_for_range(
                 self.min_threshold[i], self.max_threshold[i], data.shape
             )
-- 
2.43.0


From 09b09329c5110dc081d18755d97457a1c03afb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 29/58] fix: QuantizerCollection.append accepts results for
 quantizers

---
 src/fastforward/quantization/quant_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index 9257a33..7c67ff7 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -143,7 +143,7 @@ class QuantizerCollection(mpath.MPathCollection):
         Args:
             item: Filter result to add to the collection
         """
-        if not isinstance(item, Quantizer):
+        if not isinstance(item.module, Quantizer):
             msg = f"Can only insert a FilterResult of a Quantizer module to {type(self).__name__}"
             raise ValueError(msg)
         super().append(item)
-- 
2.43.0


From 6306d5b4088c87e1d30933e10ad6ea34ac61f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 30/58] fix: load the state of quantizers that have no
 parameters

---
 src/fastforward/quantization/save_load.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index e11c55f..10d8d0a 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -464,7 +464,8 @@ def _load_quantizer_state_from_files(
             for name, quantizer in quantizers.items():
                 state_tensor_keys = {}
                 lazy_params = []
-                for key in metadata[f"{name}"].split(","):
+                # The metadata of a quantizer without any parameters is empty.
+                for key in filter(None, metadata[f"{name}"].split(",")):
                     state_key, tensor_key = key.split("=")
 
                     if "::" in tensor_key:
-- 
2.43.0


From e7873e8f27e15ecbb7cc18f145d5bfa2b01632a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 31/58] fix: freeze_parameters leaves quantizers of
 non-parameters in effect

---
 src/fastforward/quantization/freeze.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index fd5de4b..99f1c19 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -38,6 +38,10 @@ class _FreezeParametersOverride:
         """
         # Extract and quantize input data
         input_data = _extract_input(*args, **kwargs)
+        if not isinstance(input_data, torch.nn.Parameter):
+            # Only parameters are frozen. Other quantizers, e.g., those of activations,
+            # remain in effect.
+            return cast(torch.Tensor, callback(*args, **kwargs))
         quantized = callback(input_data).dequantize()
 
         if quantized is input_data:
@@ -47,10 +51,9 @@ class _FreezeParametersOverride:
             # since they would be no-ops.
             return cast(torch.Tensor, input_data)
 
-        # Update parameter in-place if input is a Parameter
-        if isinstance(input_data, torch.nn.Parameter):
-            with torch.no_grad():
-                input_data.copy_(quantized)
+        # Update parameter in-place
+        with torch.no_grad():
+            input_data.copy_(quantized)
 
         # Replace quantizer with stub to freeze quantization
         if self._remove_quantizer:
-- 
2.43.0


From d9a070be7b95725927957f60340188a500015847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 32/58] fix: freeze_parameters with a quantizer shared by
 several modules

---
 src/fastforward/quantization/freeze.py | 40 +++++++++++++++++---------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index 99f1c19..d0b9fad 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -14,8 +14,8 @@ import fastforward as ff
 class _FreezeParametersOverride:
     """Override that quantizes parameters in-place and replaces quantizers with stubs."""
 
-    def __init__(self, module: torch.nn.Module, remove_quantizer: bool) -> None:
-        self._module = module
+    def __init__(self, modules: Sequence[torch.nn.Module], remove_quantizer: bool) -> None:
+        self._modules = modules
         self._remove_quantizer = remove_quantizer
 
     def __call__(
@@ -55,16 +55,19 @@ class _FreezeParametersOverride:
         with torch.no_grad():
             input_data.copy_(quantized)
 
-        # Replace quantizer with stub to freeze quantization
+        # Replace quantizer with stub to freeze quantization. If the quantizer is shared, it
+        # is only replaced where the parameter was frozen.
         if self._remove_quantizer:
-            for name, other_quantizer in ff.nn.quantized_module.named_quantizers(
-                self._module, recurse=False
-            ):
-                if other_quantizer is quantizer:
-                    stub = ff.nn.QuantizerStub(_metadata=quantizer.quant_metadata)
-                    setattr(self._module, name, stub)
-                    break
-
+            for module in self._modules:
+                if len(self._modules) > 1 and not _owns(module, input_data):
+                    continue
+                for name, other_quantizer in ff.nn.quantized_module.named_quantizers(
+                    module, recurse=False
+                ):
+                    if other_quantizer is quantizer:
+                        stub = ff.nn.QuantizerStub(_metadata=quantizer.quant_metadata)
+                        setattr(module, name, stub)
+                        break
         return input_data
 
 
@@ -73,6 +76,10 @@ def _extract_input(data: torch.Tensor, *args: Any, **kwargs: Any) -> torch.Tenso
     return data
 
 
+def _owns(module: torch.nn.Module, parameter: torch.nn.Parameter) -> bool:
+    return any(parameter is other for other in module.parameters(recurse=False))
+
+
 @contextlib.contextmanager
 def freeze_parameters(
     modules: torch.nn.Module | Sequence[torch.nn.Module], remove_quantizers: bool = True
@@ -113,11 +120,18 @@ def freeze_parameters(
     """
     hooks: list[ff.overrides.override.OverrideHandle] = []
     modules = [modules] if isinstance(modules, torch.nn.Module) else modules
+    # Quantizers may be shared by several modules.
+    owners: dict[ff.nn.Quantizer, list[torch.nn.Module]] = {}
     for module in modules:
         for submodule in module.modules():
             for _, quantizer in ff.nn.quantized_module.named_quantizers(submodule, recurse=False):
-                override = _FreezeParametersOverride(submodule, remove_quantizer=remove_quantizers)
-                hooks.append(quantizer.register_override(override))
+                owning_modules = owners.setdefault(quantizer, [])
+                if submodule not in owning_modules:
+                    owning_modules.append(submodule)
+
+    for quantizer, owning_modules in owners.items():
+        override = _FreezeParametersOverride(owning_modules, remove_quantizer=remove_quantizers)
+        hooks.append(quantizer.register_override(override))
 
     try:
         # Disable strict quantization because override returns 'normal' tensors.
-- 
2.43.0


From a6aeea483e971a191985b11a33d8bd291687fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 33/58] fix: load yaml objects whose class inherits its
 constructor

---
 src/fastforward/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/serialization.py b/src/fastforward/serialization.py
index 7709b8b..bb76a14 100644
--- a/src/fastforward/serialization.py
+++ b/src/fastforward/serialization.py
@@ -133,9 +133,11 @@ def _ff_obj_yaml_constructor(
     cls = QualifiedNameReference(class_name).import_()
     if not isinstance(cls, type):
         return cls
+    obj = None
     if _has_custom_method(cls, "__new__"):
         obj = cls.__new__(cls, *newargs, **newkwargs)
-    if _has_custom_method(cls, "__init__"):
+    # Use the (inherited) constructor if the class has no methods of its own.
+    if _has_custom_method(cls, "__init__") or obj is None:
         obj = cls(*initargs, **initkwargs)
     if obj is None:
         raise RuntimeError("cant deserialise an object")
-- 
2.43.0


From bde2e82d082037b3463e165c30684a46c55c63f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 34/58] fix: mpath alternatives that match zero modules

---
 src/fastforward/mpath/selector.py | 32 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/fastforward/mpath/selector.py b/src/fastforward/mpath/selector.py
index 5da2405..2848dee 100644
--- a/src/fastforward/mpath/selector.py
+++ b/src/fastforward/mpath/selector.py
@@ -436,7 +436,7 @@ class MultiSelector(BaseSelector):
         """
         fragment_list: FragmentList = ()
         for selector in self.selectors:
-            fragment_list += selector.fragment_list()
+            fragment_list += (selector.fragment_list(),)
         fragment_list = (fragment_list,)
         if self.next:
             fragment_list += self.next.fragment_list()
@@ -448,11 +448,16 @@ class MultiSelector(BaseSelector):
         Returns:
             BaseSelector | None: The multi-selector without the multi-wildcard root, or None if not applicable.
         """
-        selectors = []
-        for selector in self.selectors:
-            if updated_selector := selector.remove_multi_wildcard_root():
-                selectors.append(updated_selector)
-        return type(self)(self.next, tuple(selectors))
+        selectors = [selector.remove_multi_wildcard_root() for selector in self.selectors]
+        if all(selector is not None for selector in selectors):
+            return type(self)(self.next, tuple(s for s in selectors if s is not None))
+
+        # At least one of the selectors is made up of only multi-wildcard fragments. For this
+        # selector, only the tail remains.
+        if self.next is None:
+            return None
+        tails = tuple(_duplicate_extend(selector, self.next) for selector in selectors)
+        return type(self)(None, tails).remove_multi_wildcard_root()
 
     def has_multi_wildcard_root(self) -> bool:
         """Check if all selectors have a multi-wildcard root.
@@ -464,20 +469,19 @@ class MultiSelector(BaseSelector):
 
 
 def _is_multi_wildcard(selector: BaseSelector) -> bool:
-    """Check if the selector is equivalent to `**`, i.e., all remaining fragments match zero or more arbitrary modules.
+    """Check if the selector matches zero modules, i.e., if it can match through `**` fragments only.
 
     Args:
         selector: The selector to check.
 
     Returns:
-        bool: True if the selector is equivalent to `**`, False otherwise.
+        bool: True if the selector matches zero modules, False otherwise.
     """
-    from .fragments import WildcardFragment
-
-    fragments = selector.fragments()
-    return all(
-        isinstance(fragment, WildcardFragment) and fragment.match_multiple for fragment in fragments
-    )
+    if isinstance(selector, MultiSelector):
+        is_multi_wildcard = any(_is_multi_wildcard(s) for s in selector.selectors)
+    else:
+        is_multi_wildcard = selector.has_multi_wildcard_root()
+    return is_multi_wildcard and (selector.next is None or _is_multi_wildcard(selector.next))
 
 
 class Fragment(abc.ABC):
-- 
2.43.0


From b47719a2b8b11a50a884d67f0dbe71bdf9a5be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 35/58] fix: allow whitespace around the class name of mpath
 class queries

---
 src/fastforward/mpath/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/fragments.py b/src/fastforward/mpath/fragments.py
index 00c994d..12a266f 100644
--- a/src/fastforward/mpath/fragments.py
+++ b/src/fastforward/mpath/fragments.py
@@ -114,7 +114,7 @@ class ClassFragment(Fragment):
         for `MyClass` on `my_module` and lastly perform an attribute lookup of
         `my_attribute` on `MyClass`.
         """
-        root, *tail = raw_str.split(".")
+        root, *tail = raw_str.strip().split(".")
 
         try:
             obj = context[root]
-- 
2.43.0


From 0387ce3c52ab10f1ff2d1c847ef3093d3f5015ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 36/58] fix: restore the overridden mpath extension at the end
 of its context

---
 src/fastforward/mpath/_parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/mpath/_parser.py b/src/fastforward/mpath/_parser.py
index 6c06516..e00c587 100644
--- a/src/fastforward/mpath/_parser.py
+++ b/src/fastforward/mpath/_parser.py
@@ -181,14 +181,18 @@ _QueryExtension: TypeAlias = type[MpathQueryExtension] | type[MpathQueryContextu
 
 
 class QueryExtensionContext:
-    def __init__(self, tag: str) -> None:
+    def __init__(self, tag: str, overridden: _QueryExtension | None = None) -> None:
         self._tag = tag
+        self._overridden = overridden
 
     def __enter__(self) -> Generator[None, None, None]:
         yield
 
     def __exit__(self, exc_type, exc_value, traceback):  # type: ignore[no-untyped-def]
-        del Parser.fragment_extensions[self._tag]
+        if self._overridden is not None:
+            Parser.fragment_extensions[self._tag] = self._overridden
+        else:
+            del Parser.fragment_extensions[self._tag]
 
 
 def register_mpath_query_extension(
@@ -220,8 +224,9 @@ def register_mpath_query_extension(
         )
         raise TypeError(msg)
 
+    overridden = Parser.fragment_extensions.get(tag)
     Parser.fragment_extensions[tag] = extension
-    return QueryExtensionContext(tag=tag)
+    return QueryExtensionContext(tag=tag, overridden=overridden)
 
 
 def mpath_query_extension(
-- 
2.43.0


From ffc82ebc9894fc7e03cda5222c9b26497e8b2bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 37/58] fix: instructions after the return instruction were
 never executed (offloaded weights stayed on the storage device)

---
 src/fastforward/_orchestration/instruction_engine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index ad38f3d..fd83b0b 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -736,9 +736,13 @@ class InstructionEngine:
         Returns:
             Result from RETURN instruction, or None if no RETURN is executed.
         """
+        # Instructions may follow RETURN (e.g. to restore module placement), run them as well.
+        result = None
         for instruction in instructions:
-            if (result := instruction.execute(register)) is not None:
-                return result
+            output = instruction.execute(register)
+            if result is None:
+                result = output
+        return result
 
     def run(self, program: InstructionProgram, *args: Any, **kwargs: Any) -> Any:
         """Run instructions with provided inputs.
-- 
2.43.0


From 5bd3b496eac3a8974d6324b2afc773609c606293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 38/58] fix: the first call of an offloaded module could run on
 its original device (move to the compute device cancelled against the initial
 offload)

---
 .../_orchestration/instruction_engine.py      | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index fd83b0b..5872fa4 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -1005,7 +1005,11 @@ def _offloading_pass(
 def _cancel_module_round_trips(
     instructions: Instructions, compute_device: torch.device, storage_device: torch.device
 ) -> Instructions:
-    """Cancel adjacent MoveModule round-trips."""
+    """Cancel adjacent MoveModule round-trips.
+
+    A round-trip is only cancelled if the module is known to be on the device that
+    the round-trip ends on, i.e., because it was moved there or called before.
+    """
     device_pair = {compute_device, storage_device}
 
     def _is_round_trip(left: Instruction, right: Instruction) -> bool:
@@ -1018,14 +1022,33 @@ def _cancel_module_round_trips(
             and {left.device, right.device} == device_pair
         )
 
+    module_device: dict[Any, torch.device | dict[str, torch.device]] = {}
+
+    def _is_noop(left: Instruction, right: Instruction) -> bool:
+        return (
+            _is_round_trip(left, right)
+            and isinstance(right, MoveModule)
+            and module_device.get(right.module) == right.device
+        )
+
     result: list[Instruction] = []
     i = 0
     while i < len(instructions):
-        if i + 1 < len(instructions) and _is_round_trip(instructions[i], instructions[i + 1]):
+        instruction = instructions[i]
+        if i + 1 < len(instructions) and _is_noop(instruction, instructions[i + 1]):
             i += 2
-        else:
-            result.append(instructions[i])
-            i += 1
+            continue
+
+        match instruction:
+            case MoveModule(module=module, device=device):
+                module_device[module] = device
+            case CallModule(module=module) | OptimizeModule(module=module):
+                # Modules are only called from the compute device.
+                module_device[module] = compute_device
+            case _:
+                pass
+        result.append(instruction)
+        i += 1
 
     return tuple(result)
 
-- 
2.43.0


From 4975aea7c3a31c19e6c3a07b55bb569a4f286637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 39/58] fix: offloaded activations: parts of an output shared
 one device record, moves of deleted entries were kept

---
 .../_orchestration/instruction_engine.py      | 66 +++++++++++--------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 5872fa4..f616c9f 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -1042,7 +1042,9 @@ def _cancel_module_round_trips(
         match instruction:
             case MoveModule(module=module, device=device):
                 module_device[module] = device
-            case CallModule(module=module) | OptimizeModule(module=module):
+            case CallModule(module=module) | OptimizeModule(module=module) if isinstance(
+                module, torch.nn.Module
+            ):
                 # Modules are only called from the compute device.
                 module_device[module] = compute_device
             case _:
@@ -1074,38 +1076,46 @@ def _cancel_redundant_activation_moves(
     result: list[Instruction] = []
 
     def _infer_output_device(instr: Instruction) -> None:
-        if not isinstance(instr, CallModule):
-            return
-        key = instr.target.unwrap_ref()
-        if isinstance(instr.module, torch.nn.Module):
-            ref_device[key] = compute_device
-            return
-        devs = {ref_device[a.unwrap_ref()] for a in instr.args if a.unwrap_ref() in ref_device}
-        if len(devs) == 1:
-            ref_device[key] = devs.pop()
+        # Every reference has its own register entry, also those that refer to a part
+        # (AttributeRef) of another entry. Moving one does not move the other.
+        match instr:
+            case CallModule(module=torch.nn.Module()):
+                ref_device[instr.target] = compute_device
+            case CallModule():
+                devs = {ref_device[arg] for arg in instr.uses() if arg in ref_device}
+                if len(devs) == 1:
+                    ref_device[instr.target] = devs.pop()
+            case LoadAttribute():
+                if (device := ref_device.get(instr.source)) is not None:
+                    ref_device[instr.target] = device
+            case _:
+                pass
 
     def _flush(ref: _BaseRef) -> None:
-        key = ref.unwrap_ref()
-        if (move := pending.pop(key, None)) is not None:
-            if ref_device.get(key) != move.device:
+        if (move := pending.pop(ref, None)) is not None:
+            if ref_device.get(ref) != move.device:
                 result.append(move)
-                ref_device[key] = move.device
-
-    def _is_redundant(move: MoveActivations) -> bool:
-        return ref_device.get(move.register_ref.unwrap_ref()) == move.device
+                ref_device[ref] = move.device
 
     for instr in instructions:
-        if isinstance(instr, MoveActivations):
-            pending[instr.register_ref.unwrap_ref()] = instr
-        else:
-            for ref in instr.uses():
-                _flush(ref)
-            result.append(instr)
-            _infer_output_device(instr)
-
-    for move in pending.values():
-        if not _is_redundant(move):
-            result.append(move)
+        match instr:
+            case MoveActivations():
+                pending[instr.register_ref] = instr
+                continue
+            case DeleteRegisterEntries():
+                for ref in instr.targets:
+                    pending.pop(ref, None)
+            case _:
+                for ref in instr.uses():
+                    _flush(ref)
+        for ref in instr.produces():
+            ref_device.pop(ref, None)
+            pending.pop(ref, None)
+        result.append(instr)
+        _infer_output_device(instr)
+
+    for ref in tuple(pending):
+        _flush(ref)
 
     return tuple(result)
 
-- 
2.43.0


From 700b888dad8506ca0add8268a5bbfe193f830ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 40/58] fix: attributes of constants in a graph were read from
 the reference instead of the value (endless loop)

---
 .../_orchestration/instruction_engine.py            | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index f616c9f..1f0c409 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -342,6 +342,9 @@ class StoreValue(Instruction):
     def uses(self) -> Iterator[_BaseRef]:  # noqa: D102
         return iter([self.target])
 
+    def produces(self) -> Iterator[_BaseRef]:  # noqa: D102
+        return iter([self.target])
+
 
 @dataclasses.dataclass(frozen=True)
 class LoadAttribute(Instruction):
@@ -632,6 +635,13 @@ def _propagate_contexts(graph: GraphModule, order: list[NodeRef]) -> Mapping[_Ba
             if node.delegate is not None:
                 node_contexts[node_input] |= set(node.delegate.contexts)
 
+        # Parts of constants are read from the register in the contexts of the node.
+        for arg in (*node.args, *node.kwargs.values()):
+            if isinstance(const := arg.unwrap_ref(), Const):
+                node_contexts[const] |= node_contexts[node_ref]
+                if node.delegate is not None:
+                    node_contexts[const] |= set(node.delegate.contexts)
+
     return {ref: list(contexts) for ref, contexts in node_contexts.items()}
 
 
@@ -1265,7 +1275,8 @@ class InstructionScheduler:
             case Const():
                 # Store the value of the constant directly to the register.
                 contexts = list(self._node_contexts.get(ref, set())) or [DEFAULT_CONTEXT]
-                store_instruction = StoreValue(target=ref, value=ref, contexts=contexts)
+                dataset = ActivationDataset([ref.value])
+                store_instruction = StoreValue(target=ref, value=dataset, contexts=contexts)
                 return ref, [store_instruction]
             case AttributeRef(reference=attr_ref, attribute=attr):
                 base_ref, base_instructions = self._schedule_ref_id(attr_ref)
-- 
2.43.0


From ddb644f3293e6b8fe639657cf891519dddb06895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:11 +0000
Subject: [PATCH 41/58] fix: keep the order of a stage's inputs when a
 dependency is rewired

---
 src/fastforward/export/pipeline/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/export/pipeline/core.py b/src/fastforward/export/pipeline/core.py
index 33ed274..6dd7ea3 100644
--- a/src/fastforward/export/pipeline/core.py
+++ b/src/fastforward/export/pipeline/core.py
@@ -49,6 +49,10 @@ class StageReference:
             raise KeyError(msg)
         del self._dependencies[dep]
 
+    def _replace_dependency(self, old: "StageReference", new: "StageReference") -> None:
+        # Stage inputs are positional, hence, `new` must take the position of `old`.
+        self._set_dependencies([new if dep is old else dep for dep in self._dependencies])
+
     def __repr__(self) -> str:
         return f"StageReference(stage_fn={self.stage_fn}, name={self.name})"
 
@@ -236,8 +240,7 @@ class Pipeline:
         new_stage = self.register_stage(stage_fn, name, capture_stage_output)
         new_stage.depends_on(target_ref)
         for dependent in existing_dependents:
-            dependent._remove_dependency(target_ref)
-            dependent.depends_on(new_stage)
+            dependent._replace_dependency(target_ref, new_stage)
         return new_stage
 
     def replace_stage(
@@ -294,8 +297,7 @@ class Pipeline:
         new_stage.depends_on(*inherited)
 
         for dependent in dependents:
-            dependent._remove_dependency(target_ref)
-            dependent.depends_on(new_stage)
+            dependent._replace_dependency(target_ref, new_stage)
 
         return new_stage
 
-- 
2.43.0


From 58692ed4d083b3b938b275ab9f459f6ca715d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:11 +0000
Subject: [PATCH 42/58] fix: export the zero points of block quantization in
 QNN convention

---
 src/fastforward/export/_export_schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index bb742a0..665f766 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -428,7 +428,7 @@ class V2SchemaHandler:
                     qparams.scale.detach().cpu().numpy().reshape(parameter_shape).tolist()
                 )
                 reconstructed_offset = (
-                    qparams.offset.detach().cpu().numpy().reshape(parameter_shape).tolist()
+                    qparams.qnn_offset.detach().cpu().numpy().reshape(parameter_shape).tolist()
                 )
 
                 entry["y_scale"] = reconstructed_scale
-- 
2.43.0


From 23ce9c3ba19e6f23f729a70d2a26db72b244de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 43/58] fix: export one offset for every scale when
 quantization parameters are scalar or shared

---
 src/fastforward/export/_export_schemas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 665f766..2ee9042 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -48,6 +48,9 @@ def _preprocess_quantization_params(
     offset = ensure_tensor(offset)
     offset = torch.round(offset)
 
+    # An encoding pairs every scale with an offset, also if a single value is shared.
+    scale, offset = torch.broadcast_tensors(scale.reshape(-1), offset.reshape(-1))
+
     is_symmetric = bool(torch.all(offset == 0).item())
     bitwidth = _strict_cast_to_int(bitwidth, "bitwidth")
 
-- 
2.43.0


From 22250f321e8bfde537ae9d0efd4ac2cae3342e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 44/58] fix: returned encodings changed when their schema
 handler was cleared or reused

---
 src/fastforward/export/_export_schemas.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 2ee9042..c9be75c 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -198,8 +198,8 @@ class LegacySchemaHandler:
     ) -> dict[str, Any]:
         return {
             "version": self.version,
-            "param_encodings": self._param_encodings,
-            "activation_encodings": self._activation_encodings,
+            "param_encodings": dict(self._param_encodings),
+            "activation_encodings": dict(self._activation_encodings),
             "quantizer_args": dataclasses.asdict(self._qnn_default_config),
         }
 
@@ -333,8 +333,8 @@ class V1SchemaHandler:
     ) -> dict[str, Any]:
         return {
             "version": self.version,
-            "param_encodings": self._param_encodings,
-            "activation_encodings": self._activation_encodings,
+            "param_encodings": list(self._param_encodings),
+            "activation_encodings": list(self._activation_encodings),
             "quantizer_args": dataclasses.asdict(self._qnn_default_config),
         }
 
@@ -455,7 +455,7 @@ class V2SchemaHandler:
     ) -> dict[str, Any]:
         return {
             "version": self.version,
-            "encodings": self._encodings,
+            "encodings": list(self._encodings),
             "quantizer_args": dataclasses.asdict(self._qnn_default_config),
         }
 
-- 
2.43.0


From e5561b0fbbcab404f1c378870ddccc630be6da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 45/58] fix: altered ONNX names collide when a new name is the
 old name of another value

---
 src/fastforward/export/_onnx_helpers.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/export/_onnx_helpers.py b/src/fastforward/export/_onnx_helpers.py
index a9b4ad4..b47e766 100644
--- a/src/fastforward/export/_onnx_helpers.py
+++ b/src/fastforward/export/_onnx_helpers.py
@@ -19,6 +19,9 @@ def _fix_onnx_names(
     torch_onnx_model: onnxscript.ir.Model, new_name_prefix: str
 ) -> tuple[onnxscript.ir.Model, dict[str, str]]:
     name_mapping: dict[str, str] = {}
+    # Values that already have their new name. References to these must not be looked up
+    # again, since the new name may also be the old name of another value.
+    renamed: set[int] = set()
 
     # Rename initializers (weights/parameters)
     for initializer in list(torch_onnx_model.graph.initializers.values()):
@@ -27,6 +30,7 @@ def _fix_onnx_names(
             new_name = f"{new_name_prefix}_{old_name}_0"
             name_mapping[old_name] = new_name
             initializer.name = new_name
+            renamed.add(id(initializer))
 
     # Rename nodes and their outputs
     for node in torch_onnx_model.graph._nodes:
@@ -43,6 +47,7 @@ def _fix_onnx_names(
                 new_output_name = f"{new_name_prefix}_{old_output_name}_0"
                 name_mapping[old_output_name] = new_output_name
                 output.name = new_output_name
+                renamed.add(id(output))
 
     # Update node input references
     for node in torch_onnx_model.graph._nodes:
@@ -52,13 +57,21 @@ def _fix_onnx_names(
                 and hasattr(input_value, "name")
                 and input_value.name
                 and input_value.name in name_mapping
+                and id(input_value) not in renamed
             ):
                 input_value.name = name_mapping[input_value.name]
+                renamed.add(id(input_value))
 
     # Update graph inputs
     for graph_input in torch_onnx_model.graph.inputs:
-        if hasattr(graph_input, "name") and graph_input.name and graph_input.name in name_mapping:
+        if (
+            hasattr(graph_input, "name")
+            and graph_input.name
+            and graph_input.name in name_mapping
+            and id(graph_input) not in renamed
+        ):
             graph_input.name = name_mapping[graph_input.name]
+            renamed.add(id(graph_input))
 
     # Update graph outputs
     for graph_output in torch_onnx_model.graph.outputs:
@@ -66,8 +79,10 @@ def _fix_onnx_names(
             hasattr(graph_output, "name")
             and graph_output.name
             and graph_output.name in name_mapping
+            and id(graph_output) not in renamed
         ):
             graph_output.name = name_mapping[graph_output.name]
+            renamed.add(id(graph_output))
 
     return torch_onnx_model, name_mapping
 
-- 
2.43.0


From 62246135c00d0d469bdc85ba95adb2852d317279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 46/58] fix: refuse GGUF export of symmetric quantizers with a
 non-zero offset

---
 src/fastforward/export/stages/gguf/_extract.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fastforward/export/stages/gguf/_extract.py b/src/fastforward/export/stages/gguf/_extract.py
index 22da710..74f9015 100644
--- a/src/fastforward/export/stages/gguf/_extract.py
+++ b/src/fastforward/export/stages/gguf/_extract.py
@@ -97,6 +97,13 @@ def _validate_quantizer(
         )
         raise ExportError(msg)
 
+    if quant_format.symmetric and quantizer.offset is not None and bool(quantizer.offset.any()):
+        msg = (
+            f"Parameter '{hf_name}': quantizer has a non-zero offset (e.g., one-sided symmetric "
+            f"quantization) but GGUF format '{quant_format.name}' cannot store an offset"
+        )
+        raise ExportError(msg)
+
     if quantizer.num_bits != quant_format.num_bits:
         msg = (
             f"Parameter '{hf_name}': quantizer num_bits={quantizer.num_bits} does not match "
-- 
2.43.0


From 174a4261c7983170994536bb9a50e369df4fad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 47/58] fix: export the weight quantizer of a root module to
 GGUF

---
 src/fastforward/export/stages/gguf/_extract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/export/stages/gguf/_extract.py b/src/fastforward/export/stages/gguf/_extract.py
index 74f9015..e4d5e7a 100644
--- a/src/fastforward/export/stages/gguf/_extract.py
+++ b/src/fastforward/export/stages/gguf/_extract.py
@@ -67,8 +67,8 @@ def _build_quantizer_map(model: torch.nn.Module) -> dict[str, LinearQuantizer]:
             continue
         # The quantizer lives at e.g. "layers.0.q_proj.weight_quantizer".
         # The corresponding parameter is at "layers.0.q_proj.weight".
-        parent_path = result.full_name.rsplit(".", 1)[0]
-        param_name = f"{parent_path}.weight"
+        parent_path, _, _ = result.full_name.rpartition(".")
+        param_name = f"{parent_path}.weight" if parent_path else "weight"
         quantizer_map[param_name] = quantizer
     return quantizer_map
 
-- 
2.43.0


From 14e6dd876cabe0c62bd2f1ecca06b06a52309973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 48/58] fix: refuse to map two parameters to the same GGUF
 tensor

---
 src/fastforward/export/stages/gguf/gguf_export_stages.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fastforward/export/stages/gguf/gguf_export_stages.py b/src/fastforward/export/stages/gguf/gguf_export_stages.py
index 504fa29..15027a6 100644
--- a/src/fastforward/export/stages/gguf/gguf_export_stages.py
+++ b/src/fastforward/export/stages/gguf/gguf_export_stages.py
@@ -116,10 +116,18 @@ def stage_map_tensor_names(
     adapter = _require_adapter(context)
 
     named: list[ExtractedTensor] = []
+    hf_names: dict[str, str] = {}
     for tensor in tensors:
         gguf_name = adapter.name_map(tensor.hf_name)
         if gguf_name is None:
             continue
+        if gguf_name in hf_names:
+            msg = (
+                f"Parameters '{hf_names[gguf_name]}' and '{tensor.hf_name}' both map to GGUF "
+                f"tensor '{gguf_name}'"
+            )
+            raise ExportError(msg)
+        hf_names[gguf_name] = tensor.hf_name
         named.append(replace(tensor, gguf_name=gguf_name))
     return named
 
-- 
2.43.0


From 7448db490079f7f4e9cce6ca70371a3a7b708fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:06 +0000
Subject: [PATCH 49/58] fix: autoquant does not evaluate conditional
 expressions ahead of their statement

---
 src/fastforward/_autoquant/cst/passes.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_autoquant/cst/passes.py b/src/fastforward/_autoquant/cst/passes.py
index 583e6a3..c5c28f7 100644
--- a/src/fastforward/_autoquant/cst/passes.py
+++ b/src/fastforward/_autoquant/cst/passes.py
@@ -525,7 +525,15 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
         result = _tmp_2 + _tmp_3
     """
 
-    _SKIP_ISOLATION_NODES = (libcst.BaseComp, libcst.IfExp)
+    # Expressions nested in these nodes are evaluated conditionally, lazily or
+    # repeatedly, hence they cannot be evaluated ahead of the statement.
+    _SKIP_ISOLATION_NODES = (
+        libcst.Assert,
+        libcst.BaseComp,
+        libcst.BooleanOperation,
+        libcst.IfExp,
+        libcst.Lambda,
+    )
 
     # _visit_stack is a stack of nodes that are currently visited, a node is
     # added to the stack after visit and popped from the stack before leave.
-- 
2.43.0


From b92c4e1211c961e8494849dad4de9273a998f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 50/58] fix: autoquant does not evaluate expressions ahead of a
 walrus operator they depend on

---
 src/fastforward/_autoquant/cst/passes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_autoquant/cst/passes.py b/src/fastforward/_autoquant/cst/passes.py
index c5c28f7..998e22b 100644
--- a/src/fastforward/_autoquant/cst/passes.py
+++ b/src/fastforward/_autoquant/cst/passes.py
@@ -568,7 +568,7 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
     def on_visit(self, node: libcst.CSTNode) -> bool:
         visit_children = super().on_visit(node)
         self._visit_stack.append(node)
-        if isinstance(node, self._SKIP_ISOLATION_NODES):
+        if self._blocks_isolation(node):
             self._nested_in_no_isolation_subtree += 1
         return visit_children
 
@@ -577,7 +577,7 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
         self, original_node: libcst.CSTNodeT, updated_node: libcst.CSTNodeT
     ) -> libcst.CSTNodeT | libcst.RemovalSentinel:
         top = self._visit_stack.pop()
-        if isinstance(top, self._SKIP_ISOLATION_NODES):
+        if self._blocks_isolation(top):
             self._nested_in_no_isolation_subtree -= 1
 
         result_node = super().on_leave(original_node, updated_node)
@@ -699,6 +699,13 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
 
         return assign_name
 
+    def _blocks_isolation(self, node: libcst.CSTNode) -> bool:
+        if isinstance(node, libcst.SimpleStatementLine):
+            # An expression may use a name that is bound by a walrus operator
+            # earlier in the same statement.
+            return len(m.findall(node, m.NamedExpr())) > 0
+        return isinstance(node, self._SKIP_ISOLATION_NODES)
+
     def _is_nested_in_no_isolation_subtree(self) -> bool:
         return self._nested_in_no_isolation_subtree > 0
 
-- 
2.43.0


From aedffb349374564823c96d4d2aaf55ac9597d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 51/58] fix: autoquant temporaries do not overwrite variables
 of the same name

---
 src/fastforward/_autoquant/cst/passes.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_autoquant/cst/passes.py b/src/fastforward/_autoquant/cst/passes.py
index 998e22b..d4720f4 100644
--- a/src/fastforward/_autoquant/cst/passes.py
+++ b/src/fastforward/_autoquant/cst/passes.py
@@ -553,6 +553,7 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
         self._visit_stack = []
         self._insertions = _Insertions()
         self._nested_in_no_isolation_subtree = 0
+        self._used_names: set[str] = set()
         self._count = 1
 
     def parent(self) -> libcst.CSTNode | None:
@@ -566,6 +567,9 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
 
     @override
     def on_visit(self, node: libcst.CSTNode) -> bool:
+        if not self._visit_stack:
+            names = cast(Sequence[libcst.Name], m.findall(node, m.Name()))
+            self._used_names = {name.value for name in names}
         visit_children = super().on_visit(node)
         self._visit_stack.append(node)
         if self._blocks_isolation(node):
@@ -669,8 +673,7 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
         if self._is_nested_in_no_isolation_subtree():
             return updated_node
 
-        assign_name = libcst.Name(f"_tmp_{self._count}")
-        self._count += 1
+        assign_name = libcst.Name(self._next_tmp_name())
         assign_target = libcst.AssignTarget(assign_name)
 
         assignment = libcst.Assign([assign_target], updated_node)
@@ -699,6 +702,13 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
 
         return assign_name
 
+    def _next_tmp_name(self) -> str:
+        """Create a name that is not used in the visited code."""
+        while (name := f"_tmp_{self._count}") in self._used_names:
+            self._count += 1
+        self._count += 1
+        return name
+
     def _blocks_isolation(self, node: libcst.CSTNode) -> bool:
         if isinstance(node, libcst.SimpleStatementLine):
             # An expression may use a name that is bound by a walrus operator
-- 
2.43.0


From 2651c19cf80b94b7decb376c90f7fe32e2303945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 52/58] fix: autoquant quantizers with different base names do
 not share a name

---
 .../_autoquant/pybuilder/quantizer_collection.py      | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_autoquant/pybuilder/quantizer_collection.py b/src/fastforward/_autoquant/pybuilder/quantizer_collection.py
index 2ba7a96..827bdd3 100644
--- a/src/fastforward/_autoquant/pybuilder/quantizer_collection.py
+++ b/src/fastforward/_autoquant/pybuilder/quantizer_collection.py
@@ -144,9 +144,18 @@ class QuantizerReferenceCollection:
             return full_name
 
         for group in quantizer_name_groups.values():
+            used_names: set[str] = set()
             for name, name_metadata in group.items():
                 for i, metadata in enumerate(name_metadata):
-                    metadata.disambiguated_name = get_name(name, i, len(name_metadata))
+                    preferred_name = get_name(name, i, len(name_metadata))
+                    # Different base names may result in the same name, e.g., `relu_1`
+                    # and the first of multiple `relu`.
+                    unique_name, suffix = preferred_name, 2
+                    while unique_name in used_names:
+                        unique_name = f"{preferred_name}_{suffix}"
+                        suffix += 1
+                    used_names.add(unique_name)
+                    metadata.disambiguated_name = unique_name
 
     def disambiguate_reference(self, ref: nodes.QuantizerReference | int) -> str:
         """Get the disambiguated name for a quantizer reference.
-- 
2.43.0


From 4e8814541d3b4385a158cd1bfd3400e9cf45fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:51 +0000
Subject: [PATCH 53/58] fix: autoquant renames references to helpers only, not
 keywords and local names

---
 src/fastforward/_autoquant/autoquant.py | 57 ++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/_autoquant/autoquant.py b/src/fastforward/_autoquant/autoquant.py
index 69f84f0..043c98b 100644
--- a/src/fastforward/_autoquant/autoquant.py
+++ b/src/fastforward/_autoquant/autoquant.py
@@ -657,14 +657,13 @@ def _resolve_all_quantized_calls(
         else:
             helper_name_map[old_name] = replacement
 
-    rename_transformer = _RenameHelperRefsTransformer(helper_name_map)
     call_transformer = _ResolveQuantizedCallsTransformer(calls, helper_function_names)
     for func_ref, func_builder in func_builder_map.items():
         func_builder.quantizer_signature = signatures.get(func_ref, ())
 
         new_funcdef = func_builder.cst.visit(call_transformer)
         assert isinstance(new_funcdef, libcst.FunctionDef)
-        new_funcdef = new_funcdef.visit(rename_transformer)
+        new_funcdef = new_funcdef.visit(_RenameHelperRefsTransformer(helper_name_map, new_funcdef))
         assert isinstance(new_funcdef, libcst.FunctionDef)
         func_builder.cst = new_funcdef
 
@@ -938,6 +937,41 @@ def _resolve_calls(
             calls[unresolved_call] = tuple(call_args)
 
 
+def _bound_names(funcdef: libcst.FunctionDef) -> set[str]:
+    """Names of parameters and variables that are bound in `funcdef`."""
+    targets: list[libcst.BaseExpression] = []
+    binders = (
+        libcst.Param,
+        nodes.GeneralAssignment,
+        libcst.AssignTarget,
+        libcst.NamedExpr,
+        libcst.For,
+        libcst.CompFor,
+        libcst.AsName,
+        libcst.FunctionDef,
+        libcst.ClassDef,
+    )
+    for node in itertools.chain(
+        filter_nodes_by_type(funcdef.params, binders),
+        filter_nodes_by_type(funcdef.body, binders),
+    ):
+        match node:
+            case libcst.FunctionDef() | libcst.ClassDef() | libcst.Param() | libcst.AsName():
+                targets.append(node.name)
+            case nodes.GeneralAssignment():
+                targets.extend(node.targets)
+            case libcst.AssignTarget() | libcst.NamedExpr() | libcst.For() | libcst.CompFor():
+                targets.append(node.target)
+
+    names = [
+        name
+        for target in targets
+        for name in node_processing.unpack_sequence_expression(target, include_starred=True)
+        if isinstance(name, libcst.Name)
+    ]
+    return {name.value for name in names}
+
+
 class _RenameHelperRefsTransformer(libcst.CSTTransformer):
     """Replace stale Name references to renamed helpers.
 
@@ -948,11 +982,16 @@ class _RenameHelperRefsTransformer(libcst.CSTTransformer):
 
     Only standalone ``Name`` nodes are renamed — attribute accesses like
     ``torch.group_norm`` are left untouched because the ``attr`` part of an
-    ``Attribute`` node is not an independent reference.
+    ``Attribute`` node is not an independent reference. Similarly, keywords of
+    call arguments, names that are bound in ``funcdef`` and the name of ``funcdef``
+    are left untouched.
     """
 
-    def __init__(self, name_map: dict[str, libcst.BaseExpression]) -> None:
-        self._name_map = name_map
+    def __init__(
+        self, name_map: dict[str, libcst.BaseExpression], funcdef: libcst.FunctionDef
+    ) -> None:
+        bound_names = _bound_names(funcdef)
+        self._name_map = {k: v for k, v in name_map.items() if k not in bound_names}
         self._inside_attr: set[int] = set()
 
     def visit_Attribute(self, node: libcst.Attribute) -> bool:
@@ -967,6 +1006,14 @@ class _RenameHelperRefsTransformer(libcst.CSTTransformer):
         self._inside_attr.discard(id(original_node.attr))
         return updated_node
 
+    def leave_Arg(self, original_node: libcst.Arg, updated_node: libcst.Arg) -> libcst.Arg:
+        return updated_node.with_changes(keyword=original_node.keyword)
+
+    def leave_FunctionDef(
+        self, original_node: libcst.FunctionDef, updated_node: libcst.FunctionDef
+    ) -> libcst.FunctionDef:
+        return updated_node.with_changes(name=original_node.name)
+
     def leave_Name(
         self,
         original_node: libcst.Name,
-- 
2.43.0


From 4dc5597390507e2f2767031bef4bc4bb6d958298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:58 +0000
Subject: [PATCH 54/58] fix: autoquant resolves calls of methods inherited by
 several quantized classes

---
 src/fastforward/_autoquant/autoquant.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastforward/_autoquant/autoquant.py b/src/fastforward/_autoquant/autoquant.py
index 043c98b..0972055 100644
--- a/src/fastforward/_autoquant/autoquant.py
+++ b/src/fastforward/_autoquant/autoquant.py
@@ -698,6 +698,10 @@ def _discover_quantized_functions(
             continue
 
         func_ref = funcbuilder.origin.func
+        if funcbuilder.origin.method_type is MethodType.METHOD:
+            # The same function may be a method of multiple quantized classes, e.g.,
+            # if it is inherited. Each of these has its own builder.
+            func_ref = types.MethodType(func_ref, funcbuilder)
         func_builder_map[func_ref] = funcbuilder
         func_contexts[func_ref] = funcbuilder.origin
 
-- 
2.43.0


From 7531eb32232f15a4a39a7786f774f4b9cee2825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:58 +0000
Subject: [PATCH 55/58] fix: autoquant does not evaluate later operands of
 chained comparisons unconditionally

---
 src/fastforward/_autoquant/cst/passes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastforward/_autoquant/cst/passes.py b/src/fastforward/_autoquant/cst/passes.py
index d4720f4..d08c7a5 100644
--- a/src/fastforward/_autoquant/cst/passes.py
+++ b/src/fastforward/_autoquant/cst/passes.py
@@ -714,6 +714,10 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
             # An expression may use a name that is bound by a walrus operator
             # earlier in the same statement.
             return len(m.findall(node, m.NamedExpr())) > 0
+        if isinstance(node, libcst.Comparison):
+            # Operands of a chained comparison are only evaluated if all earlier
+            # comparisons hold.
+            return len(node.comparisons) > 1
         return isinstance(node, self._SKIP_ISOLATION_NODES)
 
     def _is_nested_in_no_isolation_subtree(self) -> bool:
-- 
2.43.0


From 0bd189afa71d79b17d198044b2af75ef5e9da2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:58 +0000
Subject: [PATCH 56/58] fix: autoquant keeps parentheses that an expression
 cannot do without

---
 src/fastforward/_autoquant/cst/passes.py | 36 ++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_autoquant/cst/passes.py b/src/fastforward/_autoquant/cst/passes.py
index d08c7a5..e4e59d4 100644
--- a/src/fastforward/_autoquant/cst/passes.py
+++ b/src/fastforward/_autoquant/cst/passes.py
@@ -1,6 +1,7 @@
 # Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
 # SPDX-License-Identifier: BSD-3-Clause-Clear
 
+import ast
 import dataclasses
 import inspect
 import re
@@ -964,6 +965,15 @@ class QuantizedCounterpartReplacer(libcst.CSTTransformer):
 class RemoveRedundantParenthesesTransformer(libcst.CSTTransformer):
     """Removes unnecessary parentheses from expressions when it's safe to do so."""
 
+    def __init__(self) -> None:
+        super().__init__()
+        self._visit_stack: list[libcst.CSTNode] = []
+
+    @override
+    def on_visit(self, node: libcst.CSTNode) -> bool:
+        self._visit_stack.append(node)
+        return super().on_visit(node)
+
     def _normalize_attribute_dot_whitespace(self, node: libcst.CSTNode) -> libcst.CSTNode:
         """Normalize dot-leading whitespace that is only legal in parenthesized continuation.
 
@@ -1027,7 +1037,7 @@ class RemoveRedundantParenthesesTransformer(libcst.CSTTransformer):
         updated_node: libcst.CSTNode,
     ) -> libcst.CSTNode:
         """Check any node for unnecessary parentheses and remove them if safe."""
-        del original_node
+        self._visit_stack.pop()
 
         # Always normalize dot-leading whitespace first. This is a structural safety rewrite and
         # is independent from whether outer parentheses are removed.
@@ -1046,10 +1056,32 @@ class RemoveRedundantParenthesesTransformer(libcst.CSTTransformer):
 
             # If there are parentheses, remove them
             if lpar and rpar and self._can_safely_remove_parens(updated_node, lpar, rpar):
-                return updated_node.with_changes(lpar=(), rpar=())
+                stripped_node = updated_node.with_changes(lpar=(), rpar=())
+                if self._is_valid_without_parens(original_node, stripped_node):
+                    return stripped_node
 
         return updated_node
 
+    def _is_valid_without_parens(
+        self, original_node: libcst.CSTNode, stripped_node: libcst.CSTNode
+    ) -> bool:
+        """Check that the code is valid if `original_node` is replaced by `stripped_node`."""
+        try:
+            # Without parentheses, an expression cannot continue on the next line.
+            ast.parse(libcst.Module([]).code_for_node(stripped_node), mode="eval")
+
+            # Without parentheses, an expression must be separated from adjacent keywords,
+            # e.g., `return(x)`.
+            for parent in reversed(self._visit_stack):
+                if isinstance(parent, libcst.Match):
+                    return False
+                if isinstance(parent, (libcst.BaseSmallStatement, libcst.BaseCompoundStatement)):
+                    parent.deep_replace(original_node, stripped_node)
+                    break
+        except (SyntaxError, libcst.CSTValidationError):
+            return False
+        return True
+
     def _can_safely_remove_parens(
         self,
         node: libcst.CSTNode,
-- 
2.43.0


From 619c5ad3767102296f49ab1115bb3c616a94f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:13 +0000
Subject: [PATCH 57/58] fix: autoquant does not give a generated class the name
 of an imported base class

---
 src/fastforward/_autoquant/autoquant.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/_autoquant/autoquant.py b/src/fastforward/_autoquant/autoquant.py
index 0972055..922b89f 100644
--- a/src/fastforward/_autoquant/autoquant.py
+++ b/src/fastforward/_autoquant/autoquant.py
@@ -47,8 +47,8 @@ class QuantizedClassNameAllocator:
     def __init__(self, module_types: Sequence[type[torch.nn.Module]]) -> None:
         self._type_name_totals = collections.Counter(mod_type.__name__ for mod_type in module_types)
         self._type_name_next_index: collections.Counter[str] = collections.Counter()
-        self._used_quantized_class_names: set[str] = set()
-        self._used_base_import_aliases: set[str] = set()
+        # Quantized classes and base imports are bound in the same module.
+        self._used_names: set[str] = set()
 
     @staticmethod
     def _alloc_unique_name(preferred: str, used_names: set[str]) -> str:
@@ -78,8 +78,8 @@ class QuantizedClassNameAllocator:
             preferred_quantized_name = f"Quantized{type_name}"
 
         return (
-            self._alloc_unique_name(preferred_base_alias, self._used_base_import_aliases),
-            self._alloc_unique_name(preferred_quantized_name, self._used_quantized_class_names),
+            self._alloc_unique_name(preferred_base_alias, self._used_names),
+            self._alloc_unique_name(preferred_quantized_name, self._used_names),
         )
 
 
-- 
2.43.0


From 1cb5a10a78f39b828f07b14a191e2df67a14e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:13 +0000
Subject: [PATCH 58/58] fix: autoquant imports different objects under
 different names

---
 src/fastforward/_autoquant/autoquant.py       | 72 +++++++++++++++++++
 .../_autoquant/pybuilder/builder.py           |  9 +++
 src/fastforward/_autoquant/pysource/scope.py  |  5 ++
 3 files changed, 86 insertions(+)

diff --git a/src/fastforward/_autoquant/autoquant.py b/src/fastforward/_autoquant/autoquant.py
index 922b89f..0456246 100644
--- a/src/fastforward/_autoquant/autoquant.py
+++ b/src/fastforward/_autoquant/autoquant.py
@@ -627,6 +627,7 @@ def _resolve_all_quantized_calls(
     for func_builder in builder.functions():
         if func_builder.origin.method_type is not MethodType.NO_METHOD:
             used_global_names.add(func_builder.name)
+        used_global_names.update(imp.local_name for imp in func_builder.required_imports)
 
     for func_ref, func_builder in func_builder_map.items():
         if func_builder.origin.method_type is MethodType.NO_METHOD:
@@ -667,6 +668,77 @@ def _resolve_all_quantized_calls(
         assert isinstance(new_funcdef, libcst.FunctionDef)
         func_builder.cst = new_funcdef
 
+    _disambiguate_imports(builder)
+
+
+def _disambiguate_imports(builder: pybuilder.ModuleBuilder) -> None:
+    """Import different objects under different names.
+
+    The functions in the generated module may stem from different Python modules. The
+    same name can refer to different objects in these, or can be the name of a
+    generated class. The import of any such name is given an alias and is renamed in
+    the function that requires it.
+    """
+    bound_imports: dict[str, set[ImportSymbol]] = {}
+    for cls_builder in builder.classes():
+        for imp in cls_builder.class_imports:
+            bound_imports.setdefault(imp.local_name, set()).add(imp)
+    for cls_builder in builder.classes():
+        bound_imports[cls_builder.name] = set()
+
+    used_names = set(bound_imports)
+    for func_builder in builder.functions():
+        used_names.update(imp.local_name for imp in func_builder.required_imports)
+
+    for func_builder in builder.functions():
+        # The same name can be imported in multiple ways, e.g., in branches.
+        func_imports: dict[str, set[ImportSymbol]] = {}
+        for imp in func_builder.required_imports:
+            func_imports.setdefault(imp.local_name, set()).add(imp)
+
+        renames: dict[str, libcst.BaseExpression] = {}
+        for name, imports in func_imports.items():
+            known_imports = bound_imports.setdefault(name, imports)
+            if _import_same_objects(imports, known_imports):
+                continue
+            if any(imp.asname is None and "." in imp.name for imp in imports):
+                continue  # `import a.b` cannot be renamed
+            alias, suffix = f"_{name}_1", 2
+            while alias in used_names:
+                alias, suffix = f"_{name}_{suffix}", suffix + 1
+            used_names.add(alias)
+            renames[name] = libcst.Name(alias)
+
+        if not renames:
+            continue
+
+        func_builder.required_imports = tuple(
+            dataclasses.replace(imp, asname=cast(libcst.Name, renames[imp.local_name]).value)
+            if imp.local_name in renames
+            else imp
+            for imp in func_builder.required_imports
+        )
+        new_funcdef = func_builder.cst.visit(
+            _RenameHelperRefsTransformer(renames, func_builder.cst)
+        )
+        assert isinstance(new_funcdef, libcst.FunctionDef)
+        func_builder.cst = new_funcdef
+
+
+def _import_same_objects(first: set[ImportSymbol], second: set[ImportSymbol]) -> bool:
+    """True if all imports in `first` and `second` are known to import the same object."""
+    if first == second:
+        return True
+
+    def _imported_object(imp: ImportSymbol) -> Any:
+        if imp.module is None:
+            return sys.modules.get(imp.name, imp)
+        module = sys.modules.get(imp.module)
+        fallback = sys.modules.get(f"{imp.module}.{imp.name}", imp)
+        return getattr(module, imp.name, fallback)
+
+    return len({id(obj) for obj in map(_imported_object, first | second)}) == 1 and bool(second)
+
 
 def _discover_quantized_functions(
     builder: pybuilder.ModuleBuilder, quantizer_refs: QuantizerReferenceCollection
diff --git a/src/fastforward/_autoquant/pybuilder/builder.py b/src/fastforward/_autoquant/pybuilder/builder.py
index 42edb73..3e48f53 100644
--- a/src/fastforward/_autoquant/pybuilder/builder.py
+++ b/src/fastforward/_autoquant/pybuilder/builder.py
@@ -155,6 +155,11 @@ class ClassBuilder(NodeBuilder[libcst.ClassDef]):
     def name(self) -> str:
         return self._name
 
+    @property
+    def class_imports(self) -> tuple[ImportSymbol, ...]:
+        """Imports that are required for this class, excluding those of its methods."""
+        return self._required_imports
+
     @property
     def required_imports(self) -> tuple[ImportSymbol, ...]:
         """Imports that are required for this class."""
@@ -270,6 +275,10 @@ class FunctionBuilder(NodeBuilder[libcst.FunctionDef]):
         """Imports that are required for this function."""
         return self._required_imports
 
+    @required_imports.setter
+    def required_imports(self, required_imports: Iterable[ImportSymbol]) -> None:
+        self._required_imports = tuple(required_imports)
+
     @override
     def build(self, quantizer_refs: QuantizerReferenceCollection) -> libcst.FunctionDef:
         # Currently, the FunctionBuilder simply holds a FunctionDef node
diff --git a/src/fastforward/_autoquant/pysource/scope.py b/src/fastforward/_autoquant/pysource/scope.py
index f2a6c17..3d7542c 100644
--- a/src/fastforward/_autoquant/pysource/scope.py
+++ b/src/fastforward/_autoquant/pysource/scope.py
@@ -30,6 +30,11 @@ class ImportSymbol:
         parts = name.split(".")
         return bool(parts) and all(cls._is_valid_identifier(part) for part in parts)
 
+    @property
+    def local_name(self) -> str:
+        """The name that is bound by the import."""
+        return self.asname or self.name.split(".", 1)[0]
+
     def is_valid(self) -> bool:
         if self.asname is not None and not self._is_valid_identifier(self.asname):
             return False
-- 
2.43.0

