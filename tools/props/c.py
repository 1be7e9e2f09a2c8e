PROPS = []
PROPS.append(
 dict(id="C01", title="Quantization kernels compute the affine formula on the signed integer grid",
  statement="For every tile with scale s and offset o (none counts as 0) and bitwidth b, static quantization of x stores round(x/s - round(o)) clamped to [-2^(b-1), 2^(b-1)-1], dequantization gives (q + round(o))*s in the requested type, and dynamic quantization does the same with the parameters computed from the tile's own minimum and maximum, which it returns. The gradient passes through on the grid and is zero for clipped elements, the scale gradient is (q - (x/s - round(o))) on the grid and (bound + round(o)) outside, and the offset gradient is s for clipped elements only, each times the output gradient and summed over its tile. A storage type is accepted only if it can represent the whole grid, and the tracing versions of the kernels return the same shapes and types.",
  quantifier=dict(over=["inputs", "configurations"], text="all data, tilings, scales, offsets (or none), bitwidths and storage types"),
  why_tests_cant="Formulas agree on most sampled points; a wrong bound, tie or sign shows only for particular bitwidths, offsets and clipped elements.",
  anchors=dict(files=["src/fastforward/quantization/_quantizer_impl.py"],
   mechanism=[dict(name="quantize_by_tile_impl, dequantize_by_tile_impl, quant_dequant_by_tile_grad_impl, quantize_dynamic_by_tile_impl", where="src/fastforward/quantization/_quantizer_impl.py")]),
  technique="algebraic normal form of the kernel's returned expression, by abstract interpretation and case analysis",
  note="Formulas are compared over the reals, not in floating point; the tile layout functions are treated as mutually inverse (C03)."))
PROPS.append(
 dict(id="C02", title="Quantization range and parameters determine each other by the affine relation",
  statement="The range of parameters (s, o, b) is [(-2^(b-1) + o)*s, (2^(b-1) - 1 + o)*s], and the parameters computed for a range [m, M] are: asymmetric s = (M-m)/(2^b-1), o = m/s + 2^(b-1); symmetric s = max(|m|/2^(b-1), |M|/(2^(b-1)-1)) without offset; and, when one-sided ranges are allowed and every minimum is non-negative, symmetric ones use the asymmetric formula with minimum 0; the scale is always kept above zero. Setting the range of a linear quantizer stores exactly these parameters (clearing a left-over offset), reading it returns the range of the stored parameters, and a range operator quantizes with the same parameters and the quantizer's own bitwidth, granularity and storage type. The symmetric flag a quantizer reports is the one it was constructed with.",
  quantifier=dict(over=["inputs", "configurations", "histories"], text="all ranges and parameters, bitwidths, symmetric/one-sided settings, and all sequences of setting and reading ranges"),
  why_tests_cant="Few ranges and bitwidths are sampled, mostly symmetric around zero or positive; resetting an offset needs a particular sequence of range updates.",
  anchors=dict(files=["src/fastforward/quantization/affine/range.py", "src/fastforward/nn/linear_quantizer.py"],
   mechanism=[dict(name="parameters_for_range / quantization_range", where="src/fastforward/quantization/affine/range.py"), dict(name="LinearQuantizer.quantization_range", where="src/fastforward/nn/linear_quantizer.py")]),
  technique="algebraic normal form per path, compared with the affine relation for every flag combination",
  note="Formulas are compared over the reals; floating point rounding of the stored parameters is outside the check."))
PROPS.append(
 dict(id="C03", title="Granularities and tilings partition every tensor exactly and invertibly",
  statement="Splitting a tensor into tile rows puts every element of a tile, and only those, in one row in row-major tile order, and joining rows is its exact inverse; tiles that do not divide the data, rank mismatches and rows of the wrong shape are refused with an error. The tile size of a granularity is: the data shape per tensor, 1 along the channel dimensions (also negative or several) per channel, the block size along block dimensions and 1 along channel dimensions per block (refusing blocks larger than the dimension, or not dividing it when strict), the given shape per tile; the number of parameters is the number of tiles. A granularity inferred from a data and a tile size has exactly that tile size, and two granularities are equal only if they have the same kind and the same arguments.",
  quantifier=dict(over=["inputs", "configurations"], text="all shapes, tile sizes and granularities (up to rank 4, any sizes)"),
  why_tests_cant="Few shapes are sampled; wrong orders coincide for square, symmetric or rank-2 shapes, and mixtures of channel, block and whole dimensions are combinatorial.",
  anchors=dict(files=["src/fastforward/quantization/tiled_tensor.py", "src/fastforward/quantization/granularity.py"],
   mechanism=[dict(name="tiles_to_rows / rows_to_tiles / check_tile_compatibility", where="src/fastforward/quantization/tiled_tensor.py"), dict(name="Granularity.tile_size, granularity_from_sizes", where="src/fastforward/quantization/granularity.py")]),
  technique="abstract interpretation over symbolic size monomials; element order of reshape/permute chains",
  note="Sizes are symbols in general position; ranks above 4 and empty tensors are not enumerated."))

PROPS.append(
 dict(id="C04", title="Quantizing applies exactly the given parameters and records them in the result",
  statement="Every way to quantize (functional entry points per tensor, channel, block, tile or granularity, static or dynamic, quantization contexts, and the quantizer modules) uses exactly the given data, scale, offset, bitwidth, symmetry settings and storage type, on the tiles of the requested granularity. The resulting quantized tensor records the scale and offset that were used (for dynamic quantization those computed from the data or returned by the inference function), the bitwidth, the granularity and the dequantization type (the given one, else the type of the data), so that dequantizing it applies the inverse of exactly that quantization; in export mode the same quantize and dequantize computation is returned as a plain tensor. Dynamic quantization is refused in export mode, and dequantizing with dynamic parameters that were never fixed is refused.",
  quantifier=dict(over=["inputs", "configurations"], text="all data, parameters, granularities, optional arguments given or omitted, and both export modes"),
  why_tests_cant="Optional arguments combine; a dropped or swapped parameter has no effect when it equals the default, for square shapes, or for float32 data.",
  anchors=dict(files=["src/fastforward/quantization/affine/function.py", "src/fastforward/quantization/affine/static.py", "src/fastforward/quantization/affine/dynamic.py", "src/fastforward/nn/linear_quantizer.py"],
   mechanism=[dict(name="AffineQuantizationFunction.quantize / dequantize, _static_from_dynamic", where="src/fastforward/quantization/affine/function.py"), dict(name="quantize_affine / dequantize_affine / quantize_dynamic_affine", where="src/fastforward/quantization/affine/_autograd.py")]),
  technique="abstract interpretation of each entry point down to the registered kernel call, for all combinations of optional arguments",
  note="The kernels' own formulas are C01; tile sizes are evaluated for rank 3 with symbolic sizes."))

PROPS.append(
 dict(id="C05", title="Gradients through quantization reach exactly the right inputs",
  statement="Differentiating static quantization gives the data, the scale and (if there is one) the offset each its own gradient of the quantization formula, computed from the very data, parameters, tiles and bitwidth used in the forward pass, and no other input any; dequantization and dynamic quantization hand the output gradient unchanged to the data, and multiplying a quantized tensor by a scalar multiplies the gradient by it. A straight-through function returns exactly the wrapped function's result for all its arguments, refuses a changed shape, and hands the output gradient unchanged to its first argument only. Nothing on the way from the quantizers and functional entry points leaves the autograd graph; the scale of a linear quantizer is trainable, its offset exactly if it is asymmetric.",
  quantifier=dict(over=["inputs", "configurations"], text="all data, parameters, with and without offset, and all sequences of quantization operations that are differentiated"),
  why_tests_cant="A gradient that is swapped, dropped or computed from other values shows only when that input requires a gradient in that configuration; forward results stay right.",
  anchors=dict(files=["src/fastforward/quantization/affine/_autograd.py", "src/fastforward/quantization/ste.py", "src/fastforward/quantization/_linear_quantized_ops.py"],
   mechanism=[dict(name="QuantizeStaticAffine / QuantizeDynamicAffine / DequantizeAffine", where="src/fastforward/quantization/affine/_autograd.py"), dict(name="ste", where="src/fastforward/quantization/ste.py"), dict(name="scalar_multiply", where="src/fastforward/quantization/_linear_quantized_ops.py")]),
  technique="abstract interpretation of forward and backward on a shared context; gradient tuples compared input by input",
  note="The formula of the backward kernel is C01."))
