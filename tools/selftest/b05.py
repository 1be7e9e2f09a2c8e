L="quantization/_linear_quantized_ops.py"; Q="quantized_tensor.py"
CASES=[
("mul ignores output quantizer",1,[(L,"    affine_per_tensor_predicate & scalar_other_predicate & no_output_quantizer_predicate,","    affine_per_tensor_predicate & scalar_other_predicate,")]),
("mul any quantizer",1,[(L,"    return output_quantizer is None or isinstance(output_quantizer, QuantizerStub)","    return output_quantizer is None or callable(output_quantizer)")]),
("mul tensors",1,[(L,"    return isinstance(other, (float, int))","    return isinstance(other, (float, int, torch.Tensor))")]),
("mul scale divided",1,[(L,"new_scale = quant_params.scale * other","new_scale = quant_params.scale / other")]),
("mul offset too",1,[(L,"with_changes(scale=new_scale)\n    return new_context.attach(scaled_out)","with_changes(scale=new_scale, offset=quant_params.offset * other)\n    return new_context.attach(scaled_out)")]),
("mul gradient",1,[(L,"        return grad * ctx.scalar, None","        return grad, None")]),
("cat ignores output quantizer",1,[(L,"    if output_quantizer is not None:\n        return False\n","")]),
("cat scale only first",1,[(L,"        scale_match = scale is None or quant_params.scale == scale","        scale_match = scale is None or idx > 1 or quant_params.scale == scale")]),
("cat offset or none",1,[(L,"            offset_match = offset is quant_params.offset\n","            offset_match = True\n")]),
("cat granularity",1,[(L,"        if not isinstance(quant_params.granularity, ff.PerTensor):\n            return False\n","")]),
("cat dim lost",1,[(L,"torch.cat([t.raw_data for t in tensors], dim=dim)","torch.cat([t.raw_data for t in tensors], dim=0)")]),
("view per channel",1,[(L,'@register("view", affine_per_tensor_predicate)','@register("view", affine_predicate)')]),
("transpose no predicate",1,[(L,'@register("transpose", affine_per_tensor_predicate)','@register("transpose")')]),
("per tensor predicate or",1,[(L,"    return is_affine and has_affine_params and is_per_tensor","    return is_affine and has_affine_params and (is_per_tensor or input.ndim == 1)")]),
("per tensor predicate no isinstance",1,[(L,"""def _is_affine_per_tensor(input: QuantizedTensor, *_args: Any, **_kwargs: Any) -> bool:
    # As part of the predicate we verify input is actually a QuantizedTensor
    if not isinstance(input, QuantizedTensor):
        return False  # type: ignore[unreachable]
""","""def _is_affine_per_tensor(input: QuantizedTensor, *_args: Any, **_kwargs: Any) -> bool:
""")]),
("getitem offset not indexed",1,[(L,"        offset = (q_params.offset.view(param_tmp_shape).__getitem__(slices_effective)).reshape(-1)","        offset = q_params.offset")]),
("getitem scale not indexed",1,[(L,"    scale = q_params.scale.view(param_tmp_shape).__getitem__(slices_effective)","    scale = q_params.scale.view(param_tmp_shape)")]),
("getitem offset dropped",1,[(L,"scale=scale, offset=offset, granularity=granularity","scale=scale, granularity=granularity")]),
("getitem granularity kept",1,[(L,"scale=scale, offset=offset, granularity=granularity","scale=scale, offset=offset")]),
("unsqueeze strict",1,[(L,"(ax % ndim >= new_dim)","(ax % ndim > new_dim)")]),
("unsqueeze dim not normalised",1,[(L,"            new_dim = dim % (ndim + 1)","            new_dim = dim")]),
("unsqueeze dim norm ndim",1,[(L,"            new_dim = dim % (ndim + 1)","            new_dim = dim % ndim")]),
("unsqueeze context kept",1,[(L,"""            new_context = input.quantization_context.with_changes(
                granularity=ff.PerChannel(new_axis)
            )""","""            new_context = input.quantization_context""")]),
("topk sign",1,[(L,"    if bool(torch.as_tensor(_affine_params(input).scale) < 0):\n","    if False:\n")]),
("topk largest lost",1,[(L,"torch.topk(input, k, dim=dim, largest=largest, sorted=sorted)","torch.topk(input, k, dim=dim, sorted=sorted)")]),
("topk swapped",1,[(L,"torch.topk(input, k, dim=dim, largest=largest, sorted=sorted)","torch.topk(input, k, dim=dim, largest=sorted, sorted=largest)")]),
("take dim lost",1,[(L,"torch.take_along_dim(x, indices, dim=dim)","torch.take_along_dim(x, indices)")]),
("expand wrong op",1,[(L,"lambda x: x.expand(*args)","lambda x: x.reshape(*args)")]),
("same shape view numel",1,[(Q,"    return shape == self.shape\n","    return shape.numel() == self.numel()\n")]),
("getitem none counts",1,[(L,"            slices_effective_.append(None)\n","            slices_effective_.append(None)\n            orig_index += 1\n")]),
("getitem channel not counted",1,[(L,"            slices_effective_.append(slice_)\n            orig_index += 1","            slices_effective_.append(slice_)")]),
("getitem int kept",1,[(L,"            slices_effective_.append(0)\n","            slices_effective_.append(slice(None, None, None))\n")]),
("getitem ellipsis count none",1,[(L,"                if s is not None and s != Ellipsis:","                if s != Ellipsis:")]),
("benign ellipsis from here",0,[(L,"for s in slices[slice_index + 1 :]:","for s in slices[slice_index:]:")]),
("getitem ellipsis skips one",1,[(L,"for s in slices[slice_index + 1 :]:","for s in slices[slice_index + 2 :]:")]),
("getitem nonchannel sliced",1,[(L,"            slices_effective_.append(slice(None, None, None))  # doesn't do anything","            slices_effective_.append(slice_)")]),
("benign topk where",0,[(L,"    if bool(torch.as_tensor(_affine_params(input).scale) < 0):\n        # A negative scale reverses the order of the raw data.\n        largest = not largest\n","    negative = bool(torch.as_tensor(_affine_params(input).scale) < 0)\n    largest = largest != negative\n")]),
("benign getitem helper",0,[(L,"lambda x: x.__getitem__(*args), input","operator_getitem, input") if False else (L,"return apply_and_reattach(lambda x: x.__getitem__(*args), input)","raw = input.raw_data.__getitem__(*args)\n    return input.quantization_context.attach(raw)")]),
("benign cat loop",0,[(L,"""        scale_match = scale is None or quant_params.scale == scale
""","""        scale_match = True
        if scale is not None:
            scale_match = bool(quant_params.scale == scale)
""")]),
("benign mul",0,[(L,"    new_context = input.quantization_context.with_changes(scale=new_scale)\n    return new_context.attach(scaled_out)","    return input.quantization_context.with_changes(scale=new_scale).attach(scaled_out)")]),
("benign predicate early return",0,[(L,"    return is_affine and has_affine_params and is_per_tensor","    if not is_affine:\n        return False\n    if not has_affine_params:\n        return False\n    return is_per_tensor")]),
("benign predicate helper",0,[(L,"    return is_affine and has_affine_params and is_per_tensor","    return _all_of(is_affine, has_affine_params, is_per_tensor)"),(L,"affine_per_tensor_predicate = ","def _all_of(a: bool, b: bool, c: bool) -> bool:\n    return a and b and c\n\n\naffine_per_tensor_predicate = ")]),
("benign getitem listcomp",0,[(L,"    new_channel_dims = tuple([i for i, dim in enumerate(scale.shape) if dim > 1])","    new_channel_dims = []\n    for i, dim in enumerate(scale.shape):\n        if dim > 1:\n            new_channel_dims.append(i)")]),
("benign unsqueeze ifelse",0,[(L,"new_axis = tuple(ax % ndim + (ax % ndim >= new_dim) for ax in axis)","new_axis = tuple(ax % ndim + 1 if ax % ndim >= new_dim else ax % ndim for ax in axis)")]),
("benign unsqueeze if",0,[(L,"new_axis = tuple(ax % ndim + (ax % ndim >= new_dim) for ax in axis)","new_axis = tuple(ax % ndim if ax % ndim < new_dim else ax % ndim + 1 for ax in axis)")]),
("benign cat helper zip",0,[(L,"""    scale: torch.Tensor | float | None = None
    offset: torch.Tensor | float | None = None

    for idx, tensor in enumerate(tensors):
""","""    scale: torch.Tensor | float | None = None
    offset: torch.Tensor | float | None = None
    idx = -1

    for tensor in tensors:
        idx += 1
""")]),
]
