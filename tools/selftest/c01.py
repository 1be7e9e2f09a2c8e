Q="quantization/_quantizer_impl.py"
QF="def quantize_by_tile_impl("
CASES=[
("quantize no offset round",1,[(Q,"return torch.round(offset.reshape(-1)) if offset","return offset.reshape(-1) if offset")]),
("threshold unsigned",1,[(Q,"    min_threshold = -(2 ** (num_bits - 1))\n    max_threshold = -min_threshold - 1\n    row_representation = tiled_tensor.tiles_to_rows(data, tile_size)\n    quantized = round_ste","    min_threshold = -(2 ** (num_bits - 1))\n    max_threshold = -min_threshold\n    row_representation = tiled_tensor.tiles_to_rows(data, tile_size)\n    quantized = round_ste")]),
("dyn threshold symmetric",1,[(Q,"    max_threshold = -min_threshold - 1\n    row_representation = tiled_tensor.tiles_to_rows(data, tile_size)\n\n    try","    max_threshold = -min_threshold - 1\n    min_threshold = -max_threshold\n    row_representation = tiled_tensor.tiles_to_rows(data, tile_size)\n\n    try")]),
("offset before div",1,[(Q,"round_ste(row_representation / scale[:, None] - offset[:, None])","round_ste((row_representation - offset[:, None]) / scale[:, None])")]),
("floor",1,[(Q,"quantized = round_ste(row_representation / scale[:, None] - offset[:, None])","quantized = torch.floor(row_representation / scale[:, None] - offset[:, None])")]),
("clamp before round",1,[(Q,"    quantized = round_ste(row_representation / scale[:, None] - offset[:, None])\n    quantized = torch.clamp(quantized, min_threshold, max_threshold)","    quantized = row_representation / scale[:, None] - offset[:, None]\n    quantized = round_ste(torch.clamp(quantized, min_threshold, max_threshold))")]),
("dequant offset sign",1,[(Q,"(row_representation + offset[:, None]) * scale[:, None]","(row_representation - offset[:, None]) * scale[:, None]")]),
("dequant ignores type",1,[(Q,"    if output_dtype:\n        dequantized = dequantized.to(output_dtype)\n","")]),
("cast before tile",1,[(Q,"    quantized = torch.clamp(quantized, min_threshold, max_threshold)\n    result = tiled_tensor.rows_to_tiles(quantized, data.shape, tile_size)\n    output_dtype = output_dtype or result.dtype\n    if not can_support_bitwidth(output_dtype, num_bits):\n        msg = f\"Provided dtype ({output_dtype}) is not enough to store {num_bits} bits quantized values.\"\n        raise RuntimeError(msg)\n    result = result.to(output_dtype)\n    return result\n","    output_dtype = output_dtype or data.dtype\n    quantized = quantized.to(output_dtype)\n    quantized = torch.clamp(quantized, min_threshold, max_threshold)\n    result = tiled_tensor.rows_to_tiles(quantized, data.shape, tile_size)\n    if not can_support_bitwidth(output_dtype, num_bits):\n        msg = f\"Provided dtype ({output_dtype}) is not enough to store {num_bits} bits quantized values.\"\n        raise RuntimeError(msg)\n    return result\n")]),
("untested type",1,[(Q,"    output_dtype = output_dtype or result.dtype\n    if not can_support_bitwidth(output_dtype, num_bits):\n        msg = f\"Provided dtype ({output_dtype}) is not enough to store {num_bits} bits quantized values.\"\n        raise RuntimeError(msg)\n    result = result.to(output_dtype)\n    return result\n","    if output_dtype is not None:\n        result = result.to(output_dtype)\n    return result\n")]),
("test other bits",1,[(Q,"    if not can_support_bitwidth(output_dtype, num_bits):\n        msg = f\"Provided dtype ({output_dtype}) is not enough to store {num_bits} bits quantized values.\"\n        raise RuntimeError(msg)\n    result = result.to(output_dtype)\n    return result\n","    if not can_support_bitwidth(data.dtype, num_bits):\n        msg = f\"Provided dtype ({output_dtype}) is not enough to store {num_bits} bits quantized values.\"\n        raise RuntimeError(msg)\n    result = result.to(output_dtype)\n    return result\n")]),
("mantissa",1,[(Q,"available_precision_bits = 10","available_precision_bits = 16")]),
("int range",1,[(Q,"info.min <= -(2 ** (num_bits - 1)) and max_value <= info.max","max_value <= info.max")]),
("representable",1,[(Q,"available_precision_bits + 2","available_precision_bits + 4")]),
("grad clip above only",1,[(Q,"clip_mask = torch.logical_or(quantized < min_threshold, quantized > max_threshold)","clip_mask = quantized > max_threshold")]),
("grad clip ge",1,[(Q,"quantized > max_threshold)\n\n    dinput","quantized >= max_threshold)\n\n    dinput")]),
("grad dinput inverted",1,[(Q,"torch.where(clip_mask, 0, grad_as_rows)","torch.where(clip_mask, grad_as_rows, 0)")]),
("grad dscale no offset",1,[(Q,"    dscale.add_(offset[:, None].to(dscale.dtype))\n","")]),
("grad dscale sign",1,[(Q,"(quantized - pre_round).to","(pre_round - quantized).to")]),
("grad dscale no grad",1,[(Q,"    dscale.mul_(grad_as_rows)\n","")]),
("grad offset grad sign",1,[(Q,"torch.where(clip_mask, scale[:, None] * grad_as_rows, 0)","torch.where(clip_mask, -scale[:, None] * grad_as_rows, 0)")]),
("grad offset everywhere",1,[(Q,"torch.where(clip_mask, scale[:, None] * grad_as_rows, 0)","scale[:, None] * grad_as_rows")]),
("grad sum axis",1,[(Q,"dscale = dscale.sum(1).reshape(param_shape)","dscale = dscale.sum(0).reshape(param_shape)")]),
("grad swapped outputs",1,[(Q,"return [dinput, dscale, doffset]","return [dinput, doffset, dscale]")]),
("grad min max swapped",1,[(Q,"torch.where(quantized < min_threshold, min_thresh, max_thresh, out=dscale)","torch.where(quantized < min_threshold, max_thresh, min_thresh, out=dscale)")]),
("dyn symmetric dropped",1,[(Q,"symmetric=symmetric,\n        allow_one_sided=allow_one_sided,\n    )\n    if offset","symmetric=symmetric,\n        allow_one_sided=symmetric,\n    )\n    if offset")]),
("dyn min max abs",1,[(Q,"min_range = torch.min(row_representation, dim=1).values","min_range = torch.min(row_representation, dim=0).values")]),
("dyn offset zero",1,[(Q,"    if offset is None:\n        offset = torch.zeros_like(scale)\n    offset = torch.round(offset)","    if offset is None or symmetric:\n        offset = torch.zeros_like(scale)\n    offset = torch.round(offset)")]),
("dyn offset unrounded in grid",1,[(Q,"    offset = torch.round(offset)\n\n","\n")]),
("wrapper drops kwargs",1,[(Q,"return compiled_func(*args, **kwargs)","return compiled_func(*args)")]),
("fake dtype",1,[(Q,"    del scale, tile_size, num_bits, offset\n    return torch.empty_like(input, dtype=output_dtype)","    del scale, tile_size, num_bits, offset\n    return torch.empty_like(input)")]),
("benign unsqueeze div",0,[(Q,"quantized = round_ste(row_representation / scale[:, None] - offset[:, None])\n    quantized = torch.clamp(quantized, min_threshold, max_threshold)","scaled = torch.div(row_representation, scale.unsqueeze(1)).sub(offset.unsqueeze(-1))\n    quantized = round_ste(scaled).clamp(min=min_threshold, max=max_threshold)")]),
("benign helper",0,[(Q,"@quant_operator(\"fastforward::quantize_by_tile\")\n","def _thresholds(num_bits):\n    half = 2 ** (num_bits - 1)\n    return -half, half - 1\n\n\n@quant_operator(\"fastforward::quantize_by_tile\")\n"),(Q,"    min_threshold = -(2 ** (num_bits - 1))\n    max_threshold = -min_threshold - 1\n    row_rep","    min_threshold, max_threshold = _thresholds(num_bits)\n    row_rep"),(Q,"    min_threshold = -(2 ** (num_bits - 1))\n    max_threshold = -min_threshold - 1\n\n    data","    min_threshold, max_threshold = affine.integer_minimum(num_bits), affine.integer_maximum(num_bits)\n\n    data")]),
("benign dscale functional",0,[(Q,"""    dscale = torch.empty(quantized.shape, dtype=scale.dtype, device=scale.device)
    min_thresh = scale.new_tensor([min_threshold])
    max_thresh = scale.new_tensor([max_threshold])
    torch.where(quantized < min_threshold, min_thresh, max_thresh, out=dscale)
    dscale.add_(offset[:, None].to(dscale.dtype))
    torch.where(clip_mask, dscale, (quantized - pre_round).to(dscale.dtype), out=dscale)
    dscale.mul_(grad_as_rows)
""","""    clipped = torch.clamp(quantized, min_threshold, max_threshold)
    inside = quantized - pre_round
    dscale = torch.where(clip_mask, torch.where(quantized > max_threshold, max_threshold, min_threshold) + offset[:, None], inside)
    dscale = grad_as_rows * dscale
"""),(Q,"clip_mask = torch.logical_or(quantized < min_threshold, quantized > max_threshold)","clip_mask = ~((quantized >= min_threshold) & (quantized <= max_threshold))")]),
("benign mask mul",0,[(Q,"dinput = torch.where(clip_mask, 0, grad_as_rows)","dinput = grad_as_rows.masked_fill(clip_mask, 0)")]),
("benign aminmax",0,[(Q,"        min_range = torch.min(row_representation, dim=1).values\n        max_range = torch.max(row_representation, dim=1).values\n","        min_range, max_range = row_representation.amin(dim=1), row_representation.amax(dim=1)\n")]),
("benign clip compare",0,[(Q,"clip_mask = torch.logical_or(quantized < min_threshold, quantized > max_threshold)","clip_mask = quantized != quantized.clamp(min_threshold, max_threshold)")]),
("benign dtype early",0,[(Q,"    result = tiled_tensor.rows_to_tiles(quantized, data.shape, tile_size)\n    output_dtype = output_dtype or result.dtype\n    if not can_support_bitwidth(output_dtype, num_bits):\n        msg = f\"Provided dtype ({output_dtype}) is not enough to store {num_bits} bits quantized values.\"\n        raise RuntimeError(msg)\n    result = result.to(output_dtype)\n    return result\n","    return _store(quantized, data, tile_size, num_bits, output_dtype)\n"),(Q,"@quant_operator(\"fastforward::quantize_by_tile\")\n","def _store(quantized, data, tile_size, num_bits, output_dtype):\n    result = tiled_tensor.rows_to_tiles(quantized, data.shape, tile_size)\n    storage = output_dtype if output_dtype is not None else result.dtype\n    if can_support_bitwidth(storage, num_bits):\n        return result.to(storage)\n    raise RuntimeError(f\"Provided dtype ({storage}) is not enough to store {num_bits} bits quantized values.\")\n\n\n@quant_operator(\"fastforward::quantize_by_tile\")\n")]),
("benign table",0,[(Q,"""        match torch.finfo(dtype).dtype:
            case "bfloat16":
                available_precision_bits = 7
            case "float16":
                available_precision_bits = 10
            case "float32":
                available_precision_bits = 23
            case "float64":
                available_precision_bits = 52
            case "float8_e4m3fn" | "float8_e4m3fnuz":
                available_precision_bits = 3
            case "float8_e5m2" | "float8_e5m2fnuz":
                available_precision_bits = 2
            case _:
                available_precision_bits = num_bits
                logging""","""        table = {"bfloat16": 7, "float16": 10, "float32": 23, "float64": 52, "float8_e4m3fn": 3, "float8_e4m3fnuz": 3, "float8_e5m2": 2, "float8_e5m2fnuz": 2}
        name = torch.finfo(dtype).dtype
        if name in table:
                available_precision_bits = table[name]
        else:
                available_precision_bits = num_bits
                logging""")]),
]
