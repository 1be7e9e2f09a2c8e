F="quantization/affine/function.py"; A="quantization/affine/_autograd.py"; S="quantization/affine/static.py"; D="quantization/affine/dynamic.py"; L="nn/linear_quantizer.py"; DL="nn/dynamic_linear_quantizer.py"; R="quantization/random.py"
CASES=[
("static swap",1,[(F,"""        quantized_data = quantize_affine(
            data,
            params.scale,
            params.offset,
            tile_size,
            params.num_bits,
            params.quantized_dtype or data.dtype,
        )

        params = ""","""        quantized_data = quantize_affine(
            data,
            params.scale,
            params.offset,
            tile_size,
            params.num_bits,
            data.dtype,
        )

        params = """)]),
("static not recorded",1,[(F,"params = params.with_changes(dequantize_dtype=params.dequantize_dtype or data.dtype)","params = params.with_changes(dequantize_dtype=data.dtype)")]),
("export dtype",1,[(F,"            params.dequantize_dtype or data.dtype,\n        )\n        return dequantized_data","            params.quantized_dtype or data.dtype,\n        )\n        return dequantized_data")]),
("export no offset",1,[(F,"            quantized_data,\n            params.scale,\n            params.offset,","            quantized_data,\n            params.scale,\n            None,")]),
("sfd granularity",1,[(F,"    # Overwrite other changes\n    args.update(**changes)","    args.update(**changes)\n    args['quantized_dtype'] = None\n    args['granularity'] = granularities.PerTensor()")]),
("sfd offset",1,[(F,"    args[\"offset\"] = offset","    args[\"offset\"] = None")]),
("dyn symmetric",1,[(F,"            params.symmetric,\n            params.allow_one_sided,","            params.allow_one_sided,\n            params.symmetric,")]),
("dyn whole",1,[(F,'tile_size = data.shape if tile_size == "data_shape" else tile_size\n        output_dtype','tile_size = data.shape if tile_size != "data_shape" else tile_size\n        output_dtype')]),
("dyn autograd whole",1,[(A,'        tile_size = data.shape if tile_size == "data_shape" else tile_size\n        ctx.tile_size = tile_size\n        ctx.num_bits = num_bits\n\n        return torch.ops.fastforward.quantize_by_tile(','        tile_size = data.shape\n        ctx.tile_size = tile_size\n        ctx.num_bits = num_bits\n\n        return torch.ops.fastforward.quantize_by_tile(')]),
("dequant dtype",1,[(F,"            data, params.scale, params.offset, tile_size, params.dequantize_dtype\n","            data, params.scale, params.offset, tile_size, None\n")]),
("dequant dynamic",1,[(F,'            raise TypeError("Cannot dequantize a QuantizedTensor with dynamic parameters.")','            return data')]),
("entry axis",1,[(S,"PerChannel(axis)","PerChannel()")]),
("entry block",1,[(S,"    input_shape[channel_axis] = 1\n    input_shape[block_axis] = block_size","    input_shape[block_axis] = 1\n    input_shape[channel_axis] = block_size")]),
("dyn entry sym",1,[(D,"        symmetric=symmetric,\n        allow_one_sided=allow_one_sided,\n        quantized_dtype=quantized_dtype,\n        dequantize_dtype=dequantize_dtype,\n    )\n    return QuantizationContext","        symmetric=symmetric,\n        quantized_dtype=quantized_dtype,\n        dequantize_dtype=dequantize_dtype,\n    )\n    return QuantizationContext")]),
("ctor granularity",1,[(L,"granularity or granularities.PerTensor()","granularities.PerTensor()")]),
("ctor dtype",1,[(L,"num_bits=num_bits, granularity=granularity, quantized_dtype=quantized_dtype\n","num_bits=num_bits, granularity=granularity\n")]),
("autograd bits",1,[(A,"data, scale, tile_size, num_bits, quant_dtype, offset\n        )\n","data, scale, tile_size, num_bits, data.dtype, offset\n        )\n")]),
("benign helper",0,[(F,"""        tile_size = params.granularity.tile_size(data.shape)
        quantized_data = quantize_affine(
            data,
            params.scale,
            params.offset,
            tile_size,
            params.num_bits,
            params.quantized_dtype or data.dtype,
        )

        params = params.with_changes(dequantize_dtype=params.dequantize_dtype or data.dtype)
        context = QuantizationContext(cls, params)""","""        quantized_data = _run(data, params)
        dd = params.dequantize_dtype
        if dd is None:
            dd = data.dtype
        context = QuantizationContext(cls, dataclasses.replace(params, dequantize_dtype=dd))"""),(F,"def _static_from_dynamic(","""def _run(data, params):
    out = params.quantized_dtype if params.quantized_dtype is not None else data.dtype
    return quantize_affine(data=data, scale=params.scale, offset=params.offset,
        tile_size=params.granularity.tile_size(data.shape), num_bits=params.num_bits, quantized_dtype=out)


def _static_from_dynamic("""),(F,"import torch\n","import torch\nimport dataclasses\n")]),
("benign sfd",0,[(F,"""    for key in list(args.keys()):
        if key not in static_fields:
            del args[key]

    # Set static only fields
    args["scale"] = scale
    args["offset"] = offset

    # Overwrite other changes
    args.update(**changes)

    return StaticAffineQuantParams(**args)""","""    kept = {key: value for key, value in args.items() if key in static_fields}
    return StaticAffineQuantParams(**{**kept, "scale": scale, "offset": offset, **changes})""")]),
("benign match",0,[(F,"""        match params:
            case StaticAffineQuantParams():
                return cls._static_quantize(data, params)
            case DynamicAffineQuantParams():
                return cls._dynamic_quantize(data, params)
""","""        if isinstance(params, DynamicAffineQuantParams):
            return cls._dynamic_quantize(data, params)
        if isinstance(params, StaticAffineQuantParams):
            return cls._static_quantize(data, params)
""")]),
]
