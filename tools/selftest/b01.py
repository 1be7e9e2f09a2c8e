Q="quantized_tensor.py"
CASES = [
 ("strict ignored for kwargs path", 1, [(Q, "    if fastforward.get_strict_quantization():\n        msg = (\n            f\"{func} was called", "    if fastforward.get_strict_quantization() and args:\n        msg = (\n            f\"{func} was called")]),
 ("kwargs not dequantized", 1, [(Q, "        kwargs = optree.tree_map(_dequantize_qtensor, kwargs or {})  # type: ignore[arg-type, assignment]\n", "")]),
 ("raise wrong error", 1, [(Q, "        raise QuantizationError(msg)", "        warnings.warn(msg)")]),
 ("excluded add", 1, [(Q, '_set_no_dispatch("dim")', '_set_no_dispatch("dim")\n_set_no_dispatch("abs")')]),
 ("isub missing", 1, [(Q, "    def __isub__(self, other: Any) -> torch.Tensor: return NotImplemented  # type: ignore[misc]\n", "")]),
 ("half is bfloat", 1, [(Q, "_to_dtype, torch.half", "_to_dtype, torch.bfloat16")]),
 ("cast w/o dequant", 1, [(Q, "    return qtensor.dequantize().to(dtype)", "    return qtensor.raw_data.to(dtype)")]),
 ("inplace prefix", 1, [(Q, '    if attr.endswith("_") and not attr.endswith("__"):', '    if attr.endswith("_") and not attr.endswith("__") and not attr.startswith("index"):')]),
 ("priority default", 1, [(Q, "    register(func_name, None, not_implemented_impl, DispatcherPriority.NOT_IMPLEMENTED_FALLBACK)", "    register(func_name, None, not_implemented_impl)")]),
 ("kernel skip kwargs", 1, [(Q, "                    return kernel(*args, **kwargs)", "                    return kernel(*args)")]),
 ("dispatch positional only", 1, [(Q, "                kernel = dispatch(op_name, *args, **kwargs)", "                kernel = dispatch(op_name, *args)")]),
 ("to keeps quant for dtype float", 1, [(Q, "        if dtype is not None:\n            dequantized", "        if dtype is not None and not dtype.is_floating_point:\n            dequantized")]),
 ("refactor torch function", 0, [(Q, """            op_name = _torch_function_to_op_name(func)

            if op_name:
                kernel = dispatch(op_name, *args, **kwargs)
                if kernel:
                    return kernel(*args, **kwargs)

            # If no kernel is found, use the dequantization fallback
            return _dequantization_fallback(func, *args, **kwargs)
""", """            op_name = _torch_function_to_op_name(func)
            kernel = dispatch(op_name, *args, **kwargs) if op_name else None
            if kernel is None:
                # If no kernel is found, use the dequantization fallback
                return _dequantization_fallback(func, *args, **kwargs)
            result = kernel(*args, **kwargs)
            return result
""")]),
 ("refactor fallback", 0, [(Q, """    if fastforward.get_strict_quantization():
        msg = (
            f"{func} was called""", """    strict = fastforward.get_strict_quantization()
    if strict:
        msg = (
            f"{func} was called"""), (Q, """    with DisableTorchFunctionSubclass():
        args = optree.tree_map(_dequantize_qtensor, args)  # type: ignore[arg-type, assignment]
        kwargs = optree.tree_map(_dequantize_qtensor, kwargs or {})  # type: ignore[arg-type, assignment]
    return func(*args, **kwargs)
""", """    with DisableTorchFunctionSubclass():
        kwargs_ = optree.tree_map(lambda x: _dequantize_qtensor(x), kwargs)
        args_ = optree.tree_map(lambda x: _dequantize_qtensor(x), args)
    return func(*args_, **kwargs_)
""")]),
 ("dequantize helper", 0, [(Q, """    if isinstance(_object, QuantizedTensor):
        return _object.dequantize()
    else:
        return _object
""", """    return _object.dequantize() if isinstance(_object, QuantizedTensor) else _object
""")]),
 ("cast loop", 0, [(Q, 'register("double", None, functools.partial(_to_dtype, torch.double))\nregister("float", None, functools.partial(_to_dtype, torch.float))', 'for _n, _d in (("double", torch.float64), ("float", torch.float32)):\n    register(_n, None, functools.partial(_to_dtype, _d))')]),
]
