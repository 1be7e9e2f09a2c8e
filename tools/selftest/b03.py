F, O = "_gen/fallback.py", "_gen/operators.py"
Y = "_quantops/quantized_operators.yaml"
def cond(n): return f'    if strict_quantization and not isinstance({n}, QuantizedTensor):\n        raise QuantizationError(\n            "Expected \'{n}\' to be an instance of \'QuantizedTensor\' because strict_quantization=True."\n        )\n'
CASES = [
 ("matmul other unchecked", 1, [(F, cond("other") + "\n    if isinstance(other, QuantizedTensor):\n        other = other.dequantize()\n\n    output = torch.matmul", "    if isinstance(other, QuantizedTensor):\n        other = other.dequantize()\n\n    output = torch.matmul")]),
 ("mm not dequantized", 1, [(F, "    if isinstance(mat2, QuantizedTensor):\n        mat2 = mat2.dequantize()\n\n    output = torch.mm(", "    output = torch.mm(")]),
 ("conv1d swaps", 1, [(F, "torch.nn.functional.conv1d(\n        input=input,\n        weight=weight,\n        bias=bias,\n        stride=stride,\n        padding=padding,\n        dilation=dilation,", "torch.nn.functional.conv1d(\n        input=input,\n        weight=weight,\n        bias=bias,\n        stride=stride,\n        padding=padding,\n        dilation=stride,")]),
 ("conv2d drops groups", 1, [(F, "torch.nn.functional.conv2d(\n        input=input,\n        weight=weight,\n        bias=bias,\n        stride=stride,\n        padding=padding,\n        dilation=dilation,\n        groups=groups,\n", "torch.nn.functional.conv2d(\n        input=input,\n        weight=weight,\n        bias=bias,\n        stride=stride,\n        padding=padding,\n        dilation=dilation,\n")]),
 ("quantizer if strict", 1, [(F, "    output = torch.mm(input=input, mat2=mat2)\n    if output_quantizer is not None:", "    output = torch.mm(input=input, mat2=mat2)\n    if output_quantizer is not None and strict_quantization:")]),
 ("sub dispatches add", 1, [(O, '        "sub",\n        input=input', '        "add",\n        input=input')]),
 ("relu falls to silu", 1, [(O, "fallback.relu", "fallback.silu")]),
 ("strict resolved after", 1, [(O, "    selected_op = dispatch_op or fallback.silu\n    return selected_op(\n        input=input, output_quantizer=output_quantizer, strict_quantization=strict_quantization", "    selected_op = dispatch_op or fallback.silu\n    return selected_op(\n        input=input,\n        output_quantizer=output_quantizer, strict_quantization=False")]),
 ("default changed", 1, [(F, "eps: float = 1e-5,", "eps: float = 1e-6,")]),
 ("default changed all", 1, [(F, "p: float = 0.5", "p: float = 0.1"), (O, "p: float = 0.5", "p: float = 0.1"), (Y, "p: float = 0.5", "p: float = 0.1")]),
 ("cat first only", 1, [(F, "    for elem__ in tensors:\n        if strict_quantization and not isinstance(elem__, QuantizedTensor):\n            raise", "    for elem__ in tensors:\n        if strict_quantization and not isinstance(elem__, torch.Tensor):\n            raise")]),
 ("r: helper", 0, [(F, "    if isinstance(mat2, QuantizedTensor):\n        mat2 = mat2.dequantize()\n\n    output = torch.mm(", "    mat2 = _deq(mat2)\n\n    output = torch.mm("), (F, "# Automatically generated based on src/fastforward/_quantops/quantized_operators.yaml:1\n", "def _deq(x):\n    return x.dequantize() if isinstance(x, QuantizedTensor) else x\n\n\n")]),
 ("r: require helper", 0, [(F, cond("other") + "\n    if isinstance(other, QuantizedTensor):\n        other = other.dequantize()\n\n    output = torch.matmul", "    _require(strict_quantization, 'other', other)\n    if isinstance(other, QuantizedTensor):\n        other = other.dequantize()\n\n    output = torch.matmul"), (F, "# Automatically generated based on src/fastforward/_quantops/quantized_operators.yaml:1\n", "def _require(strict, nm, x):\n    if not strict:\n        return\n    if not isinstance(x, QuantizedTensor):\n        raise QuantizationError(nm)\n\n\n")]),
 ("r: early return", 0, [(F, "    output = torch.mm(input=input, mat2=mat2)\n    if output_quantizer is not None:\n        output = output_quantizer(output)\n    return output", "    result = torch.mm(mat2=mat2, input=input)\n    if output_quantizer is None:\n        return result\n    return output_quantizer(result)")]),
 ("r: kwargs dict", 0, [(O, '    dispatch_op = dispatch(\n        "relu",\n        input=input,\n        output_quantizer=output_quantizer,\n        strict_quantization=strict_quantization,\n    )\n    selected_op = dispatch_op or fallback.relu\n    return selected_op(\n        input=input, output_quantizer=output_quantizer, strict_quantization=strict_quantization\n    )', '    kw = dict(input=input, output_quantizer=output_quantizer, strict_quantization=strict_quantization)\n    impl = dispatch("relu", **kw)\n    if impl is None:\n        impl = fallback.relu\n    return impl(**kw)')]),
 ("r: cat comp", 0, [(F, "    elems__: list[torch.Tensor] = []\n    for elem__ in tensors:\n        if strict_quantization and not isinstance(elem__, QuantizedTensor):\n            raise QuantizationError(\n                \"Expected 'elem__' to be an instance of 'QuantizedTensor' because strict_quantization=True.\"\n            )\n\n        if isinstance(elem__, QuantizedTensor):\n            elem__ = elem__.dequantize()\n        elems__.append(elem__)\n    tensors = elems__\n", "    if strict_quantization and not all(isinstance(t, QuantizedTensor) for t in tensors):\n        raise QuantizationError('x')\n    tensors = [t.dequantize() if isinstance(t, QuantizedTensor) else t for t in tensors]\n")]),
]
