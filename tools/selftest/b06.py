C="nn/conv.py"; M="nn/quantized_module.py"; L="nn/linear.py"; N="nn/normalization.py"; A="nn/activations.py"; E="nn/embedding.py"
CASES=[
("conv dilation swapped",1,[(C,"            self.dilation,\n            self.groups,","            self.groups,\n            self.dilation,")]),
("conv1d groups lost",1,[(C,"            bias,\n            self.stride,\n            padding,\n            self.dilation,\n            self.groups,","            bias,\n            self.stride,\n            padding,\n            self.dilation,")]),
("conv padding mode",1,[(C,'        if self.padding_mode != "zeros":','        if self.padding_mode == "circular" and False:')]),
("linear bias raw",1,[(L,"bias = self.bias_quantizer(self.bias)","bias = self.bias")]),
("linear weight through input quantizer",1,[(L,"self.weight_quantizer(self.weight)","self.input_quantizer(self.weight)")]),
("linear no output quantizer",1,[(L,"linear(input, weight, bias, output_quantizer=self.output_quantizer)","linear(input, weight, bias)")]),
("layernorm eps",1,[(N,"            eps=self.eps,\n","")]),
("layernorm weight raw",1,[(N,"            weight=weight,","            weight=self.weight,")]),
("silu uses relu",1,[(A,"functional.silu(input","functional.relu(input")]),
("embedding padding idx",1,[(E,"            self.padding_idx,\n            self.max_norm,","            self.max_norm,\n            self.padding_idx,")]),
("stub tag",1,[(L,"self.weight_quantizer = QuantizerStub(weight_quantizer=True","self.weight_quantizer = QuantizerStub(bias_quantizer=True")]),
("stub shape",1,[(C,"QuantizerStub(bias_quantizer=True, shape=self.bias.shape)","QuantizerStub(bias_quantizer=True, shape=self.weight.shape)")]),
("super init late",1,[(E,"        super().__init_quantization__()\n        self.weight_quantizer = QuantizerStub(weight_quantizer=True)","        self.weight_quantizer = QuantizerStub(weight_quantizer=True)\n        super().__init_quantization__()")]),
("convert before check",1,[(M,"    _check_quantizable(model, module_map, skip_quantized_modules=skip_quantized_modules)\n","")]),
("extra loses",1,[(M,"        module_map = {**quantized_module_map(), **module_map}\n    _check","        module_map = {**module_map, **quantized_module_map()}\n    _check")]),
("ignore flag inverted in children",1,[(M,"                    ignore_global_module_map=ignore_global_module_map,\n                )\n\n    def register","                )\n\n    def register")]),
("skip not passed",1,[(M,"            skip_quantized_modules=skip_quantized_modules,\n            ignore_global_module_map=ignore_global_module_map,\n        )\n\n    return model","            ignore_global_module_map=ignore_global_module_map,\n        )\n\n    return model")]),
("skip ignored",1,[(M,"    if skip_quantized_modules and isinstance(model, QuantizedModule):\n        logger","    if skip_quantized_modules and isinstance(model, Quantizer):\n        logger")]),
("quantizers converted",1,[(M,"            if not isinstance(child, Quantizer):\n                quantize_model","            if True:\n                quantize_model")]),
("missing accepts subclasses",1,[(M,"            if module_type is torch.nn.Module:\n                continue","            if issubclass(module_type, torch.nn.Module):\n                continue")]),
("missing skip always",1,[(M,"            if skip_quantized_modules and issubclass(module_type, QuantizedModule):","            if issubclass(module_type, QuantizedModule):")]),
("no init on convert",1,[(M,"    module.__class__ = quantized_class\n    module = cast(QuantizedModule, module)\n    module.__init_quantization__()","    module.__class__ = quantized_class\n    module = cast(QuantizedModule, module)")]),
("map first",1,[(M,"mapping[module_type] = quantized_module_types[-1]","mapping[module_type] = quantized_module_types[0]")]),
("stubs always skipped",1,[(M,"            if skip_stubs and isinstance(module, QuantizerStub):","            if isinstance(module, QuantizerStub):")]),
("state dict shallow",1,[(M,"ff.nn.quantized_module.named_quantizers(module):\n        prefix","ff.nn.quantized_module.named_quantizers(module, recurse=False):\n        prefix")]),
("state dict no prefix",1,[(M,"quantizer.state_dict(destination=state_dict, prefix=prefix)","quantizer.state_dict(destination=state_dict)")]),
("skip marker converted",1,[(M,"            type(module).__name__,\n        )\n        return\n","            type(module).__name__,\n        )\n        quantized_class = QuantizedModule\n")]),
("benign bias helper",0,[(L,"        if self.bias is not None and self.bias_quantizer is not None:  # type: ignore[redundant-expr]\n            bias = self.bias_quantizer(self.bias)\n        else:\n            bias = self.bias\n        return linear(input, weight, bias, output_quantizer=self.output_quantizer)","        return linear(\n            input, weight, self._bias(), output_quantizer=self.output_quantizer\n        )\n\n    def _bias(self):\n        if self.bias is None or self.bias_quantizer is None:\n            return self.bias\n        return self.bias_quantizer(self.bias)")]),
("benign kwargs",0,[(C,"            self.stride,\n            padding,\n            self.dilation,\n            self.groups,\n            output_quantizer","            groups=self.groups,\n            dilation=self.dilation,\n            stride=self.stride,\n            padding=padding,\n            output_quantizer")]),
("benign map update",0,[(M,"        module_map = {**quantized_module_map(), **module_map}\n    _check","        module_map = quantized_module_map() | module_map\n    _check")]),
("benign missing comprehension",0,[(M,"""    missing_modules: list[type[torch.nn.Module]] = []
    for module_type in submodule_types:
        if module_type not in module_map:
            if module_type is torch.nn.Module:
                continue
            if issubclass(module_type, Quantizer):
                continue
            if skip_quantized_modules and issubclass(module_type, QuantizedModule):
                continue
            missing_modules.append(module_type)
    return missing_modules""","""    missing_modules: list[type[torch.nn.Module]] = []
    for module_type in submodule_types:
        exempt = (
            module_type in module_map
            or module_type is torch.nn.Module
            or issubclass(module_type, Quantizer)
            or (skip_quantized_modules and issubclass(module_type, QuantizedModule))
        )
        if not exempt:
            missing_modules.append(module_type)
    return missing_modules""")]),
("benign quantize get",0,[(M,"""    try:
        quantized_class = module_map[type(module)]
    except KeyError as e:
        msg = (
            f"Quantization is not supported for '{type(module)}'. \\n"
            f"Supported types can be found in `fastforward.nn.quantized_module.quantized_module_map`"
        )
        raise QuantizationError(msg) from e
""","""    quantized_class = module_map.get(type(module))
    if quantized_class is None:
        msg = (
            f"Quantization is not supported for '{type(module)}'. \\n"
            f"Supported types can be found in `fastforward.nn.quantized_module.quantized_module_map`"
        )
        raise QuantizationError(msg)
""")]),
("benign named",0,[(M,"""        if isinstance(module, Quantizer):
            if skip_stubs and isinstance(module, QuantizerStub):
                continue
            prefixed_name = prefix + ("." if prefix else "") + name
            yield prefixed_name, module""","""        if not isinstance(module, Quantizer):
            continue
        if isinstance(module, QuantizerStub) and skip_stubs:
            continue
        yield (f"{prefix}.{name}" if prefix else name), module""")]),
]
