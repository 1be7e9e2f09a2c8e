Z, U = "quantization/freeze.py", "quantization/fuse.py"
LOOP = '''    for module, weight_attr, quantizer in targets:
        _fuse_target(module, weight_attr, quantizer, stub_quantizer=stub_quantizers)'''
STUB = '''    for name, sibling in module.named_children():
        if sibling is quantizer:
            setattr(module, name, QuantizerStub(_metadata=quantizer.quant_metadata))
            break'''
CASES = [
("clean",0,[]),
("write raw",1,[(Z,"input_data.copy_(quantized)","input_data.copy_(input_data)")]),
("no write",1,[(Z,"        with torch.no_grad():\n            input_data.copy_(quantized)","        pass")]),
("grad write",1,[(Z,"        with torch.no_grad():\n            input_data.copy_(quantized)","        input_data.copy_(quantized)")]),
("activations frozen",1,[(Z,"if not isinstance(input_data, torch.nn.Parameter):","if not isinstance(input_data, torch.Tensor):")]),
("activations unquantized",1,[(Z,"            return cast(torch.Tensor, callback(*args, **kwargs))\n        quantized","            return input_data\n        quantized")]),
("noop removed",1,[(Z,"        if quantized is input_data:\n","        if False:\n")]),
("always removed",1,[(Z,"        if self._remove_quantizer:\n","        if True:\n")]),
("never removed",1,[(Z,"        if self._remove_quantizer:\n","        if not self._remove_quantizer:\n")]),
("any quantizer removed",1,[(Z,"if other_quantizer is quantizer:","if other_quantizer is not None:")]),
("metadata lost",1,[(Z,"ff.nn.QuantizerStub(_metadata=quantizer.quant_metadata)","ff.nn.QuantizerStub()")]),
("double quantized",1,[(Z,"quantized = callback(input_data).dequantize()","quantized = callback(callback(input_data)).dequantize()")]),
("top only",1,[(Z,"for submodule in module.modules():","for submodule in module.children():")]),
("top only2",1,[(Z,"for submodule in module.modules():","for submodule in [module]:")]),
("option inverted",1,[(Z,"remove_quantizer=remove_quantizers)","remove_quantizer=not remove_quantizers)")]),
("strict body",1,[(Z,"        with ff.strict_quantization(False):\n            yield","        yield")]),
("strict true",1,[(Z,"with ff.strict_quantization(False):","with ff.strict_quantization(True):")]),
("fuse raw",1,[(U,"qdq_weight = quantizer(weight).dequantize()\n\n    if","qdq_weight = quantizer(quantizer(weight)).dequantize()\n\n    if")]),
("fuse other attr",1,[(U,"    weight = getattr(module, weight_attr)\n    # Disable","    weight = getattr(module, \"weight\")\n    # Disable")]),
("fuse strict",1,[(U,"    with ff.strict_quantization(False):\n        qdq_weight = quantizer(weight).dequantize()\n\n    if","    qdq_weight = quantizer(weight).dequantize()\n\n    if")]),
("fuse noop stubbed",1,[(U,"        # The quantizer was a no-op (e.g. disabled); nothing to fuse or stub.\n        return","        # The quantizer was a no-op (e.g. disabled); nothing to fuse or stub.\n        pass")]),
("fuse grad",1,[(U,"    with torch.no_grad():\n        weight.copy_(qdq_weight)","    weight.copy_(qdq_weight)")]),
("fuse stub always",1,[(U,"    if stub_quantizer:\n        _stub_target(module, quantizer)","    _stub_target(module, quantizer)")]),
("fuse stub option",1,[(U,"stub_quantizer=stub_quantizers)","stub_quantizer=True)")]),
("stub first",1,[(U,"        if sibling is quantizer:\n","        if isinstance(sibling, Quantizer):\n")]),
("stub no meta",1,[(U,"QuantizerStub(_metadata=quantizer.quant_metadata)","QuantizerStub()")]),
("benign stub meta of sibling",0,[(U,"QuantizerStub(_metadata=quantizer.quant_metadata)","QuantizerStub(_metadata=sibling.quant_metadata)")]),
("stub missing",1,[(U,"            setattr(module, name, QuantizerStub(_metadata=quantizer.quant_metadata))\n","            pass\n")]),
("tied late",1,[(U,"    _check_tied_weight_targets(model, targets)\n    for module, weight_attr, quantizer in targets:\n        _fuse_target(module, weight_attr, quantizer, stub_quantizer=stub_quantizers)","    for module, weight_attr, quantizer in targets:\n        _fuse_target(module, weight_attr, quantizer, stub_quantizer=stub_quantizers)\n    _check_tied_weight_targets(model, targets)")]),
("tied dropped",1,[(U,"    _check_tied_weight_targets(model, targets)\n    for","    for")]),
("tied close",1,[(U,"torch.equal(reference, qdq_weight)","torch.allclose(reference, qdq_weight)")]),
("tied raw",1,[(U,"elif not torch.equal(reference, qdq_weight)","elif not torch.equal(weight, weight)")]),
("tied inverted",1,[(U,"elif not torch.equal(reference, qdq_weight)","elif torch.equal(reference, qdq_weight)")]),
("tied by shape",1,[(U,"by_storage[(weight.data_ptr(), weight.shape)]","by_storage[(0, weight.shape)]")]),
("stubs fused",1,[(U,"            if quantizer.is_stub():\n                continue\n","")]),
("non-parameters",1,[(U,"            if not isinstance(weight, torch.nn.Parameter):\n                continue\n","            if weight is None:\n                continue\n")]),
("stop at first stub",1,[(U,"            if quantizer.is_stub():\n                continue\n","            if quantizer.is_stub():\n                break\n")]),
("attr of option",1,[(U,'getattr(parent, self._weight_attr, None)','getattr(parent, "weight", None)')]),
("yield module",1,[(U,"yield parent, self._weight_attr, quantizer","yield parent, self._weight_attr, parent")]),
("tag ignored",1,[(U,'f"**/[quantizer:{self._tag}]"','"**/[quantizer:parameter]"')]),
("children only",1,[(U,'f"**/[quantizer:{self._tag}]"','f"*/[quantizer:{self._tag}]"')]),
("lazy",1,[(U,"for module, _, quantizer in list(discovery(model)):","for module, _, quantizer in discovery(model):")]),
("custom ignored",1,[(U,"    discovery = ConventionDiscovery() if discovery is None else discovery\n    targets","    discovery = ConventionDiscovery()\n    targets")]),
("early return",1,[(U,LOOP,LOOP+"\n        return")]),
("benign stub loop",0,[(U,STUB,'''    names = [name for name, child in module.named_children() if child is quantizer]
    for name in names[:1]:
        stub = QuantizerStub(_metadata=quantizer.quant_metadata)
        setattr(module, name, stub)''')]),
("benign stub inverted",0,[(U,STUB,'''    for name, sibling in module.named_children():
        if sibling is not quantizer:
            continue
        metadata = quantizer.quant_metadata
        setattr(module, name, QuantizerStub(_metadata=metadata))
        return''')]),
("benign children dict",0,[(U,STUB,'''    for name, sibling in module._modules.items():
        if sibling is quantizer:
            setattr(module, name, QuantizerStub(_metadata=quantizer.quant_metadata))
            break''')]),
("benign target",0,[(U,LOOP,'''    for target in targets:
        _fuse_target(*target, stub_quantizer=stub_quantizers)''')]),
("benign helper",0,[(U,'''    with ff.strict_quantization(False):
        qdq_weight = quantizer(weight).dequantize()

    if qdq_weight is weight:
        # The quantizer was a no-op (e.g. disabled); nothing to fuse or stub.
        return

    with torch.no_grad():
        weight.copy_(qdq_weight)

    if stub_quantizer:
        _stub_target(module, quantizer)
''','''    qdq_weight = _qdq(quantizer, weight)
    if qdq_weight is not weight:
        with torch.no_grad():
            weight.copy_(qdq_weight)
        if stub_quantizer:
            _stub_target(module, quantizer)


def _qdq(quantizer: Quantizer, weight: torch.Tensor) -> torch.Tensor:
    with ff.strict_quantization(False):
        return quantizer(weight).dequantize()
''')]),
("benign helper tied",0,[(U,'''            with ff.strict_quantization(False):
                qdq_weight = quantizer(weight).dequantize()
            if reference''','''            qdq_weight = _qdq(quantizer, weight)
            if reference'''),(U,"def _stub_target(",'''def _qdq(quantizer: Quantizer, weight: torch.Tensor) -> torch.Tensor:
    with ff.strict_quantization(False):
        return quantizer(weight).dequantize()


def _stub_target(''')]),
("benign inline stub",0,[(U,"        _stub_target(module, quantizer)\n\n\ndef _stub","        for name, sibling in module.named_children():\n            if sibling is quantizer:\n                setattr(module, name, QuantizerStub(_metadata=quantizer.quant_metadata))\n                break\n\n\ndef _stub")]),
("benign discovery",0,[(U,'''            if quantizer.is_stub():
                continue

            parent = result.parent
            weight = getattr(parent, self._weight_attr, None)
            if not isinstance(weight, torch.nn.Parameter):
                continue

            yield parent, self._weight_attr, quantizer''','''            parent = result.parent
            weight = getattr(parent, self._weight_attr, None)
            if not quantizer.is_stub() and isinstance(weight, torch.nn.Parameter):
                yield (parent, self._weight_attr, quantizer)''')]),
("benign query",0,[(U,'''        for result in ff.find_quantizers(model, f"**/[quantizer:{self._tag}]"):''','''        query = "**/[quantizer:" + self._tag + "]"
        for result in ff.find_quantizers(model, query):''')]),
("benign freeze data",0,[(Z,"        with torch.no_grad():\n            input_data.copy_(quantized)","        input_data.data.copy_(quantized)")]),
("benign freeze helper",0,[(Z,"        if self._remove_quantizer:\n            for module","        if self._remove_quantizer:\n            self._replace(quantizer, input_data)\n        return input_data\n\n    def _replace(self, quantizer: \"ff.nn.Quantizer\", input_data: torch.nn.Parameter) -> None:\n        if True:\n            for module"),(Z,"                        setattr(module, name, stub)\n                        break\n        return input_data","                        setattr(module, name, stub)\n                        break")]),
("benign freeze ctx",0,[(Z,'''    try:
        # Disable strict quantization because override returns 'normal' tensors.
        with ff.strict_quantization(False):
            yield
    finally:
        for hook in hooks:
            hook.remove()''','''    with contextlib.ExitStack() as stack:
        for hook in hooks:
            stack.callback(hook.remove)
        stack.enter_context(ff.strict_quantization(False))
        yield''')]),
]
