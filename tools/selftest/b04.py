Q="quantized_tensor.py"; F="quantization/function.py"
CASES=[
("clone ctx dropped",1,[(Q,"quant_ctx = self._quantization_context.clone_parameters()","quant_ctx = self._quantization_context")]),
("detach ctx",1,[(Q,"quant_func = self._quantization_context.detach_parameters()","quant_func = self._quantization_context")]),
("detach via clone params",1,[(F,"fn = functools.partial(maybe_tensor_apply, fn=torch.detach)","fn = functools.partial(maybe_tensor_apply, fn=torch.clone)")]),
("to keeps ctx device",1,[(Q,"quantization_context=self._quantization_context.to(device))","quantization_context=self._quantization_context)")]),
("deepcopy memo",1,[(Q,"quantization_context = copy.deepcopy(self._quantization_context, memo)","quantization_context = copy.deepcopy(self._quantization_context)")]),
("deepcopy shares ctx",1,[(Q,"quantization_context = copy.deepcopy(self._quantization_context, memo)","quantization_context = self._quantization_context")]),
("reduce order",1,[(Q,"return _rebuild_quantized_tensor, (raw_data, self._quantization_context)","return _rebuild_quantized_tensor, (self._quantization_context, raw_data)")]),
("reduce dequantized",1,[(Q,"        raw_data = self.raw_data.detach()\n        return _reb","        raw_data = self.dequantize().detach()\n        return _reb")]),
("contiguous keeps ctx check flipped",1,[(Q,"if raw_data is self.raw_data and quantization_context is self._quantization_context:","if True:")]),
("apply drops non tensor",1,[(F,"new_values = {k: fn(v) for k, v in ff.dataclasses.nocopy_asdict(self).items()}","new_values = {k: fn(v) for k, v in ff.dataclasses.nocopy_asdict(self).items() if isinstance(v, torch.Tensor)}")]),
("attach other",1,[(F,"return QuantizedTensor(data, self)","return QuantizedTensor(data, QuantizationContext(self.quantization_fn, data))")]),
("with_changes ignores fn",1,[(F,"        if quantization_fn is not None:\n            context_changes","        if quantization_fn is None:\n            context_changes")]),
("params swapped",1,[(F,"return cls._dequantize_impl(data, **params.dequantize_params())","return cls._dequantize_impl(data, **params.quantize_params())")]),
("dequantize names",1,[(F,"return {name: getattr(self, name) for name in dequantize_params}","return {name: getattr(self, name) for name in quantize_params}")]),
("unfrozen",1,[(F,"@dataclasses.dataclass(frozen=True)\nclass QuantizationContext","@dataclasses.dataclass\nclass QuantizationContext")]),
("benign clone",0,[(Q,"        with DisableTorchFunctionSubclass():\n            cloned_tensor = super().clone()\n        return quant_ctx.attach(cloned_tensor)","        return quant_ctx.attach(torch.clone(self.raw_data))")]),
("benign apply loop",0,[(F,"        params = self.quantization_params._apply(fn)\n        return dataclasses.replace(self, quantization_params=params)","        return type(self)(self.quantization_fn, self.quantization_params._apply(fn))")]),
("benign apply fields",0,[(F,"new_values = {k: fn(v) for k, v in ff.dataclasses.nocopy_asdict(self).items()}\n        return type(self)(**new_values)","return type(self)(**{f.name: fn(getattr(self, f.name)) for f in dataclasses.fields(self)})")]),
("benign apply explicit loop",0,[(F,"new_values = {k: fn(v) for k, v in ff.dataclasses.nocopy_asdict(self).items()}\n","new_values = {}\n        for k, v in ff.dataclasses.nocopy_asdict(self).items():\n            new_values[k] = fn(v)\n")]),
("benign with_changes",0,[(F,"        context_changes: dict[str, Any] = {\"quantization_params\": params}\n        if quantization_fn is not None:\n            context_changes[\"quantization_fn\"] = quantization_fn\n        return dataclasses.replace(self, **context_changes)","        if quantization_fn is None:\n            return dataclasses.replace(self, quantization_params=params)\n        return dataclasses.replace(self, quantization_fn=quantization_fn, quantization_params=params)")]),
("benign deepcopy",0,[(Q,"        quantization_context = copy.deepcopy(self._quantization_context, memo)\n        return type(self)(copy.deepcopy(self.raw_data.detach(), memo), quantization_context)","        raw = copy.deepcopy(self.raw_data.detach(), memo)\n        return QuantizedTensor(raw, copy.deepcopy(self._quantization_context, memo))")]),
]
