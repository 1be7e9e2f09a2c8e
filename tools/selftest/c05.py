A="quantization/affine/_autograd.py"; F="quantization/affine/function.py"; T="quantization/ste.py"; O="quantization/_linear_quantized_ops.py"; Q="quantized_tensor.py"; L="nn/linear_quantizer.py"; C="common.py"
CASES=[
("saved order",1,[(A,"ctx.save_for_backward(data, scale, offset)","ctx.save_for_backward(scale, data, offset)")]),
("grad order",1,[(A,"return (data_grad, scale_grad, offset_grad, None, None, None)","return (data_grad, offset_grad, scale_grad, None, None, None)")]),
("unpack order",1,[(A,"data_grad, scale_grad, offset_grad_ = grads","data_grad, offset_grad_, scale_grad = grads")]),
("offset grad when none",1,[(A,"offset_grad = offset_grad_ if offset is not None else None","offset_grad = offset_grad_")]),
("offset grad never",1,[(A,"offset_grad = offset_grad_ if offset is not None else None","offset_grad = offset_grad_ if scale is None else None")]),
("backward no offset",1,[(A,"            data, output_grad, scale, tile_size, num_bits, offset\n        )","            data, output_grad, scale, tile_size, num_bits, None\n        )")]),
("backward shape",1,[(A,"        ctx.tile_size = tile_size\n","        ctx.tile_size = data.shape\n")]),
("arity",1,[(A,"return (grad, None, None, None, None, None)","return (grad, None, None, None, None)")]),
("dequant scaled",1,[(A,"return (output_grad, None, None, None, None)","return (output_grad * 2, None, None, None, None)")]),
("skip autograd dequant",1,[(A,"return DequantizeAffine.apply(data, scale, offset, tile_size, dtype)","return torch.ops.fastforward.dequantize_by_tile(data, scale, tile_size, offset, dtype)")]),
("no grad dynamic",1,[(A,"    return QuantizeDynamicAffine.apply(  # type: ignore[no-any-return]\n        data, tile_size, num_bits, symmetric, allow_one_sided, quantized_dtype\n    )","    with torch.no_grad():\n        return QuantizeDynamicAffine.apply(\n            data, tile_size, num_bits, symmetric, allow_one_sided, quantized_dtype\n        )")]),
("decorated",1,[(F,"    @classmethod\n    def _static_quantize(","    @classmethod\n    @torch.no_grad()\n    def _static_quantize(")]),
("detached scale",1,[(A,"return QuantizeStaticAffine.apply(data, scale, offset,","return QuantizeStaticAffine.apply(data, scale.detach(), offset,")]),
("ste zero grad",1,[(T,"return output_grad, None","return torch.zeros_like(output_grad), None")]),
("ste swap",1,[(T,"return output_grad, None","return None, output_grad")]),
("ste drops kwargs",1,[(T,"output = func(__input, *args, **kwargs)","output = func(__input, *args)")]),
("ste numel",1,[(T,"if __input.shape != output.shape:","if __input.numel() != output.numel():")]),
("ste no check",1,[(T,"        if __input.shape != output.shape:\n            raise RuntimeError(\"The input and output shape of an STE function must match.\")\n","")]),
("scalar div",1,[(O,"return grad * ctx.scalar, None","return grad / ctx.scalar, None")]),
("scalar no grad",1,[(O,"return grad * ctx.scalar, None","return grad, None")]),
("raw detach",1,[(Q,"        return self.as_subclass(torch.Tensor)","        return self.detach().as_subclass(torch.Tensor)")]),
("offset trainable",1,[(L,"        else:\n            self.offset = torch.nn.UninitializedParameter(device=device, dtype=param_dtype)","        else:\n            self.offset = torch.nn.UninitializedBuffer(device=device, dtype=param_dtype)")]),
("benign needs",0,[(A,"        return (data_grad, scale_grad, offset_grad, None, None, None)","        if not ctx.needs_input_grad[1]:\n            scale_grad = None\n        return data_grad, scale_grad, offset_grad, None, None, None")]),
("benign setup",0,[(A,"""    def forward(
        ctx: Any,
        data: torch.Tensor,
        scale: torch.Tensor,
        offset: torch.Tensor | None,
        tile_size: torch.Size | Literal["data_shape"],
        dtype: torch.dtype | None,
    ) -> torch.Tensor:
""","""    def setup_context(ctx, inputs, output):
        pass

    @staticmethod
    def forward(
        data: torch.Tensor,
        scale: torch.Tensor,
        offset: torch.Tensor | None,
        tile_size: torch.Size | Literal["data_shape"],
        dtype: torch.dtype | None,
    ) -> torch.Tensor:
""")]),
("benign attrs",0,[(A,"        data, scale, offset = ctx.saved_tensors\n        tile_size = ctx.tile_size\n        num_bits = ctx.num_bits\n        grads = torch.ops.fastforward.quantize_by_tile_backward(\n            data, output_grad, scale, tile_size, num_bits, offset\n        )\n        data_grad, scale_grad, offset_grad_ = grads\n        offset_grad = offset_grad_ if offset is not None else None\n        return (data_grad, scale_grad, offset_grad, None, None, None)","        x, scale, offset = ctx.saved_tensors\n        grads = torch.ops.fastforward.quantize_by_tile_backward(\n            x, output_grad, scale, ctx.tile_size, ctx.num_bits, offset\n        )\n        if offset is None:\n            return grads[0], grads[1], None, None, None, None\n        return (*grads, None, None, None)")]),
("benign ste",0,[(T,"        if __input.shape != output.shape:\n            raise","        same = output.shape == __input.shape\n        if not same:\n            raise")]),
]
