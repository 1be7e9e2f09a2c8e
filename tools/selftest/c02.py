R="quantization/affine/range.py"; L="nn/linear_quantizer.py"
CASES=[
("int max",1,[(R,"return -integer_minimum(num_bits) - 1","return -integer_minimum(num_bits)")]),
("range off twice",1,[(R,"range_max = (integer_maximum(num_bits) + offset) * scale","range_max = integer_maximum(num_bits) * scale + offset")]),
("range min offset sign",1,[(R,"range_min = (integer_minimum(num_bits) + offset) * scale","range_min = (integer_minimum(num_bits) - offset) * scale")]),
("steps",1,[(R,"num_steps = 2**num_bits - 1","num_steps = 2**num_bits")]),
("offset sign",1,[(R,"offset = min_range / scale - int_min","offset = min_range / scale + int_min")]),
("offset before clamp",1,[(R,"        scale = scale.clamp(torch.finfo(scale.dtype).eps)\n        offset = min_range / scale - int_min\n        return scale, offset","        offset = min_range / scale - int_min\n        return scale.clamp(torch.finfo(scale.dtype).eps), offset")]),
("no clamp",1,[(R,"return scale.clamp(torch.finfo(scale.dtype).eps), None","return scale, None")]),
("min instead of max",1,[(R,"scale = torch.max(neg_scale, pos_scale)","scale = torch.min(neg_scale, pos_scale)")]),
("neg over max",1,[(R,"neg_scale = torch.abs(min_range) / abs(int_min)","neg_scale = torch.abs(min_range) / abs(integer_maximum(num_bits))")]),
("neg no abs",1,[(R,"neg_scale = torch.abs(min_range)","neg_scale = min_range")]),
("one sided any",1,[(R,"one_sided = min_range.min() >= 0 and allow_one_sided","one_sided = min_range.max() >= 0 and allow_one_sided")]),
("one sided strict",1,[(R,"one_sided = min_range.min() >= 0 and allow_one_sided","one_sided = min_range.min() > 0 and allow_one_sided")]),
("one sided ignores flag",1,[(R,"one_sided = min_range.min() >= 0 and allow_one_sided","one_sided = min_range.min() >= 0")]),
("one sided zeros for asymmetric",1,[(R,"if symmetric and one_sided:","if one_sided:")]),
("one sided keeps min",1,[(R,"        min_range = torch.zeros_like(min_range)","        max_range = max_range + torch.zeros_like(min_range)")]),
("setter swap",1,[(L,"scale, offset = self._parameters_for_range(min, max)","scale, offset = self._parameters_for_range(max, min)")]),
("setter no reset",1,[(L,"                else:\n                    _ = self.offset.fill_(0.0)\n","")]),
("setter offset lost",1,[(L,"_ = self.offset.copy_(offset)","_ = self.offset.copy_(scale)")]),
("setter only uninit",1,[(L,"            _ = self.scale.copy_(scale)\n            if self.offset","            if min.numel() > 1:\n                _ = self.scale.copy_(scale)\n            if self.offset")]),
("setter bits",1,[(L,"            num_bits=self.num_bits,\n            symmetric=self.symmetric,","            num_bits=8,\n            symmetric=self.symmetric,")]),
("getter bits swap",1,[(L,"affine_quant.quantization_range(self.scale, self.offset, self.num_bits)","affine_quant.quantization_range(self.scale, None, self.num_bits)")]),
("symmetric by none only",1,[(L,'return "offset" in self._buffers or self.offset is None','return self.offset is None')]),
("offset buffer swap",1,[(L,"        elif symmetric and allow_one_sided:","        elif allow_one_sided:")]),
("operator granularity",1,[(L,"            granularity=self.granularity,\n            output_dtype=self.quantized_dtype,\n        )\n\n        def","            output_dtype=self.quantized_dtype,\n        )\n\n        def")]),
("operator bits",1,[(L,"            num_bits=self.num_bits,\n            granularity=self.granularity,\n            output_dtype","            granularity=self.granularity,\n            output_dtype")]),
("operator offset",1,[(L,"            offset=offset,\n            num_bits=self.num_bits,\n            granularity=self.granularity,\n            output_dtype","            offset=None,\n            num_bits=self.num_bits,\n            granularity=self.granularity,\n            output_dtype")]),
("benign eps const",0,[(R,"return scale.clamp(torch.finfo(scale.dtype).eps), None","eps = torch.finfo(torch.float32).eps\n        return torch.clamp(scale, min=eps), None")]),
("benign rewrite",0,[(R,"        interval_length = max_range - min_range\n        scale = interval_length / num_steps\n","        scale = (max_range - min_range).div(num_steps)\n"),(R,"one_sided = min_range.min() >= 0 and allow_one_sided","one_sided = allow_one_sided and bool((min_range >= 0).all())")]),
("benign early returns",0,[(R,"    if symmetric and one_sided:\n        min_range = torch.zeros_like(min_range)\n\n    if symmetric and not one_sided:","    if symmetric:\n        if one_sided:\n            min_range = torch.zeros_like(min_range)\n        else:\n            neg = min_range.abs() / -int_min\n            pos = max_range.abs() / integer_maximum(num_bits)\n            scale = torch.maximum(pos, neg)\n            return scale.clamp_min(torch.finfo(scale.dtype).eps), None\n    if False:")]),
("benign setter",0,[(L,"            min, max = (ensure_tensor(t, device=self.scale.device) for t in quant_range)","            min, max = quant_range\n            min = ensure_tensor(min, device=self.scale.device)\n            max = ensure_tensor(max, device=self.scale.device)")]),
("benign setter offset",0,[(L,"                if offset is not None:\n                    _ = self.offset.copy_(offset)\n                else:\n                    _ = self.offset.fill_(0.0)\n","                if offset is None:\n                    self.offset.zero_()\n                    return\n                self.offset.copy_(offset)\n")]),
("benign symmetric",0,[(L,'return "offset" in self._buffers or self.offset is None','if self.offset is None:\n            return True\n        return not isinstance(self.offset, torch.nn.Parameter)')]),
]
