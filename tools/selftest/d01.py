C="range_setting/common.py"; M="range_setting/minmax.py"; E="range_setting/min_error.py"
R="            self.min = torch.min(self.min, data_min)\n            self.max = torch.max(self.max, data_max)"
CASES=[
("grid count",1,[(E,"for i in range(self.min_threshold.shape[0]):","for i in range(self.num_candidates):")]),
("grid last",1,[(E,"for i in range(self.min_threshold.shape[0]):","for i in range(self.min_threshold.shape[0] - 1):")]),
("running overwritten",1,[(M,R,"            self.min = data_min\n            self.max = torch.max(self.max, data_max)")]),
("running swapped op",1,[(M,R,"            self.min = torch.max(self.min, data_min)\n            self.max = torch.max(self.max, data_max)")]),
("running not set",1,[(M,R+"\n\n        quantizer.quantization_range = (self.min, self.max)",R+"\n\n        if self._disable_quantization:\n            quantizer.quantization_range = (self.min, self.max)")]),
("running batch only set",1,[(M,R+"\n\n        quantizer.quantization_range = (self.min, self.max)",R+"\n\n        quantizer.quantization_range = (data_min, data_max)")]),
("running init inf",1,[(M,'class RunningMinMaxEstimator(','class RunningMinMaxEstimator('),(M,'        min, max = quantizer.quantization_range\n        self.register_buffer("min", min)\n        self.register_buffer("max", max)\n\n    def initialize_parameters(self, quantizer: RangeSettable, data: torch.Tensor) -> None:\n        """Initialize the min and max parameters.\n\n        Args:\n            quantizer: The quantizer to estimate ranges for.\n            data: The input data tensor.\n        """\n        shape = (quantizer.granularity.parameter_dimensionality(data.shape),)\n        if self.min is None:\n            self.min = data.new_full(shape, float("inf"))','        min, max = quantizer.quantization_range\n        self.register_buffer("min", min)\n        self.register_buffer("max", max)\n\n    def initialize_parameters(self, quantizer: RangeSettable, data: torch.Tensor) -> None:\n        """Initialize the min and max parameters.\n\n        Args:\n            quantizer: The quantizer to estimate ranges for.\n            data: The input data tensor.\n        """\n        shape = (quantizer.granularity.parameter_dimensionality(data.shape),)\n        if self.min is None:\n            self.min = data.new_full(shape, 0.0)')]),
("smoothed complement",1,[(M,"self.max = self.gamma * data_max + (1 - self.gamma) * self.max","self.max = (1 - self.gamma) * data_max + self.gamma * self.max")]),
("smoothed reset one",1,[(M,"                self.min = data_min\n                self.max = data_max\n            else","                self.min = data_min\n            else")]),
("smoothed gamma dropped",1,[(M,"module, gamma=self.gamma, disable_quantization=self.disable_quantization","module, disable_quantization=self.disable_quantization")]),
("disable dropped",1,[(M,"RunningMinMaxEstimator(module, disable_quantization=self.disable_quantization)","RunningMinMaxEstimator(module)")]),
("wrong dim",1,[(M,"            data_min = torch.min(reshaped_data, -1).values\n            data_max = torch.max(reshaped_data, -1).values\n\n            # If min","            data_min = torch.min(reshaped_data, 0).values\n            data_max = torch.max(reshaped_data, 0).values\n\n            # If min")]),
("estimate after",1,[(C,"        self.estimate_step(quantizer, data)\n\n        if self._disable_quantization:\n            return data\n        return callback(data)","        if self._disable_quantization:\n            self.estimate_step(quantizer, data)\n            return data\n        out = callback(data)\n        self.estimate_step(quantizer, data)\n        return out")]),
("estimate once",1,[(C,"            self._initialized = True\n\n        self.estimate_step(quantizer, data)","            self._initialized = True\n\n            self.estimate_step(quantizer, data)")]),
("setup each",1,[(C,"            self._initialized = True\n","            self._initialized = False\n")]),
("disable inverted",1,[(C,"        if self._disable_quantization:\n            return data","        if not self._disable_quantization:\n            return data")]),
("grid error swap rows",1,[(E,"err = self.error_fn(tiled_quant_data, tiled_data)","err = self.error_fn(tiled_quant_data, tiled_quant_data)")]),
("grid overwrite",1,[(E,"self.cumulative_error[i] += err","self.cumulative_error[i] = err")]),
("grid best max",1,[(E,"self.cumulative_error.min(dim=0).indices","self.cumulative_error.max(dim=0).indices")]),
("grid min max mixed",1,[(E,"max_threshold = self.max_threshold[best_grid, quant_idx]","max_threshold = self.max_threshold[self.max_threshold.min(dim=0).indices, quant_idx]")]),
("grid swapped thresholds",1,[(E,"quantizer.quantization_range = (min_threshold, max_threshold)","quantizer.quantization_range = (max_threshold, min_threshold)")]),
("grid policy inverted",1,[(E,"if not self.update_range_policy or self.update_range_policy(self","if not self.update_range_policy or not self.update_range_policy(self")]),
("grid policy dropped",1,[(E,"                update_range_policy=self._update_range_policy,\n            )\n        )","            )\n        )")]),
("grid err fn dropped",1,[(E,"                error_fn=self._error_fn,\n                num_candidates=self._num_candidates","                num_candidates=self._num_candidates")]),
("grid product",1,[(E,"max_threshold = max_threshold.repeat_interleave(num_candidates_min_threshold, dim=0)","max_threshold = max_threshold.repeat(num_candidates_min_threshold, 1)")]),
("grid symmetric",1,[(E,"            min_threshold = -max_threshold","            min_threshold = -max_threshold / 2")]),
("split misses",1,[(M,"            if isinstance(quantizer, RangeSettable) or not self.skip_unsupported_quantizers:\n                yield quantizer\n            else:\n                logger.warning(\n                    f\"{type(quantizer).__name__} does not implement RangeSettable. Therefore \"\n                    f\"it is not included in {type(self).__name__} range setting.\"\n                )\n\n\nsmoothed","            if isinstance(quantizer, RangeSettable) and not self.skip_unsupported_quantizers:\n                yield quantizer\n\n\nsmoothed")]),
("no recurse",1,[(E,"named_quantizers(module, recurse=True)","named_quantizers(module, recurse=False)")]),
("inplace data",1,[(M,"            reshaped_data = tiles_to_rows(data, tile_size)\n            data_min = torch.min(reshaped_data, -1).values\n            data_max = torch.max(reshaped_data, -1).values\n\n            # Look","            reshaped_data = tiles_to_rows(data, tile_size)\n            reshaped_data.nan_to_num_(0.0)\n            data_min = torch.min(reshaped_data, -1).values\n            data_max = torch.max(reshaped_data, -1).values\n\n            # Look")]),
("benign minimum",0,[(M,R,"            self.min, self.max = torch.minimum(data_min, self.min), self.max.maximum(data_max)")]),
("benign aminmax",0,[(M,"            data_min = torch.min(reshaped_data, -1).values\n            data_max = torch.max(reshaped_data, -1).values\n\n            # If min","            data_min, data_max = torch.aminmax(reshaped_data, dim=-1)\n\n            # If min")]),
("benign lerp form",0,[(M,"self.min = self.gamma * data_min + (1 - self.gamma) * self.min","self.min = self.min + self.gamma * (data_min - self.min)")]),
("benign zip",0,[(E,"        for i in range(self.min_threshold.shape[0]):\n            quant_op = quantizer.operator_for_range(\n                self.min_threshold[i], self.max_threshold[i], data.shape\n            )","        for i, (low, high) in enumerate(zip(self.min_threshold, self.max_threshold)):\n            quant_op = quantizer.operator_for_range(low, high, data.shape)")]),
("benign hoist",0,[(E,"            tile_size = self._quantizer.granularity.tile_size(data.shape)\n            tiled_data = tiles_to_rows(data, tile_size)\n            tiled_quant_data","            tiled_quant_data"),(E,"        for i in range(self.min_threshold.shape[0]):","        tile_size = self._quantizer.granularity.tile_size(data.shape)\n        tiled_data = tiles_to_rows(data, tile_size)\n        for i in range(len(self.min_threshold)):")]),
("benign argmin",0,[(E,"self.cumulative_error.min(dim=0).indices","self.cumulative_error.argmin(dim=0)")]),
("benign policy",0,[(E,"        if not self.update_range_policy or self.update_range_policy(self, self._estimation_steps):\n            self._update_quantizer_ranges(quantizer)","        policy = self.update_range_policy\n        if policy is not None and not policy(self, self._estimation_steps):\n            return\n        self._update_quantizer_ranges(quantizer)")]),
("benign step",0,[(C,"        def _data(data: torch.Tensor, *_args: Any, **_kwargs: Any) -> torch.Tensor:\n            return data\n\n        data = _data(*args, **kwargs)","        data = args[0] if args else kwargs[\"data\"]")]),
]
