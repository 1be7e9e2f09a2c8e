SC, LP, PA, AN, OX = ("export/" + x for x in ("_export_schemas.py", "_lpbq.py", "stages/passes.py", "stages/annotations.py", "stages/onnx/onnx_export_stages.py"))


def bad(name, *edits):
    return (name, 1, list(edits))


def good(name, *edits):
    return (name, 0, list(edits))


CASES = [
    # schema handlers
    bad("offset not rounded", (SC, "    offset = torch.round(offset)\n", "")),
    bad("offset truncated", (SC, "torch.round(offset)", "torch.trunc(offset)")),
    bad("zero point sign", (SC, "offset - 2 ** (bitwidth - 1)", "-offset - 2 ** (bitwidth - 1)")),
    bad("zero point bits", (SC, "offset - 2 ** (bitwidth - 1)", "offset - 2 ** bitwidth")),
    bad("symmetric any", (SC, "torch.all(offset == 0)", "torch.any(offset == 0)")),
    bad("symmetric by absence", (SC, "is_symmetric = bool(torch.all(offset == 0).item())", "is_symmetric = encoding_value.get(\"offset\") is None")),
    bad("not broadcast", (SC, "    scale, offset = torch.broadcast_tensors(scale.reshape(-1), offset.reshape(-1))\n", "    scale, offset = scale.reshape(-1), offset.reshape(-1)\n")),
    bad("bits truncated", (SC, "    bitwidth = _strict_cast_to_int(bitwidth, \"bitwidth\")\n\n    qnn", "    bitwidth = int(bitwidth)\n\n    qnn")),
    bad("legacy any channel", (SC, "            case ff.PerChannel((0,)):\n                ...\n            case ff.PerChannel():\n                msg = (\n                    f\"Channel quantization dimension for {self.__class__.__name__} can only be 0. \"\n                )\n                msg += f\"Instead received granularity: {granularity}\"\n                raise ValueError(msg)\n            case ff.PerBlock():\n", "            case ff.PerChannel():\n                ...\n            case ff.PerBlock():\n")),
    bad("legacy range unrounded", (SC, "quantization_range(qparams.scale, qparams.offset, bitwidth)", "quantization_range(qparams.scale, None, bitwidth)")),
    bad("legacy min max", (SC, "\"min\": min_range_entry.item(),\n                \"max\": max_range_entry.item(),", "\"min\": max_range_entry.item(),\n                \"max\": min_range_entry.item(),")),
    bad("legacy offset raw", (SC, "        ) in zip(qparams.scale, qparams.qnn_offset, min_range", "        ) in zip(qparams.scale, qparams.offset, min_range")),
    bad("legacy tables swapped", (SC, "            \"param_encodings\": dict(self._param_encodings),\n            \"activation_encodings\": dict(self._activation_encodings),", "            \"param_encodings\": dict(self._activation_encodings),\n            \"activation_encodings\": dict(self._param_encodings),")),
    bad("legacy aliased", (SC, "dict(self._param_encodings)", "self._param_encodings")),
    bad("legacy overwrites", (SC, "                logger.warning(\n                    f\"Parameter: {name} already present in encodings dictionary. Skipping.\"\n                )\n            else:\n                self._param_encodings[name] = tuple(entry)", "                logger.warning(f\"Parameter: {name} again\")\n            self._param_encodings[name] = tuple(entry)")),
    bad("legacy kind", (SC, "        if is_param:\n            if name in self._param_encodings:\n", "        if not is_param:\n            if name in self._param_encodings:\n")),
    bad("v1 names kept", (SC, "        self._param_encodings_names.clear()\n", "")),
    bad("v1 names not noted", (SC, "                self._activation_encodings_names.add(name)\n", "")),
    bad("v1 offset raw", (SC, "\"offset\": [o.item() for o in qparams.qnn_offset]", "\"offset\": [o.item() for o in qparams.offset]")),
    bad("v1 lpbq ignored", (SC, "if self._lpbq_processor is not None:", "if self._lpbq_processor is None:")),
    bad("v1 block size dim", (SC, "entry[\"block_size\"] = block_sizes[0]\n        return", "entry[\"block_size\"] = block_dims[0]\n        return")),
    bad("v1 is_sym inverted", (SC, "\"is_sym\": qparams.is_symmetric", "\"is_sym\": not qparams.is_symmetric")),
    bad("v1 version", (SC, "        return \"1.0.0\"", "        return \"2.0.0\"")),
    bad("v2 sign of dtype", (SC, "(\"\" if qparams.is_symmetric else \"u\")", "(\"u\" if qparams.is_symmetric else \"\")")),
    bad("v2 zero point always", (SC, "                if not qparams.is_symmetric:\n                    entry[\"y_zero_point\"] = int(", "                if True:\n                    entry[\"y_zero_point\"] = int(")),
    bad("v2 block zero point raw", (SC, "qparams.qnn_offset.detach().cpu().numpy().reshape(parameter_shape)", "qparams.offset.detach().cpu().numpy().reshape(parameter_shape)")),
    bad("v2 shape dims order", (SC, "        if idx in granularity.per_channel_dims:\n            parameter_shape.append(size)", "        if idx in granularity.per_channel_dims:\n            parameter_shape.insert(0, size)")),
    bad("v2 block count", (SC, "num_blocks = size // block_size", "num_blocks = block_size")),
    bad("v2 block scale flat", (SC, "qparams.scale.detach().cpu().numpy().reshape(parameter_shape).tolist()", "qparams.scale.detach().cpu().numpy().tolist()")),
    bad("v2 axis of channel", (SC, "entry[\"axis\"] = block_dims[0]", "entry[\"axis\"] = granularity.per_channel_dims[0]")),
    # LPBQ
    bad("lpbq asymmetric", (LP, "            and processed_params.is_symmetric is True\n", "")),
    bad("lpbq any bits", (LP, "            and processed_params.bitwidth == self.compressed_bw\n", "")),
    bad("lpbq groups channels", (LP, "                block_grouping = [1, -1]", "                block_grouping = [-1, 1]")),
    bad("lpbq shape", (LP, "shape = (block_dims // block_size, in_channels)", "shape = (in_channels, block_dims // block_size)")),
    bad("lpbq min", (LP, "torch.amax(grouped_scale", "torch.amin(grouped_scale")),
    bad("lpbq floor", (LP, "torch.round(grouped_scale / dynamic_scale)", "torch.floor(grouped_scale / dynamic_scale)")),
    bad("lpbq zero scale", (LP, "dynamic_scale), 1, 2**bitwidth", "dynamic_scale), 0, 2**bitwidth")),
    bad("lpbq bits swapped", (LP, "            \"bw\": decompressed_bw,", "            \"bw\": compressed_bw,")),
    bad("lpbq offset bits", (LP, "float(-(2 ** (decompressed_bw - 1)))", "float(-(2 ** (compressed_bw - 1)))")),
    bad("lpbq config equal", (LP, "if compressed_bw >= decompressed_bw:", "if compressed_bw > decompressed_bw:")),
    # annotation
    bad("spec offset sign", (AN, "2 ** (num_bits - 1) - quant_params", "2 ** (num_bits - 1) + quant_params")),
    bad("spec read sign", (OX, "offset = 2 ** (int(num_bits) - 1) - offset", "offset = 2 ** (int(num_bits) - 1) + offset")),
    bad("spec read bits", (OX, "offset = 2 ** (int(num_bits) - 1) - offset", "offset = 2 ** int(num_bits) - offset")),
    bad("spec symmetric any", (AN, "bool((offset == 0.0).all())", "bool((offset == 0.0).any())")),
    bad("spec sizes swapped", (OX, "                int(dim) for dim in quant_spec.data_shape\n            ])", "                int(dim) for dim in quant_spec.tile_size\n            ])")),
    bad("spec scale of offset", (AN, "scale_value = quant_params[scale.target]", "scale_value = quant_params[offset.target]")),
    bad("metadata key shared", (OX, "_FF_OFFSET_KEY = \"pkg.fastforward.quantization.offset\"", "_FF_OFFSET_KEY = \"pkg.fastforward.quantization.scale\"")),
    bad("metadata symmetric missing", (OX, "        onnx_item.metadata_props[_FF_SYMMETRIC_KEY] = json.dumps(bool(quant_spec.symmetric))\n", "")),
    bad("dequantize order", (PA, "_data, scale, _tile_size, offset, _output_dtype = node.args", "_data, scale, _tile_size, _output_dtype, offset = node.args")),
    bad("buffers forgotten", (PA, "itertools.chain(module.named_parameters(), module.named_buffers())", "itertools.chain(module.named_parameters())")),
    bad("annotates quantizer", (PA, "                input.meta[FF_QUANTIZATION_SPEC] = spec", "                node.meta[FF_QUANTIZATION_SPEC] = spec")),
    bad("erased first", (PA, "                node.replace_all_uses_with(input)\n                graph.erase_node(node)\n\n            elif", "                graph.erase_node(node)\n                node.replace_all_uses_with(input)\n\n            elif")),
    bad("dequantize kept", (PA, "                node.replace_all_uses_with(input)\n                graph.erase_node(node)\n\n        return", "                pass\n\n        return")),
    bad("spreads over everything", (PA, "isinstance(node.target, torch._ops.OpOverload) and node.target.is_view", "isinstance(node.target, torch._ops.OpOverload)")),
    bad("spread replaces", (PA, "        if FF_QUANTIZATION_SPEC in input.meta and FF_QUANTIZATION_SPEC in output.meta:\n            return\n", "")),
    bad("no backward spread", (PA, "            src, tgt = output, input", "            return")),
    bad("any node", (PA, "        if node.target in QUANTIZE_OPERATIONS or node.target in DEQUANTIZE_OPERATIONS:\n            yield node", "        yield node")),
    bad("outputs not annotated", (OX, "        for output_value in self._model.graph.outputs:\n            self._annotate_item(output_value)\n", "        for output_value in self._model.graph.outputs:\n")),
    bad("own node last", (OX, "            if fx_node is not None and fx_node.name not in self._fx_quant_specs:", "            if fx_node is not None:")),
    # extraction
    bad("initializers as activations", (OX, "encoding_schema_handler.add_encoding(initializer.name, quant_params, is_param=True)", "encoding_schema_handler.add_encoding(initializer.name, quant_params, is_param=False)")),
    bad("initializer inputs", (OX, "        if graph_input.name in initializer_names:\n            continue\n", "")),
    bad("first output only", (OX, "        for output_name in node.output:\n", "        for output_name in node.output[:1]:\n")),
    bad("not cleared", (OX, "    encoding_schema_handler.clear()\n\n    init", "    init")),
    bad("copier outputs", (OX, "        self._copy_inputs()\n        self._copy_outputs()", "        self._copy_inputs()")),
    bad("copier source", (OX, "value.name: value for value in self._ir_model.graph.outputs if", "value.name: value for value in self._ir_model.graph.inputs if")),
    bad("copier key", (OX, "                metadata_prop.value = value", "                metadata_prop.value = key")),
    bad("metadata first only", (OX, "            output[str(entry.key)] = str(entry.value)\n", "            output[str(entry.key)] = str(entry.value)\n            break\n")),
    # behaviour kept
    good("range helper", (SC, "    qnn_offset = offset - 2 ** (bitwidth - 1)\n", "    half = 1 << (bitwidth - 1)\n    half = 2 ** (bitwidth - 1)\n    qnn_offset = -half + offset\n")),
    good("symmetric by any", (SC, "bool(torch.all(offset == 0).item())", "not bool(torch.any(offset != 0))")),
    good("symmetric by method", (SC, "bool(torch.all(offset == 0).item())", "bool((offset == 0).all())")),
    good("legacy if chain", (SC, "        match granularity:\n            case ff.PerTensor():\n                ...\n            case ff.PerChannel((0,)):\n                ...\n            case ff.PerChannel():\n                msg = (\n                    f\"Channel quantization dimension for {self.__class__.__name__} can only be 0. \"\n                )\n                msg += f\"Instead received granularity: {granularity}\"\n                raise ValueError(msg)\n            case ff.PerBlock():\n                msg = f\"Block quantization is not supported for {self.__class__.__name__}. \"\n                msg += f\"Node: {name} was found to use block quantization\"\n                raise ValueError(msg)\n            case _:\n                msg = f\"Unsupported granularity type, received: {granularity}.\"\n                raise ValueError(msg)\n", "        per_channel = isinstance(granularity, ff.PerChannel) and granularity.channel_dims == (0,)\n        if not isinstance(granularity, ff.PerTensor) and not per_channel:\n            raise ValueError(f\"{name}: {granularity} is not supported\")\n")),
    good("legacy table choice", (SC, "        if is_param:\n            if name in self._param_encodings:\n                logger.warning(\n                    f\"Parameter: {name} already present in encodings dictionary. Skipping.\"\n                )\n            else:\n                self._param_encodings[name] = tuple(entry)\n        else:\n            if name in self._activation_encodings:\n                logger.warning(\n                    f\"Activation: {name} already present in encodings dictionary. Skipping.\"\n                )\n            else:\n                self._activation_encodings[name] = tuple(entry)", "        table = self._param_encodings if is_param else self._activation_encodings\n        if name in table:\n            logger.warning(f\"{name} already present in encodings dictionary. Skipping.\")\n            return\n        table[name] = tuple(entry)")),
    good("v1 entry late", (SC, "            \"offset\": [o.item() for o in qparams.qnn_offset],\n        }\n", "        }\n        entry[\"offset\"] = qparams.qnn_offset.tolist()\n")),
    good("v1 block inline", (SC, "            case ff.PerBlock(block_dims=(1,), per_channel_dims=(0,)):\n                entry = self._handle_per_block_encoding(name, entry, qparams, granularity)\n            case ff.PerBlock(block_dims=(0,), per_channel_dims=(1,)):\n", "            case ff.PerBlock(block_dims=(1,), per_channel_dims=(0,)) | ff.PerBlock(block_dims=(0,), per_channel_dims=(1,)):\n")),
    good("v2 prefix", (SC, "\"output_dtype\": (\"\" if qparams.is_symmetric else \"u\") + f\"int{qparams.bitwidth}\",", "\"output_dtype\": f\"{'' if qparams.is_symmetric else 'u'}int{qparams.bitwidth}\",")),
    good("v2 torch reshape", (SC, "qparams.scale.detach().cpu().numpy().reshape(parameter_shape).tolist()", "qparams.scale.reshape(parameter_shape).tolist()")),
    good("lpbq early returns", (LP, "        block_size = granularity.block_sizes[0]\n        return granularity, block_size", "        (block_size,) = granularity.block_sizes\n        return granularity, block_size")),
    good("pass helper", (PA, "                node.replace_all_uses_with(input)\n                graph.erase_node(node)\n\n            elif", "                self._drop(graph, node, input)\n\n            elif"), (PA, "class PropagateFFQuantSpecs:", "def _unused() -> None: ...\n\n\nclass PropagateFFQuantSpecs:"), (PA, "    def __call__(self, module: torch.fx.GraphModule) -> PassResult:\n        \"\"\"Apply FF quantization spec annotation", "    def _drop(self, graph, node, value):\n        node.replace_all_uses_with(value)\n        graph.erase_node(node)\n\n    def __call__(self, module: torch.fx.GraphModule) -> PassResult:\n        \"\"\"Apply FF quantization spec annotation")),
    good("nodes as list", (PA, "    for node in graph.nodes:\n        if not node.op == \"call_function\":\n            continue\n\n        if node.target in QUANTIZE_OPERATIONS or node.target in DEQUANTIZE_OPERATIONS:\n            yield node", "    targets = QUANTIZE_OPERATIONS + DEQUANTIZE_OPERATIONS\n    for node in graph.nodes:\n        if node.op == \"call_function\" and node.target in targets:\n            yield node")),
    good("propagate rewritten", (PA, "        if FF_QUANTIZATION_SPEC in input.meta and FF_QUANTIZATION_SPEC in output.meta:\n            return\n        if FF_QUANTIZATION_SPEC not in input.meta and FF_QUANTIZATION_SPEC not in output.meta:\n            return\n\n        if FF_QUANTIZATION_SPEC in input.meta:\n            src, tgt = input, output\n        else:\n            src, tgt = output, input\n", "        has_input = FF_QUANTIZATION_SPEC in input.meta\n        has_output = FF_QUANTIZATION_SPEC in output.meta\n        if has_input == has_output:\n            return\n        src, tgt = (input, output) if has_input else (output, input)\n")),
    good("extract chain", (OX, "        if quant_params is None:\n            continue\n\n        for output_name in node.output:\n            encoding_schema_handler.add_encoding(output_name, quant_params, is_param=False)", "        if quant_params is not None:\n            for output_name in node.output:\n                encoding_schema_handler.add_encoding(output_name, quant_params, False)")),
    good("copier helper", (OX, "        for proto_output in self._proto.graph.output:\n            if proto_output.name in ir_outputs_by_name:\n                self._copy_metadata(ir_outputs_by_name[proto_output.name], proto_output)", "        for proto_output in self._proto.graph.output:\n            if proto_output.name not in ir_outputs_by_name:\n                continue\n            source = ir_outputs_by_name[proto_output.name]\n            self._copy_metadata(source, proto_output)")),
    good("spec ternary", (AN, "    if not symmetric:\n        offset_value = 2 ** (num_bits - 1) - quant_params[offset.target]\n", "    offset_value = offset_value if symmetric else 2 ** (num_bits - 1) - offset_value\n")),
]
