Q, O, B, H, IO, M, E = ("export/" + x for x in ("stages/onnx/onnx_qdq_export_stages.py", "stages/onnx/onnx_export_stages.py", "stages/base_pipeline_stages.py", "_onnx_helpers.py", "_io_capture.py", "module_export.py", "export.py"))


def bad(name, *edits):
    return (name, 1, list(edits))


def good(name, *edits):
    return (name, 0, list(edits))


RETQ = "        return op.QuantizeLinear(input, scale, zero_point, axis=axis)"
CASES = [
    bad("zero point sign", (Q, "return op.Neg(op.Round(offset))", "return op.Round(offset)")),
    bad("zero point no round", (Q, "return op.Neg(op.Round(offset))", "return op.Neg(op.Floor(offset))")),
    bad("zero point of scale", (Q, "return op.Sub(scale, scale)", "return op.Div(scale, scale)")),
    bad("4 bits as 8", (Q, "    4: onnx.TensorProto.INT4,", "    4: onnx.TensorProto.INT8,")),
    bad("8 unsigned", (Q, "    8: onnx.TensorProto.INT8,", "    8: onnx.TensorProto.UINT8,")),
    bad("fractional bits", (Q, "    bitwidth = int(bitwidth_float)", "    bitwidth = round(bitwidth_float)"), (Q, "    if not bitwidth_float.is_integer():", "    if bitwidth_float < 1:")),
    bad("unknown bits int8", (Q, "_QDQ_DTYPE_BY_BITWIDTH.get(bitwidth)", "_QDQ_DTYPE_BY_BITWIDTH.get(bitwidth, onnx.TensorProto.INT8)")),
    bad("axis dropped on Q", (Q, RETQ, "        return op.QuantizeLinear(input, scale, zero_point)")),
    bad("axis dropped on DQ", (Q, "        return op.DequantizeLinear(input, scale, zero_point, axis=axis)", "        return op.DequantizeLinear(input, scale, zero_point)")),
    bad("axis falsy", (Q, "        if axis is None:\n            return op.QuantizeLinear", "        if not axis:\n            return op.QuantizeLinear")),
    bad("axis not disambiguated", (Q, "            if dim != 1:\n                return axis\n", "            if dim != 1:\n                return axes[0]\n")),
    bad("axis by dim one", (Q, "            if dim != 1:\n                return axis\n", "            if dim == 1:\n                return axis\n")),
    bad("axis ignores tile", (Q, "if int(dim) == 1]", "if int(dim) <= 1 or idx == 0]")),
    bad("Q data for axis", (Q, "axis = _ff_axis_from_tile_size(tile_size, data=input)\n        zero_point = _ff_zero_point_from_offset(scale, offset, op)\n        zero_point = op.Cast(", "axis = _ff_axis_from_tile_size(tile_size)\n        zero_point = _ff_zero_point_from_offset(scale, offset, op)\n        zero_point = op.Cast(")),
    bad("DQ ignores offset", (Q, "        zero_point = _ff_zero_point_from_offset(scale, offset, op)\n        zero_point = op.CastLike", "        zero_point = _ff_zero_point_from_offset(scale, None, op)\n        zero_point = op.CastLike")),
    bad("DQ zero point type", (Q, "op.CastLike(zero_point, input)", "op.CastLike(zero_point, scale)")),
    bad("lowerings swapped", (Q, "return _make_ff_quantize_by_tile_onnx(op), _make_ff_dequantize_by_tile_onnx(op)", "return _make_ff_dequantize_by_tile_onnx(op), _make_ff_quantize_by_tile_onnx(op)")),
    bad("opset forced", (Q, 'options.setdefault("opset_version", _QDQ_MIN_OPSET_VERSION)', 'options["opset_version"] = _QDQ_MIN_OPSET_VERSION')),
    bad("opset min 20", (Q, '    if int(options["opset_version"]) < _QDQ_MIN_OPSET_VERSION:', '    if int(options["opset_version"]) < _QDQ_MIN_OPSET_VERSION - 1:')),
    bad("opset lowerings of min", (Q, '_resolve_qdq_lowerings(int(options["opset_version"]))', "_resolve_qdq_lowerings(_QDQ_MIN_OPSET_VERSION)")),
    bad("opset fallback", (Q, "op = getattr(onnxscript, attr, None)", "op = getattr(onnxscript, attr, onnxscript.opset21)")),
    bad("table of user mutated", (Q, "    table = dict(raw_table)", "    table = raw_table")),
    bad("options of user mutated", (Q, "    options = {**raw_options}", "    options = raw_options")),
    bad("context mutated", (Q, '    return {**context, "onnx_export_options": options}', '    context["onnx_export_options"] = options\n    return context')),
    bad("context dropped", (Q, '    return {**context, "onnx_export_options": options}', '    return {"onnx_export_options": options}')),
    bad("user lowering loses", (Q, "table.setdefault(torch.ops.fastforward.dequantize_by_tile.default, dq_lowering)", "table[torch.ops.fastforward.dequantize_by_tile.default] = dq_lowering")),
    bad("dequantize table op", (Q, "table.setdefault(torch.ops.fastforward.dequantize_by_tile.default, dq_lowering)", "table.setdefault(torch.ops.fastforward.quantize_by_tile.default, dq_lowering)")),
    bad("stage own context", (Q, "stage_fx_to_onnx_program(modules, sample_inputs, _with_ff_qdq_lowerings(context))", "stage_fx_to_onnx_program(modules, sample_inputs, context)")),
    # capture
    bad("capture no export mode", (B, "with ff.export_mode(True), torch.no_grad(), ff.strict_quantization(False):", "with torch.no_grad(), ff.strict_quantization(False):")),
    bad("capture grads", (B, "with ff.export_mode(True), torch.no_grad(), ff.strict_quantization(False):", "with ff.export_mode(True), ff.strict_quantization(False):")),
    bad("capture last sample", (B, "    sample_args, sample_kwargs = sample_inputs[0]\n\n    with ff.export_mode(True)", "    sample_args, sample_kwargs = sample_inputs[-1]\n\n    with ff.export_mode(True)")),
    bad("capture no kwargs", (B, "torch.export.export(module, sample_args, sample_kwargs)", "torch.export.export(module, sample_args)")),
    bad("io in export mode", (B, "with ff.export_mode(False), ff.strict_quantization(False), torch.no_grad():", "with ff.strict_quantization(False), torch.no_grad():")),
    bad("io kwargs", (B, "            model(*sample_args, **sample_kwargs)\n", "            model(*sample_args)\n")),
    bad("io stored first", (B, "            model(*sample_args, **sample_kwargs)\n            recorder.store_io_as_dict(pickle_path)\n", "            recorder.store_io_as_dict(pickle_path)\n            model(*sample_args, **sample_kwargs)\n")),
    bad("io disabled quantization", (B, "        with ModuleIORecorder(model, model_name) as recorder:", "        with ff.disable_quantization(model), ModuleIORecorder(model, model_name) as recorder:")),
    bad("io path", (B, '    pickle_path = output_dir / f"{model_name}_input_output.pickle"', '    pickle_path = output_dir / "model_input_output.pickle"')),
    bad("propagate first", (B, "        AnnotateFFQuantSpecs(),\n        PropagateFFQuantSpecs(),", "        PropagateFFQuantSpecs(),\n        AnnotateFFQuantSpecs(),")),
    bad("no propagate", (B, "        AnnotateFFQuantSpecs(),\n        PropagateFFQuantSpecs(),", "        AnnotateFFQuantSpecs(),")),
    bad("fuse always", (B, '    if not context.get("store_weights_as_qdq", False):\n        return model\n', "")),
    bad("fuse default on", (B, 'context.get("store_weights_as_qdq", False)', 'context.get("store_weights_as_qdq", True)')),
    bad("fuse stubs", (B, "fuse_qdq_weights(model, stub_quantizers=False)", "fuse_qdq_weights(model, stub_quantizers=True)")),
    bad("shared quantizers", (B, "module.named_modules(remove_duplicate=False)", "module.named_modules()")),
    bad("prefix short", (B, "for idx in range(1, max_length + 1)}", "for idx in range(1, max_length)}")),
    bad("attr prefixes stop", (B, "        except AttributeError:\n            continue\n        prefixes.add(prefix)", "        except AttributeError:\n            break\n        if idx > 1:\n            prefixes.add(prefix)")),
    bad("get_attr forgotten", (B, '        elif node.op == "get_attr":\n            referenced_module_paths.update(', '        elif node.op == "get_attrs":\n            referenced_module_paths.update(')),
    bad("live silent", (B, "        raise RuntimeError(msg)\n\n    finalize", "        pass\n\n    finalize")),
    bad("prune used", (B, 'if node.op == "get_attr" and len(node.users) == 0:', 'if node.op == "get_attr" and len(node.users) <= 1:')),
    bad("prune placeholders", (B, 'if node.op == "get_attr" and len(node.users) == 0:', "if len(node.users) == 0:")),
    bad("check before prune", (B, "_collect_graph_referenced_module_paths(pruned_module)", "_collect_graph_referenced_module_paths(source_module)")),
    bad("fp eval quantized", (B, "with ff.disable_quantization(module), torch.no_grad():", "with torch.no_grad():")),
    bad("fp eval kwargs", (B, "        return [module(*args, **kwargs) for args, kwargs in sample_inputs]\n\n", "        return [module(*args) for args, kwargs in sample_inputs]\n\n")),
    bad("quant eval raw", (B, "module(*args, **kwargs).dequantize() for", "module(*args, **kwargs).raw_data for")),
    bad("quant eval first", (B, ".dequantize() for args, kwargs in sample_inputs]", ".dequantize() for args, kwargs in sample_inputs[:1]]")),
    # records
    bad("hook output not flat", (IO, "_dequantize_leaves(output_leaves)", "_dequantize_leaves([output_])")),
    bad("kwargs as input settings", (IO, "self.kwargs, self.kwargs_quantizer_settings = _deep_dequantize(self.kwargs)", "self.kwargs, self.input_quantizer_settings = _deep_dequantize(self.kwargs)")),
    bad("hook returns", (IO, "self.output, self.output_quantizer_settings = _dequantize_leaves(output_leaves)\n", "self.output, self.output_quantizer_settings = _dequantize_leaves(output_leaves)\n        return self.output\n")),
    bad("leaf settings skip", (IO, "            dequantized.append(leaf)\n            quantizer_settings.append(None)", "            dequantized.append(leaf)")),
    bad("arg settings skip", (IO, "            dequantized_flat_args.append(arg)\n            quantizer_settings.append(None)", "            dequantized_flat_args.append(arg)")),
    bad("leaf settings last", (IO, "            quantizer_settings.append(quant_setting)\n", "            quantizer_settings.insert(0, quant_setting)\n")),
    bad("unflatten swapped", (IO, "    return new_pytree, quantizer_pytree", "    return quantizer_pytree, new_pytree")),
    bad("tile of scale", (IO, "quant_args.granularity.tile_size(tensor.shape)", "quant_args.granularity.tile_size(scale.shape)")),
    bad("offset abs", (IO, '        "offset": offset,', '        "offset": offset if offset is not None and offset.any() else None,')),
    bad("attach twice", (IO, "            raise RuntimeError(msg)\n        self.handle", "        self.handle")),
    bad("attach no kwargs", (IO, "hook=self, with_kwargs=True", "hook=self")),
    bad("exit on success", (IO, "        self.detach()\n\n\ndef", "        if exc_type is None:\n            self.detach()\n\n\ndef")),
    bad("detach keeps", (IO, "            self.handle.remove()\n", "")),
    bad("store swapped", (IO, '            "input": self.input,\n            "output": self.output,', '            "input": self.output,\n            "output": self.input,')),
    bad("detach only top", (IO, "value.detach() if isinstance(value, torch.Tensor) else value", "value")),
    # modules
    bad("clear before extend", (M, "        maybe_extend_encodings_file(\n            module_name, module_output_path", "        encoding_schema_handler.clear()\n        maybe_extend_encodings_file(\n            module_name, module_output_path")),
    bad("no clear", (M, "        encoding_schema_handler.clear()\n\n    return paths", "\n    return paths")),
    bad("plain run quantized", (M, "        with disable_quantization(model):\n            model(*args, **kwargs)\n", "        model(*args, **kwargs)\n")),
    bad("second run kwargs", (M, "        model(*args, **kwargs)\n\n    paths", "        model(*args)\n\n    paths")),
    bad("not detached", (M, "module_input_data = _deep_detach_tensors(module_io_recorder.input)", "module_input_data = module_io_recorder.input")),
    bad("kwargs dropped", (M, "            model_kwargs=module_input_kwargs,\n", "")),
    bad("alter dropped", (M, "            alter_node_names=alter_node_names,\n", "")),
    bad("schema dropped", (M, "            encoding_schema_handler=encoding_schema_handler,\n            alter", "            alter")),
    bad("settings swapped", (M, '            "input": module_input_quantizer_settings,\n            "output": module_output_quantizer_settings,', '            "input": module_output_quantizer_settings,\n            "output": module_input_quantizer_settings,')),
    bad("full name", (M, "{mod.full_name: mod.module for", "{mod.name: mod.module for")),
    bad("positional not advanced", (M, "                encoding_schema_handler.add_encoding(ort_input.name, quant_settings, False)\n            positional_input_idx += 1", "                encoding_schema_handler.add_encoding(ort_input.name, quant_settings, False)\n                positional_input_idx += 1")),
    bad("outputs filtered", (M, "        ort_session_outputs, quantizer_output_settings\n    ):", "        ort_session_outputs, [s for s in quantizer_output_settings if s is not None]\n    ):")),
    bad("extend as param", (M, "add_encoding(ort_output.name, output_quantizer_settings, False)", "add_encoding(ort_output.name, output_quantizer_settings, True)")),
    bad("extend reversed", (M, "        ort_session_outputs, quantizer_output_settings\n    ):", "        reversed(ort_session_outputs), quantizer_output_settings\n    ):")),
    bad("extend not written", (M, '    with open(encodings_file_location, "w") as fp:\n        json.dump(encodings_dictionary, fp, indent=4)', "    _ = encodings_dictionary")),
    bad("extend old dictionary", (M, "    encodings_dictionary = encoding_schema_handler.build_encodings_dictionary()\n", "    encoding_schema_handler.build_encodings_dictionary()\n")),
    bad("paths file", (M, "        paths[module_name] = module_output_path\n", "        paths[module_name] = output_path\n")),
    bad("shared directory", (M, "        module_output_path = output_path / module_name\n", "        module_output_path = output_path\n")),
    # names
    bad("alter once per use", (H, "                and id(input_value) not in renamed\n", "")),
    bad("alter node outputs same", (H, 'new_output_name = f"{new_name_prefix}_{old_output_name}_0"', 'new_output_name = f"{new_name_prefix}_{old_node_name}_0"')),
    bad("alter mapping missing", (H, "                name_mapping[old_output_name] = new_output_name\n", "")),
    bad("fix names drops", (H, "        else:\n            new_encodings_dictionary[old_name] = value\n", "")),
    bad("fix names reversed", (H, "            new_encodings_dictionary[new_name] = value", "            new_encodings_dictionary[old_name] = value")),
    bad("rename count", (O, "    if len(graph_inputs) != len(effective_input_names) or len(graph_outputs) != len(\n        effective_output_names\n    ):", "    if len(graph_inputs) < len(effective_input_names) or len(graph_outputs) < len(\n        effective_output_names\n    ):")),
    bad("rename order", (O, "zip(graph_outputs, effective_output_names):", "zip(graph_outputs, sorted(effective_output_names)):")),
    bad("rename outputs as inputs", (O, "_rename_onnx_input_output_names(model, input_names, output_names)", "_rename_onnx_input_output_names(model, output_names, input_names)")),
    bad("alter default on", (O, 'context.get("alter_node_names", False)', 'context.get("alter_node_names", True)')),
    bad("alter prefix", (O, "_fix_onnx_names(model, alter_node_names_prefix)", '_fix_onnx_names(model, "ff")')),
    bad("onnx args", (O, "            args=sample_args,\n", "            args=sample_inputs[-1][0],\n")),
    bad("onnx options lose", (O, '        "dynamo": True,\n        "verbose": verbose,\n        **onnx_export_options,', '        **onnx_export_options,\n        "dynamo": True,\n        "verbose": verbose,')),
    bad("save options lose", (O, "    save_kwargs.update(onnx_save_kwargs)\n", "    save_kwargs = {**onnx_save_kwargs, **save_kwargs}\n")),
    bad("save location", (O, 'context.get("onnx_external_data_location", onnx_output_path.stem)', 'context.get("onnx_external_data_location", "model")')),
    bad("encodings default handler", (O, '    schema_handler = context.get("encoding_schema_handler")\n    if schema_handler is None:\n        schema_handler = V1SchemaHandler()', "    schema_handler = V1SchemaHandler()")),
    bad("encodings suffix", (O, 'context, suffix="encodings")', 'context, suffix="json")')),
    bad("export mode off", (E, "with export_mode(True), warnings.catch_warnings():", "with warnings.catch_warnings():")),
    bad("registry ignored", (E, "active_registry = registry or build_default_registry()", "active_registry = build_default_registry()")),
    bad("model kwargs", (E, "sample_inputs=[(data, model_kwargs or {})]", "sample_inputs=[(data, {})]")),
    bad("format swapped", (E, "        target=target,\n        format=format,\n        pipeline", "        target=target,\n        format=target,\n        pipeline")),
    bad("save kwargs lost", (E, "        onnx_save_kwargs=onnx_save_kwargs or {},\n", "")),
    # refactorings
    good("zero point locals", (Q, "    return op.Neg(op.Round(offset))", "    rounded = op.Round(offset)\n    negated = op.Neg(rounded)\n    return negated")),
    good("zero point by sub", (Q, "    return op.Neg(op.Round(offset))", "    return op.Round(op.Neg(offset))")),
    good("axis kwargs", (Q, "        if axis is None:\n            return op.QuantizeLinear(input, scale, zero_point)\n        return op.QuantizeLinear(input, scale, zero_point, axis=axis)", "        attributes = {} if axis is None else {\"axis\": axis}\n        return op.QuantizeLinear(input, scale, zero_point, **attributes)")),
    good("axis not none first", (Q, "        if axis is None:\n            return op.DequantizeLinear(input, scale, zero_point)\n        return op.DequantizeLinear(input, scale, zero_point, axis=axis)", "        if axis is not None:\n            return op.DequantizeLinear(input, scale, zero_point, axis=axis)\n        return op.DequantizeLinear(input, scale, zero_point)")),
    good("axes loop", (Q, "    axes = [idx for idx, dim in enumerate(tile_size) if int(dim) == 1]", "    axes = []\n    for idx, dim in enumerate(tile_size):\n        if int(dim) == 1:\n            axes.append(idx)")),
    good("dtype by lookup", (Q, "    dtype = _QDQ_DTYPE_BY_BITWIDTH.get(bitwidth)\n    if dtype is None:", "    if bitwidth not in _QDQ_DTYPE_BY_BITWIDTH:"), (Q, "        raise ExportError(msg)\n    return dtype\n", "        raise ExportError(msg)\n    return _QDQ_DTYPE_BY_BITWIDTH[bitwidth]\n")),
    good("opset local", (Q, '    q_lowering, dq_lowering = _resolve_qdq_lowerings(int(options["opset_version"]))', '    opset = int(options["opset_version"])\n    q_lowering, dq_lowering = _resolve_qdq_lowerings(opset)')),
    good("opset if", (Q, '    options.setdefault("opset_version", _QDQ_MIN_OPSET_VERSION)', '    if "opset_version" not in options:\n        options["opset_version"] = _QDQ_MIN_OPSET_VERSION')),
    good("table display", (Q, "    table = dict(raw_table)\n    table.setdefault(torch.ops.fastforward.quantize_by_tile.default, q_lowering)\n    table.setdefault(torch.ops.fastforward.dequantize_by_tile.default, dq_lowering)\n", "    table = {\n        torch.ops.fastforward.quantize_by_tile.default: q_lowering,\n        torch.ops.fastforward.dequantize_by_tile.default: dq_lowering,\n        **raw_table,\n    }\n")),
    good("context copy", (Q, '    return {**context, "onnx_export_options": options}', '    result = dict(context)\n    result["onnx_export_options"] = options\n    return result')),
    good("capture nested with", (B, "    with ff.export_mode(True), torch.no_grad(), ff.strict_quantization(False):\n        return torch", "    with torch.no_grad():\n      with ff.strict_quantization(False), ff.export_mode(True):\n        return torch")),
    good("capture helper", (B, "    sample_args, sample_kwargs = sample_inputs[0]\n\n    with ff.export_mode(True)", "    sample_args, sample_kwargs = _first(sample_inputs)\n\n    with ff.export_mode(True)"), (B, "def stage_capture_impl_ff(", "def _first(samples: Any) -> Any:\n    return samples[0]\n\n\ndef stage_capture_impl_ff(")),
    good("prefix loop", (B, '    return {".".join(parts[:idx]) for idx in range(1, max_length + 1)}', '    prefixes = set()\n    for idx in range(1, max_length + 1):\n        prefixes.add(".".join(parts[:idx]))\n    return prefixes')),
    good("quantizer paths comp", (B, "    quantizer_paths: set[str] = set()\n    for name, submodule in module.named_modules(remove_duplicate=False):\n        if name and isinstance(submodule, ff.nn.Quantizer):\n            quantizer_paths.add(name)\n    return quantizer_paths", "    return {\n        name\n        for name, submodule in module.named_modules(remove_duplicate=False)\n        if name and isinstance(submodule, ff.nn.Quantizer)\n    }")),
    good("live operator", (B, "quantizer_module_paths.intersection(referenced_module_paths)", "quantizer_module_paths & referenced_module_paths")),
    good("prune comp", (B, '        nodes_to_remove: list[torch.fx.Node] = []\n        for node in module.graph.nodes:\n            if node.op == "get_attr" and len(node.users) == 0:\n                nodes_to_remove.append(node)\n', '        nodes_to_remove = [\n            node for node in module.graph.nodes if node.op == "get_attr" and not node.users\n        ]\n')),
    good("fp eval loop", (B, "        return [module(*args, **kwargs) for args, kwargs in sample_inputs]\n\n", "        outputs = []\n        for args, kwargs in sample_inputs:\n            outputs.append(module(*args, **kwargs))\n        return outputs\n\n")),
    good("fuse positive", (B, '    if not context.get("store_weights_as_qdq", False):\n        return model\n    fuse_qdq_weights(model, stub_quantizers=False)\n    return model', '    if context.get("store_weights_as_qdq"):\n        fuse_qdq_weights(model, stub_quantizers=False)\n    return model')),
    good("leaves two lists", (IO, "        if isinstance(leaf, QuantizedTensor):\n            dequant_tensor, quant_setting = _dequant_and_get_quantparams(leaf)\n            dequantized.append(dequant_tensor)\n            quantizer_settings.append(quant_setting)\n        else:\n            dequantized.append(leaf)\n            quantizer_settings.append(None)", "        setting = None\n        if isinstance(leaf, QuantizedTensor):\n            leaf, setting = _dequant_and_get_quantparams(leaf)\n        dequantized.append(leaf)\n        quantizer_settings.append(setting)")),
    good("hook locals", (IO, "        self.input = input_ if isinstance(input_, tuple) else (input_,)\n        self.kwargs = kwargs\n\n        self.input, self.input_quantizer_settings = _deep_dequantize(self.input)\n        self.kwargs, self.kwargs_quantizer_settings = _deep_dequantize(self.kwargs)", "        args = input_ if isinstance(input_, tuple) else (input_,)\n        self.input, self.input_quantizer_settings = _deep_dequantize(args)\n        self.kwargs, self.kwargs_quantizer_settings = _deep_dequantize(kwargs)")),
    good("detach early", (IO, "        if self.handle is not None:\n            self.handle.remove()\n            self.handle = None", "        if self.handle is None:\n            return\n        handle, self.handle = self.handle, None\n        handle.remove()")),
    good("store write", (IO, '        with open(location, "wb") as fp:\n            pickle.dump(input_output_registry, fp)', '        location.write_bytes(pickle.dumps(input_output_registry))')),
    good("modules enter all", (M, "    with ExitStack() as stack:\n        for module_name, module in modules.items():\n            module_io_recorder = ModuleIORecorder(module, module_name)\n            module_io_recorders.append(stack.enter_context(module_io_recorder))\n\n        model(*args, **kwargs)", "    with ExitStack() as stack:\n        module_io_recorders = [\n            stack.enter_context(ModuleIORecorder(module, name)) for name, module in modules.items()\n        ]\n        model(*args, **kwargs)")),
    good("modules inline settings", (M, '            "input": module_input_quantizer_settings,', '            "input": module_io_recorder.input_quantizer_settings,'), (M, "        module_input_quantizer_settings = module_io_recorder.input_quantizer_settings\n", "")),
    good("extend zip longest", (M, "    for ort_output, output_quantizer_settings in zip(\n        ort_session_outputs, quantizer_output_settings\n    ):\n        if output_quantizer_settings is not None:\n            encoding_schema_handler.add_encoding(ort_output.name, output_quantizer_settings, False)", "    for ort_output, output_quantizer_settings in zip(\n        ort_session_outputs, quantizer_output_settings\n    ):\n        if output_quantizer_settings is None:\n            continue\n        encoding_schema_handler.add_encoding(\n            ort_output.name, output_quantizer_settings, is_param=False\n        )")),
    good("fix names get", (H, "        new_name = name_mapping.get(old_name)\n        if new_name is not None:\n            new_encodings_dictionary[new_name] = value\n        else:\n            new_encodings_dictionary[old_name] = value\n", "        new_encodings_dictionary[name_mapping.get(old_name, old_name)] = value\n")),
    good("alter helper", (H, '            new_name = f"{new_name_prefix}_{old_name}_0"', '            new_name = _altered(new_name_prefix, old_name)'), (H, "def _fix_onnx_names(", 'def _altered(prefix: str, name: str) -> str:\n    return f"{prefix}_{name}_0"\n\n\ndef _fix_onnx_names(')),
    good("rename default names", (O, "        effective_input_names = []\n        for entry in graph_inputs:\n            assert entry.name is not None\n            effective_input_names.append(entry.name)\n", "        effective_input_names = [entry.name for entry in graph_inputs]\n")),
    good("save display", (O, '        "location": str(context.get("onnx_external_data_location", onnx_output_path.stem)),\n    }\n    save_kwargs.update(onnx_save_kwargs)', '        "location": str(context.get("onnx_external_data_location", onnx_output_path.stem)),\n        **onnx_save_kwargs,\n    }')),
    good("encodings or", (O, '    schema_handler = context.get("encoding_schema_handler")\n    if schema_handler is None:\n        schema_handler = V1SchemaHandler()', '    schema_handler = context.get("encoding_schema_handler")\n    schema_handler = V1SchemaHandler() if schema_handler is None else schema_handler')),
    good("export registry split", (E, "        active_registry = registry or build_default_registry()\n        active_orchestrator = orchestrator or ExportOrchestrator(registry=active_registry)\n        return active_orchestrator.export(request)", "        if orchestrator is None:\n            orchestrator = ExportOrchestrator(registry=registry or build_default_registry())\n        return orchestrator.export(request)")),
]
