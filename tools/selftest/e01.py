S = "quantization/save_load.py"
Y = "serialization.py"
Q = "nn/quantizer.py"
CASES = [
 ("own name per key", 1, [(S, 'state[f"{first_name}.{key}"] = param.detach()', 'state[f"{names[0]}.{key}"] = param.detach()')]),
 ("dup removed", 1, [(S, "named_quantizers(model, remove_duplicate=False):\n        quantizers", "named_quantizers(model):\n        quantizers")]),
 ("index other first", 1, [(S, 'f"{param}={first_name}.{param}"', 'f"{param}={name}.{param}"')]),
 ("lazy mark dropped", 1, [(S, '"::lazy" if param in lazy_param else ""', '"::lazy" if param in state else ""')]),
 ("separator", 1, [(S, 'metadata[name] = ",".join', 'metadata[name] = ";".join')]),
 ("reader sep", 1, [(S, 'key.split("=")', 'key.split(":")')]),
 ("reader lazy", 1, [(S, 'if "lazy" in decorators:', 'if "lazy" in tensor_key:')]),
 ("reader swapped", 1, [(S, "state_tensor_keys[state_key] = tensor_key", "state_tensor_keys[tensor_key] = tensor_key")]),
 ("no unexpected", 1, [(S, "missing_keys = sorted(set(missing_keys) - set(lazy_params))\n                if missing_keys or unexpected_keys:", "missing_keys = sorted(set(missing_keys) - set(lazy_params))\n                if missing_keys:")]),
 ("missing not reduced", 1, [(S, "missing_keys = sorted(set(missing_keys) - set(lazy_params))", "missing_keys = sorted(set(missing_keys))")]),
 ("lazy allowed silently", 1, [(S, '''                    if allow_lazy_params:
                        logger.warning(msg)
                    else:
                        logger.error(msg)
                        raise ValueError(msg)''', '''                    logger.warning(msg)''')]),
 ("skip overwrites", 1, [(S, '            elif overwrite_policy == "skip":\n                continue\n            elif', '            elif overwrite_policy == "skip":\n                pass\n            elif')]),
 ("policy inverted stub", 1, [(S, "if is_quantizer and not is_quantizer_stub:\n            if overwrite_policy", "if is_quantizer_stub:\n            if overwrite_policy")]),
 ("version", 1, [(S, 'if config.get("version") != "1.0":', 'if config.get("version") is None:')]),
 ("name check inverted", 1, [(S, 'if expected_name is not None and str(config.get("name_or_path")) != str(expected_name):', 'if expected_name is None and str(config.get("name_or_path")) != str(expected_name):')]),
 ("place wrong parent", 1, [(S, "        setattr(parent, parent_attribute, quantizer)\n\n\ndef save_quantized_model", "        setattr(model, parent_attribute, quantizer)\n\n\ndef save_quantized_model")]),
 ("prefix without dot", 1, [(S, '''        f"{name}."
        for name, _ in ff.nn.quantized_module.named_quantizers(
            save_model,''', '''        f"{name}"
        for name, _ in ff.nn.quantized_module.named_quantizers(
            save_model,''')]),
 ("prefix no stubs", 1, [(S, "            model, remove_duplicate=False, skip_stubs=False\n        )\n    )\n    expected_keys", "            model, remove_duplicate=False\n        )\n    )\n    expected_keys")]),
 ("expected keys early", 1, [(S, '''    # Reattach quantizers first (replacing stubs), then load weights so their''', '''    expected0 = tuple(f"{n}." for n, _ in ff.nn.quantized_module.named_quantizers(model, remove_duplicate=False, skip_stubs=False))
    # Reattach'''), (S, "expected_keys = {name for name in model.state_dict() if not name.startswith(quantizer_prefixes)}", "expected_keys = {name for name in model.state_dict() if not name.startswith(expected0)}")]),
 ("no unexpected weights", 1, [(S, "unexpected_keys = sorted(weight_state.keys() - expected_keys)", "unexpected_keys = []")]),
 ("tied not expanded", 1, [(S, 'weight_state = _expand_shared_tensors(weight_state, manifest.get("tied_weights", {}))', 'weight_state = dict(weight_state)')]),
 ("tied key name", 1, [(S, '"tied_weights": tied_weights', '"tied": tied_weights')]),
 ("tied no stride", 1, [(S, "key = (tensor.data_ptr(), tensor.shape, tensor.stride(), tensor.device)", "key = (tensor.data_ptr(), tensor.shape, tensor.device)")]),
 ("alias swapped", 1, [(S, "aliases[name] = representative", "aliases[representative] = name")]),
 ("expand ignores missing", 1, [(S, '''        if representative not in tensors:
            msg = (
                f"Tied weight''', '''        if representative not in tensors:
            continue
            msg = (
                f"Tied weight''')]),
 ("file name", 1, [(S, 'model_path = artifact_path / "quantizer_state.safetensors"', 'model_path = artifact_path / "model.safetensors"')]),
 ("lazy option dropped", 1, [(S, '''        state_filename="model.safetensors",
        allow_lazy_params=allow_lazy_params,''', '''        state_filename="model.safetensors",
        allow_lazy_params=True,''')]),
 ("policy dropped", 1, [(S, '''        expected_name=expected_name or None,
        overwrite_policy=overwrite_policy,''', '''        expected_name=expected_name or None,
        overwrite_policy="overwrite",''')]),
 ("empty marker", 1, [(S, "if not state and not metadata:", "if state and not metadata:")]),
 ("index lost when no tensors", 1, [(S, "if not state and not metadata:", "if not state:")]),
 ("weights only params", 1, [(S, "for name, param in save_model.state_dict().items()", "for name, param in save_model.named_parameters()")]),
 ("save stubs weights", 1, [(S, "    save_model = model\n", "    save_model = model\n    save_model.eval_only = True\n")]),
 ("yaml no deepcopy", 1, [(Y, "fn_args = copy.deepcopy(tuple((args[1:], kwargs)))", "fn_args = tuple((args[1:], kwargs))")]),
 ("yaml before call", 1, [(Y, '''        result = func(*args, **kwargs)
        setattr(args[0], f"__{fn_name}args_ex__", fn_args)''', '''        setattr(args[0], f"__{fn_name}args_ex__", fn_args)
        result = func(*args, **kwargs)''')]),
 ("yaml key", 1, [(Y, 'state["initargs"] = data.__initargs_ex__', 'state["init_args"] = data.__initargs_ex__')]),
 ("yaml wrong args", 1, [(Y, "obj = cls(*initargs, **initkwargs)", "obj = cls(*newargs, **newkwargs)")]),
 ("yaml kwargs lost", 1, [(Y, "obj = cls(*initargs, **initkwargs)", "obj = cls(*initargs)")]),
 ("yaml state lost", 1, [(Y, 'if "state" in values:', 'if "stat" in values:')]),
 ("overrides", 1, [(Q, "        if self._quantizer_overrides:\n            msg = (\n                \"quantizer_overrides can not", "        if not self._quantizer_overrides and False:\n            msg = (\n                \"quantizer_overrides can not")]),
 ("state ignores ints", 1, [(Q, "if key not in ignored_attribures and not isinstance(value, torch.Tensor)", "if key not in ignored_attribures and not isinstance(value, (torch.Tensor, tuple))")]),
 ("state ignores attr", 1, [(Q, '            "_quantizer_overrides",  # doesn\'t support yet', '            "_quantizer_overrides",  # doesn\'t support yet\n            "num_bits",')]),
 # behaviour kept
 ("ok: first by sorted", 0, [(S, "first_name = min(names)", "first_name = sorted(names)[0]")]),
 ("ok: partition", 0, [(S, '''                    if "::" in tensor_key:
                        tensor_key, decorators = tensor_key.split("::")
                    else:
                        decorators = ""
''', '''                    tensor_key, _, decorators = tensor_key.partition("::")
''')]),
 ("ok: early continue", 0, [(S, '''                for key in filter(None, metadata[f"{name}"].split(",")):
''', '''                for key in metadata[name].split(","):
                    if not key:
                        continue
''')]),
 ("ok: group helper", 0, [(S, '''    quantizers = defaultdict(list)
    for name, quantizer in ff.nn.quantized_module.named_quantizers(model, remove_duplicate=False):
        quantizers[quantizer].append(name)
''', '''    quantizers = _group(model)
'''), (S, "def _resolve_name_or_path(", '''def _group(model):
    groups = {}
    for name, quantizer in ff.nn.quantized_module.named_quantizers(model, remove_duplicate=False):
        groups.setdefault(quantizer, []).append(name)
    return groups


def _resolve_name_or_path(''')]),
 ("ok: index loop", 0, [(S, '''            params_metadata = [
                f"{param}={first_name}.{param}" + ("::lazy" if param in lazy_param else "")
                for param in state_dict.keys()
            ]
''', '''            params_metadata = []
            for param in state_dict.keys():
                suffix = "::lazy" if param in lazy_param else ""
                params_metadata.append(f"{param}={first_name}.{param}{suffix}")
''')]),
 ("ok: config in loop", 0, [(S, '''            metadata[name] = ",".join(params_metadata)

    config_quantizers = {
        name: quantizer for quantizer, names in quantizers.items() for name in names
    }''', '''            metadata[name] = ",".join(params_metadata)
            config_quantizers[name] = quantizer
'''), (S, "    metadata: dict[str, str] = {}\n\n    for", "    metadata: dict[str, str] = {}\n    config_quantizers: dict[str, Quantizer] = {}\n\n    for")]),
 ("ok: policy helper", 0, [(S, '''        if is_quantizer and not is_quantizer_stub:
            if overwrite_policy == "error":''', '''        if is_quantizer and not is_quantizer_stub and _check(overwrite_policy):
            if overwrite_policy == "error":'''), (S, "def save_quantized_model(", "def _check(policy):\n    return True\n\n\ndef save_quantized_model(")]),
 ("ok: prefixes helper", 0, [(S, '''    quantizer_prefixes = tuple(
        f"{name}."
        for name, _ in ff.nn.quantized_module.named_quantizers(
            save_model, remove_duplicate=False, skip_stubs=False
        )
    )
''', '''    quantizer_prefixes = _prefixes(save_model)
'''), (S, '''    quantizer_prefixes = tuple(
        f"{name}."
        for name, _ in ff.nn.quantized_module.named_quantizers(
            model, remove_duplicate=False, skip_stubs=False
        )
    )
''', '''    quantizer_prefixes = _prefixes(model)
'''), (S, "def save_quantized_model(", '''def _prefixes(model):
    names = ff.nn.quantized_module.named_quantizers(model, remove_duplicate=False, skip_stubs=False)
    return tuple(name + "." for name, _ in names)


def save_quantized_model(''')]),
 ("ok: weights loop", 0, [(S, '''    weight_state = {
        name: param.detach()
        for name, param in save_model.state_dict().items()
        if not name.startswith(quantizer_prefixes)
    }
''', '''    weight_state = {}
    for name, param in save_model.state_dict().items():
        if name.startswith(quantizer_prefixes):
            continue
        weight_state[name] = param.detach()
''')]),
 ("ok: get_submodule", 0, [(S, '''        parent = model if len(parts) == 1 else attrgetter(parts[0])(model)
        parent_attribute = parts[-1]
''', '''        prefix, _, parent_attribute = name.rpartition(".")
        parent = model.get_submodule(prefix) if prefix else model
''')]),
 ("ok: expand comp", 0, [(S, "    expanded = dict(tensors)\n", "    expanded = tensors.copy()\n")]),
 ("ok: explicit loads", 0, [(S, '''                missing_keys, unexpected_keys = quantizer.load_state_dict(
                    {
                        state_key: f.get_tensor(tensor_key)
                        for state_key, tensor_key in state_tensor_keys.items()
                    },
                    strict=False,
                )
''', '''                tensors = {}
                for state_key in state_tensor_keys:
                    tensors[state_key] = f.get_tensor(state_tensor_keys[state_key])
                missing_keys, unexpected_keys = quantizer.load_state_dict(tensors, strict=False)
''')]),
 ("ok: equality check", 0, [(S, '''    if missing_keys or unexpected_keys:
        msg = (
            f"Saved weights do not''', '''    if len(missing_keys) + len(unexpected_keys) > 0:
        msg = (
            f"Saved weights do not''')]),
]
