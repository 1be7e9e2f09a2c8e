P, X, S, A, N, V, D = ("export/stages/gguf/" + x for x in ("_packing.py", "_extract.py", "gguf_export_stages.py", "_arch.py", "_naming.py", "_vocab.py", "adapter.py"))


def bad(name, *edits):
    return (name, 1, list(edits))


def good(name, *edits):
    return (name, 0, list(edits))


RS = "    gguf_qs = gguf_qs.reshape(n_blocks, 2, block_size // 2)\n    packed = gguf_qs[:, 0, :] | (gguf_qs[:, 1, :] << 4)\n"
Q8 = "    gguf_qs = int_codes.clamp(-127, 127).to(torch.int8).view(torch.uint8)\n"
VAL = "            _validate_quantizer(quantizer, quant_format, hf_name)\n"
PERM = "    permuted_codes = codes[row_index].reshape(-1, block_size)\n    permuted_scales = scales[row_index].reshape(-1)\n"
CASES = [
    bad("interleaved nibbles", (P, RS, "    gguf_qs = gguf_qs.reshape(n_blocks, block_size // 2, 2)\n    packed = gguf_qs[:, :, 0] | (gguf_qs[:, :, 1] << 4)\n")),
    bad("nibbles swapped", (P, "gguf_qs[:, 0, :] | (gguf_qs[:, 1, :] << 4)", "gguf_qs[:, 1, :] | (gguf_qs[:, 0, :] << 4)")),
    bad("q4 clamp 14", (P, ".clamp(0, 15)", ".clamp(0, 14)")),
    bad("q4 offset 7", (P, "int_codes.to(torch.int16) + 8", "int_codes.to(torch.int16) + 7")),
    bad("q4 scale bf16", (P, "    d_bytes = scales.to(torch.float16).view(torch.uint8).reshape(n_blocks, 2)\n\n    gguf_qs = (int", "    d_bytes = scales.to(torch.bfloat16).view(torch.uint8).reshape(n_blocks, 2)\n\n    gguf_qs = (int")),
    bad("q4 scale last", (P, "torch.cat([d_bytes, packed], dim=-1)", "torch.cat([packed, d_bytes], dim=-1)")),
    bad("q8 uint8 saturates", (P, Q8, "    gguf_qs = int_codes.clamp(0, 127).to(torch.uint8)\n")),
    bad("q8 no clamp", (P, Q8, "    gguf_qs = int_codes.to(torch.int8).view(torch.uint8)\n")),
    bad("q8 view without cast", (P, Q8, "    gguf_qs = int_codes.clamp(-127, 127).view(torch.uint8)\n")),
    bad("q4 file type", (P, "    file_type=2,", "    file_type=3,")),
    bad("q8 packs q4", (P, "    pack_fn=pack_q8_0_blocks,", "    pack_fn=pack_q4_0_blocks,")),
    bad("one-sided accepted", (X, "if quant_format.symmetric and quantizer.offset is not None and bool(quantizer.offset.any()):", "if False:")),
    bad("offset all", (X, "bool(quantizer.offset.any())", "bool(quantizer.offset.all())")),
    bad("bits at most", (X, "if quantizer.num_bits != quant_format.num_bits:", "if quantizer.num_bits > quant_format.num_bits:")),
    bad("transposed blocks", (X, "if gran.block_dims != (1,) or gran.per_channel_dims != (0,):", "if gran.block_dims != (1,) and gran.per_channel_dims != (0,):")),
    bad("block size divides", (X, "if quant_format.block_size not in gran.block_sizes:", "if gran.block_sizes[0] % quant_format.block_size != 0:")),
    bad("asymmetric format", (X, "if quant_format.symmetric and not quantizer.symmetric:", "if quant_format.symmetric and not quantizer.symmetric and quantizer.num_bits > 4:")),
    bad("root quantizer", (X, 'f"{parent_path}.weight" if parent_path else "weight"', 'f"{parent_path}.weight"')),
    bad("name by replace", (X, '        parent_path, _, _ = result.full_name.rpartition(".")\n        param_name = f"{parent_path}.weight" if parent_path else "weight"\n', '        param_name = result.full_name.replace("_quantizer", "")\n')),
    bad("first part", (X, 'result.full_name.rpartition(".")', 'result.full_name.partition(".")')),
    bad("module of other", (X, "        quantizer_map[param_name] = quantizer\n", "        quantizer_map[param_name] = result\n")),
    bad("float of quantized", (X, "int_codes = quantized.int_repr().detach().cpu()", "int_codes = quantized.dequantize().detach().cpu()")),
    bad("tied first", (X, "        if adapter.is_tied(hf_name, config):\n", "        if adapter.is_tied(hf_name, config) or not param.requires_grad:\n")),
    bad("tied loses alias", (X, "        quantizer = quantizer_map.get(hf_name)\n", "        quantizer = quantizer_map.get(hf_name) or next(iter(quantizer_map.values()), None)\n")),
    bad("validate first only", (X, VAL, "            if not extracted:\n                _validate_quantizer(quantizer, quant_format, hf_name)\n")),
    bad("one dim dropped", (X, "        if isinstance(param, torch.nn.UninitializedParameter):\n", "        if isinstance(param, torch.nn.UninitializedParameter) or param.ndim == 1:\n")),
    bad("no recursion", (X, "model.named_parameters()", "model.named_parameters(recurse=False)")),
    bad("rows swapped", (X, "            rows, cols = weight.shape\n", "            cols, rows = weight.shape\n")),
    bad("rope interleave", (A, "index = torch.arange(n_rows).reshape(n_head, 2, n_rows // n_head // 2)", "index = torch.arange(n_rows).reshape(n_head, n_rows // n_head // 2, 2)")),
    bad("rope check", (A, "if n_rows % (n_head * 2) != 0:", "if n_rows % n_head != 0:")),
    bad("k heads", (A, 'n_head_kv = getattr(config, "num_key_value_heads", config.num_attention_heads)\n        row_index = _rope_permute_row_index(tensor.rows, n_head_kv)', "row_index = _rope_permute_row_index(tensor.rows, config.num_attention_heads)")),
    bad("scales unpermuted", (A, PERM, "    permuted_codes = codes[row_index].reshape(-1, block_size)\n    permuted_scales = scales.reshape(-1)\n")),
    bad("scales by column", (A, "permuted_scales = scales[row_index].reshape(-1)", "permuted_scales = scales[row_index].T.reshape(-1)")),
    bad("single digit layers", (A, r'_Q_PROJ_RE = re.compile(r"model\.layers\.\d+\.', r'_Q_PROJ_RE = re.compile(r"model\.layers\.\d\.')),
    bad("lora permuted", (A, r'q_proj\.weight$")' + "\n_K", r'q_proj\.weight")' + "\n_K")),
    bad("transform on original", (S, "            tensor = transform(tensor, config, quant_format)\n        transformed.append(tensor)\n", "            result = transform(tensor, config, quant_format)\n        transformed.append(result if adapter.transforms else tensor)\n")),
    bad("transforms reversed", (S, "for transform in adapter.transforms:", "for transform in reversed(adapter.transforms):")),
    bad("per transform copies", (S, "            tensor = transform(tensor, config, quant_format)\n        transformed.append(tensor)\n", "            tensor = transform(tensor, config, quant_format)\n            transformed.append(tensor)\n")),
    bad("collision", (S, "        if gguf_name in hf_names:\n", "        if not gguf_name:\n")),
    bad("unmapped stops", (S, "        if gguf_name is None:\n            continue\n", "        if gguf_name is None or tensor.kind == \"float\" and tensor.rows == 1:\n            continue\n")),
    bad("name of hf", (S, "named.append(replace(tensor, gguf_name=gguf_name))", "named.append(replace(tensor, gguf_name=tensor.hf_name))")),
    bad("blocks transposed", (S, "tensor.int_codes.reshape(-1, block_size)", "tensor.int_codes.reshape(block_size, -1).T")),
    bad("scales transposed", (S, "tensor.scales.reshape(-1)", "tensor.scales.T.reshape(-1)")),
    bad("packed flat", (S, "packed.reshape(tensor.rows, -1)", "packed.reshape(-1, tensor.rows)")),
    bad("by hf name", (S, "float_tensors[tensor.gguf_name]", "float_tensors[tensor.hf_name]")),
    bad("float among quantized", (S, "            float_tensors[tensor.gguf_name] = tensor.float_data", "            quantized[tensor.gguf_name] = tensor.float_data")),
    bad("not closed on error", (S, "    finally:\n        writer.close()\n", "    except ValueError:\n        writer.close()\n        raise\n    writer.close()\n")),
    bad("default float type", (S, "            float_type = _resolve_float_type(gguf_name, adapter)\n", "            float_type = adapter.float_type\n")),
    bad("declared type", (S, "raw_dtype=GGMLQuantizationType[float_type])", "raw_dtype=GGMLQuantizationType[adapter.float_type])")),
    bad("raw type missing", (S, "writer.add_tensor(gguf_name, block_bytes.numpy(), raw_dtype=raw_dtype)", "writer.add_tensor(gguf_name, block_bytes.numpy())")),
    bad("kv after tensors", (S, "        writer.write_kv_data_to_file()\n        writer.write_tensors_to_file()\n", "        writer.write_tensors_to_file()\n        writer.write_kv_data_to_file()\n")),
    bad("vocab only float", (S, "        if tokenizer is not None:\n", "        if tokenizer is not None and packed[\"quantized\"]:\n")),
    bad("partial override", (S, "re.fullmatch(pattern, gguf_name)", "re.match(pattern, gguf_name)")),
    bad("bf16 dtype", (S, '    "BF16": torch.bfloat16,', '    "BF16": torch.float16,')),
    bad("f16 bytes", (S, '_RAW_BYTE_TYPES = frozenset({"BF16"})', '_RAW_BYTE_TYPES = frozenset({"BF16", "F16"})')),
    bad("o_proj as v", (N, '"blk.{}.attn_output.weight"', '"blk.{}.attn_v.weight"')),
    bad("gate up swapped", (N, 'mlp\\.gate_proj\\.weight$": "blk.{}.ffn_gate.weight"', 'mlp\\.gate_proj\\.weight$": "blk.{}.ffn_up.weight"')),
    bad("unescaped dot", (N, r'r"model\.layers\.(\d+)\.input_layernorm\.weight$"', r'r"model\.layers\.(\d+).input_layernorm\.weight$"')),
    bad("search", (N, "match = pattern.match(hf_name)", "match = pattern.search(hf_name)")),
    bad("qwen3 map without norms", (N, "qwen3_name_map: _NameMapT = _build_name_map({**_COMMON_LAYER_PATTERNS, **_QWEN3_EXTRA_PATTERNS})", "qwen3_name_map: _NameMapT = _build_name_map({**_COMMON_LAYER_PATTERNS})")),
    bad("tied inverted", (D, 'if not getattr(config, "tie_word_embeddings", False):', 'if getattr(config, "tie_word_embeddings", False):')),
    bad("kv head count", (A, 'writer.add_head_count_kv(getattr(config, "num_key_value_heads", config.num_attention_heads))', "writer.add_head_count_kv(config.num_attention_heads)")),
    bad("ffn length", (A, "writer.add_feed_forward_length(config.intermediate_size)", "writer.add_feed_forward_length(config.hidden_size)")),
    bad("head dim missing", (A, "        writer.add_value_length(head_dim)\n", "")),
    bad("vocab length", (V, "for token_id in range(vocab_size):", "for token_id in range(len(vocab)):")),
    bad("token order", (V, "    for token_id in range(vocab_size):\n        if token_id in id_to_token:\n            token = id_to_token[token_id]\n", "    for token_id in range(vocab_size):\n        if token_id in id_to_token:\n            token = list(vocab)[token_id]\n")),
    bad("added control", (V, "                token_types.append(int(TokenType.USER_DEFINED))", "                token_types.append(int(TokenType.CONTROL))")),
    bad("added before special", (V, "            if token_id in special_token_ids:\n                token_types.append(int(TokenType.CONTROL))\n            elif token in added_vocab:\n                token_types.append(int(TokenType.USER_DEFINED))\n", "            if token in added_vocab:\n                token_types.append(int(TokenType.USER_DEFINED))\n            elif token_id in special_token_ids:\n                token_types.append(int(TokenType.CONTROL))\n")),
    bad("same pads", (V, 'tokens.append(f"[PAD{token_id}]")', 'tokens.append("[PAD]")')),
    bad("unused type missing", (V, "            token_types.append(int(TokenType.UNUSED))\n", "")),
    bad("all special", (V, '        if getattr(token_obj, "special", False):\n            special_token_ids.add(token_id)\n', "        special_token_ids.add(token_id)\n")),
    bad("temporary directory gone", (V, "        special_vocab = SpecialVocab(model_dir, load_merges=True)\n        special_vocab.add_to_gguf(writer)\n", "    special_vocab = SpecialVocab(model_dir, load_merges=True)\n    special_vocab.add_to_gguf(writer)\n")),
    good("chunked nibbles", (P, RS, "    low, high = gguf_qs.chunk(2, dim=-1)\n    packed = low | (high << 4)\n")),
    good("nibbles by slices", (P, RS, "    half = block_size // 2\n    packed = gguf_qs[:, :half] + gguf_qs[:, half:] * 16\n")),
    good("shared scale helper", (P, "def pack_q4_0_blocks(", "def _scale_bytes(scales: torch.Tensor) -> torch.Tensor:\n    return scales.half().view(torch.uint8).reshape(-1, 2)\n\n\ndef pack_q4_0_blocks("), (P, "    d_bytes = scales.to(torch.float16).view(torch.uint8).reshape(n_blocks, 2)\n\n    gguf_qs = (int", "    d_bytes = _scale_bytes(scales)\n\n    gguf_qs = (int")),
    good("q8 arithmetic", (P, Q8, "    gguf_qs = int_codes.to(torch.int16).clamp(min=-127, max=127).to(torch.uint8)\n")),
    good("clamp first", (P, "(int_codes.to(torch.int16) + 8).clamp(0, 15).to(torch.uint8)", "int_codes.to(torch.int16).clamp(-8, 7).add(8).to(torch.uint8)")),
    good("offset nonzero", (X, "bool(quantizer.offset.any())", "bool((quantizer.offset != 0).any())")),
    good("block sizes tuple", (X, "if quant_format.block_size not in gran.block_sizes:", "if gran.block_sizes != (quant_format.block_size,):")),
    good("two granularity tests", (X, "if gran.block_dims != (1,) or gran.per_channel_dims != (0,):", "if not (gran.block_dims == (1,) and gran.per_channel_dims == (0,)):")),
    good("name by split", (X, '        parent_path, _, _ = result.full_name.rpartition(".")\n        param_name = f"{parent_path}.weight" if parent_path else "weight"\n', '        path = result.full_name.split(".")\n        param_name = ".".join(path[:-1] + ["weight"])\n')),
    good("membership lookup", (X, "        quantizer = quantizer_map.get(hf_name)\n        if quantizer is not None:\n", "        if hf_name in quantizer_map:\n            quantizer = quantizer_map[hf_name]\n")),
    good("extraction helper", (X, "def extract_module_tensors(", "def _float_tensor(hf_name: str, param: torch.Tensor) -> ExtractedTensor:\n    data = param.data.detach().float().cpu()\n    return ExtractedTensor(hf_name=hf_name, kind=\"float\", rows=data.shape[0], float_data=data)\n\n\ndef extract_module_tensors("), (X, "            data = param.data.detach().cpu().float()\n            extracted.append(\n                ExtractedTensor(\n                    hf_name=hf_name,\n                    kind=\"float\",\n                    rows=data.shape[0],\n                    float_data=data,\n                )\n            )\n", "            extracted.append(_float_tensor(hf_name, param))\n")),
    good("transpose", (A, "index.swapaxes(1, 2).reshape(n_rows).contiguous()", "index.transpose(1, 2).flatten()")),
    good("head dim name", (A, "    index = torch.arange(n_rows).reshape(n_head, 2, n_rows // n_head // 2)\n", "    half = n_rows // (2 * n_head)\n    index = torch.arange(n_rows).view(n_head, 2, half)\n")),
    good("codes by rows", (A, "    codes = tensor.int_codes.reshape(tensor.rows, blocks_per_row, block_size)\n", "    codes = tensor.int_codes.reshape(tensor.rows, -1)\n")),
    good("select heads", (A, "    if _Q_PROJ_RE.match(tensor.hf_name):\n        row_index = _rope_permute_row_index(tensor.rows, config.num_attention_heads)\n    elif _K_PROJ_RE.match(tensor.hf_name):\n        n_head_kv = getattr(config, \"num_key_value_heads\", config.num_attention_heads)\n        row_index = _rope_permute_row_index(tensor.rows, n_head_kv)\n    else:\n        return tensor\n\n    return _apply", "    if _Q_PROJ_RE.match(tensor.hf_name):\n        heads = config.num_attention_heads\n    elif _K_PROJ_RE.match(tensor.hf_name):\n        heads = getattr(config, \"num_key_value_heads\", config.num_attention_heads)\n    else:\n        return tensor\n\n    row_index = _rope_permute_row_index(tensor.rows, heads)\n    return _apply")),
    good("transform helper", (S, "        for transform in adapter.transforms:\n            tensor = transform(tensor, config, quant_format)\n        transformed.append(tensor)\n", "        current = tensor\n        for transform in adapter.transforms:\n            current = transform(current, config, quant_format)\n        transformed.append(current)\n")),
    good("positive name test", (S, "        if gguf_name is None:\n            continue\n        if gguf_name in hf_names:\n", "        if gguf_name is None:\n            continue\n        elif gguf_name in hf_names:\n")),
    good("pack float first", (S, "        if tensor.kind == \"quantized\":\n            assert tensor.int_codes is not None and tensor.scales is not None\n            int_codes = tensor.int_codes.reshape(-1, block_size)\n            scales = tensor.scales.reshape(-1)\n            packed = quant_format.pack_fn(int_codes, scales)\n            quantized[tensor.gguf_name] = packed.reshape(tensor.rows, -1)\n        else:\n            assert tensor.float_data is not None\n            float_tensors[tensor.gguf_name] = tensor.float_data\n", "        if tensor.kind != \"quantized\":\n            assert tensor.float_data is not None\n            float_tensors[tensor.gguf_name] = tensor.float_data\n            continue\n        assert tensor.int_codes is not None and tensor.scales is not None\n        packed = quant_format.pack_fn(tensor.int_codes.reshape(-1, block_size), tensor.scales.flatten())\n        quantized[tensor.gguf_name] = packed.reshape(tensor.rows, -1)\n")),
    good("float helper", (S, "            float_type = _resolve_float_type(gguf_name, adapter)\n            data = _cast_float(float_data, float_type)\n            writer.add_tensor(gguf_name, data.numpy(), raw_dtype=GGMLQuantizationType[float_type])\n", "            _add_float(writer, gguf_name, float_data, adapter)\n"), (S, "def _resolve_float_type(", "def _add_float(writer: GGUFWriter, name: str, values: torch.Tensor, adapter: ArchAdapter) -> None:\n    float_type = _resolve_float_type(name, adapter)\n    raw = GGMLQuantizationType[float_type]\n    writer.add_tensor(name, _cast_float(values, float_type).numpy(), raw_dtype=raw)\n\n\ndef _resolve_float_type(")),
    good("cast inline view", (S, "    result = data.to(_FLOAT_DTYPES[target_type])\n    if target_type in _RAW_BYTE_TYPES:\n        result = result.view(torch.uint8)\n    return result", "    dtype = _FLOAT_DTYPES[target_type]\n    if target_type in _RAW_BYTE_TYPES:\n        return data.to(dtype).view(torch.uint8)\n    return data.to(dtype)")),
    good("items tuple", (N, "        if hf_name in _STATIC_MAP:\n            return _STATIC_MAP[hf_name]\n        for pattern, template in compiled:\n            match = pattern.match(hf_name)\n            if match:\n                return template.format(match.group(1))\n", "        if hf_name in _STATIC_MAP:\n            return _STATIC_MAP[hf_name]\n        for pattern, template in compiled:\n            match = pattern.fullmatch(hf_name)\n            if match is not None:\n                return template.format(match[1])\n")),
    good("metadata order", (A, "    writer.add_context_length(config.max_position_embeddings)\n    writer.add_embedding_length(config.hidden_size)\n", "    writer.add_embedding_length(config.hidden_size)\n    writer.add_context_length(config.max_position_embeddings)\n")),
    good("vocab get", (V, "        if token_id in id_to_token:\n            token = id_to_token[token_id]\n", "        token = id_to_token.get(token_id)\n        if token is not None:\n")),
    good("vocab type first", (V, "            if token_id in special_token_ids:\n                token_types.append(int(TokenType.CONTROL))\n            elif token in added_vocab:\n                token_types.append(int(TokenType.USER_DEFINED))\n            else:\n                token_types.append(int(TokenType.NORMAL))\n", "            kind = TokenType.NORMAL\n            if token_id in special_token_ids:\n                kind = TokenType.CONTROL\n            elif token in added_vocab:\n                kind = TokenType.USER_DEFINED\n            token_types.append(int(kind))\n")),
]
