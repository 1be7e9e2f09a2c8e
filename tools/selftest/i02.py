AQ = "_autoquant/"
A, C, B, F = AQ + "autoquant.py", AQ + "pybuilder/quantizer_collection.py", AQ + "pybuilder/builder.py", AQ + "function_context.py"


def bad(name, *edits):
    return (name, 1, list(edits))


def good(name, *edits):
    return (name, 0, list(edits))


CASES = [
    # numbers and contexts
    bad("number reused", (C, "        self._next_ref_id += 1\n", "")),
    bad("reference without number", (C, "        return nodes.QuantizerReference(name, refid=refid)\n\n    def create_quantizer_expression", "        return nodes.QuantizerReference(name, refid=0)\n\n    def create_quantizer_expression")),
    bad("metadata under other number", (C, "        self._quantizer_metadata[refid] = QuantizerMetadata(", "        self._quantizer_metadata[self._next_ref_id] = QuantizerMetadata(")),
    bad("context lost", (C, "            context=self._quantization_context,\n", "            context=None,\n")),
    bad("expression is reference", (C, "        if ctx is None or ctx.method_type is not MethodType.METHOD:\n            return ref", "        if ctx is None or ctx.method_type is not MethodType.CLASS_METHOD:\n            return ref")),
    bad("context not restored", (C, "            self._quantization_context = original_context\n", "            self._quantization_context = None\n")),
    bad("context restored on success only", (C, "        try:\n            yield\n        finally:\n            self._quantization_context = original_context\n", "        yield\n        self._quantization_context = original_context\n")),
    good("context renamed", (C, "        original_context = self._quantization_context\n        self._quantization_context = context\n        try:\n            yield\n        finally:\n            self._quantization_context = original_context\n",
                             "        previous, self._quantization_context = self._quantization_context, context\n        try:\n            yield\n        finally:\n            self._quantization_context = previous\n")),
    # grouping and naming
    bad("methods by function", (C, "quantizer_name_groups[ctx.torch_module][metadata.name]", "quantizer_name_groups[ctx.func][metadata.name]")),
    bad("functions by number", (C, "quantizer_name_groups[ctx.func][metadata.name]", "quantizer_name_groups[metadata.refid][metadata.name]")),
    bad("group by name only", (C, "        for group in quantizer_name_groups.values():\n            used_names: set[str] = set()\n            for name, name_metadata in group.items():\n", "        for group in quantizer_name_groups.values():\n            for name, name_metadata in group.items():\n                used_names: set[str] = set()\n")),
    bad("names not remembered", (C, "                    used_names.add(unique_name)\n", "")),
    bad("preferred name stays", (C, "                    metadata.disambiguated_name = unique_name\n", "                    metadata.disambiguated_name = preferred_name\n")),
    good("names counted from 1", (C, 'full_name = f"{full_name}_{idx + 1}"', 'full_name = f"{full_name}_{1 + idx}"')),
    bad("looked up by name", (C, "            metadata = self._quantizer_metadata[ref]\n", "            metadata = self._quantizer_metadata[0]\n")),
    bad("raw name", (C, "        return metadata.disambiguated_name\n", "        return metadata.name\n")),
    # belonging
    bad("local of methods", (C, "            if ctx.method_type is MethodType.METHOD:\n                # Instance methods have no local quantizers as all quantizers\n                # are defined on the instance.\n                continue\n\n", "")),
    bad("local of any", (C, "            if ctx is None or ctx.func is not func:\n", "            if ctx is None:\n")),
    bad("local forwarded", (C, "            if call_site is not None and call_site.func is not func:\n", "            if call_site is not None and call_site.func is func:\n")),
    bad("instance of any module", (C, "                and ctx.torch_module is module\n", "")),
    bad("instance of static", (C, "                and ctx.method_type is MethodType.METHOD\n            ):\n                yield", "            ):\n                yield")),
    good("instance nested", (C, "            if (\n                ctx is not None\n                and ctx.torch_module is module\n                and ctx.method_type is MethodType.METHOD\n            ):\n                yield", "            if ctx is None or ctx.torch_module is not module:\n                continue\n            if ctx.method_type is MethodType.METHOD:\n                yield")),
    # declarations
    bad("declared for other", (B, "quantizer_refs.instance_quantizers_for_module(self._counterpart_type)", "quantizer_refs.instance_quantizers_for_module(type(self._counterpart_type))")),
    bad("super not initialized", (B, '        body_statements = [libcst.parse_statement(f"super().{self.name}()")]\n', "        body_statements = []\n")),
    bad("declared under name", (B, "                name=ref,\n", "                name=libcst.Name(ref.value),\n")),
    bad("init left out", (B, "        methods = [init_quant_method] + self._methods\n", "        methods = self._methods or [init_quant_method]\n")),
    bad("bases the other way", (B, '        bases = ("fastforward.nn.QuantizedModule",) + self._bases\n', '        bases = self._bases + ("fastforward.nn.QuantizedModule",)\n')),
    good("methods unpacked", (B, "        methods = [init_quant_method] + self._methods\n", "        methods = [init_quant_method, *self._methods]\n")),
    # imports
    bad("imports of last statement", (B, "                required_imports |= set(imports)\n", "                required_imports = set(imports)\n")),
    bad("imports of class only", (B, "        for method in self._methods:\n            required_imports |= set(method.required_imports)\n", "")),
    bad("fallback skipped", (B, "                yield import_symbol.as_fallback_node()\n", "                continue\n")),
    bad("classes without functions", (B, "            yield from clsbuilder.methods()\n\n    def quantized_functions", "            yield from ()\n\n    def quantized_functions")),
    bad("quantized methods skipped", (B, "                if isinstance(method, QuantizedFunctionBuilder):\n                    yield method\n", "                if not isinstance(method, QuantizedFunctionBuilder):\n                    yield method\n")),
    # parameters and printing
    bad("parameters replaced", (B, "    kwonly_params = tuple(funcdef.params.kwonly_params) + tuple(quant_params)\n", "    kwonly_params = tuple(quant_params)\n")),
    bad("first parameter only", (B, "for arg in args\n    ]", "for arg in args[:1]\n    ]")),
    bad("names not resolved", (B, "        funcdef = cast(\n            libcst.FunctionDef, funcdef.visit(_DisambiguateQuantizerNameTransformer(quantizer_refs))\n        )\n        assert", "        assert")),
    bad("printed raw", (B, "            disambiguated_name = self._quantizer_refs.disambiguate_reference(updated_node)\n        except", "            self._quantizer_refs.disambiguate_reference(updated_node)\n            disambiguated_name = updated_node.value\n        except")),
    # classes and imports of modules
    bad("class name not remembered", (A, "        if preferred not in used_names:\n            used_names.add(preferred)\n", "        if preferred not in used_names:\n")),
    bad("two pools", (A, "self._alloc_unique_name(preferred_base_alias, self._used_names)", "self._alloc_unique_name(preferred_base_alias, set())")),
    bad("import not aliased", (A, "            ImportSymbol(name=base_class_name, module=base_module_name, asname=import_alias),", "            ImportSymbol(name=base_class_name, module=base_module_name, asname=None),")),
    bad("imports not told apart", (A, "    _disambiguate_imports(builder)\n", "")),
    bad("alias without rename", (A, "            _RenameHelperRefsTransformer(renames, func_builder.cst)\n", "            _RenameHelperRefsTransformer({}, func_builder.cst)\n")),
    bad("imports dropped", (A, "            else imp\n            for imp in func_builder.required_imports\n        )", "            else imp\n            for imp in func_builder.required_imports\n            if imp.local_name in renames\n        )")),
    bad("any imports are same", (A, "== 1 and bool(second)", ">= 1 and bool(second)")),
    bad("overlap is same", (A, "    if first == second:\n        return True\n\n    def", "    if first & second:\n        return True\n\n    def")),
    bad("submodule of quantized", (A, "        if module_type not in discovered_modules:\n            discovered_modules.add(module_type)\n            yield module\n", "        if module_type not in pre_quantized_modules:\n            discovered_modules.add(module_type)\n            yield module\n")),
    bad("direct children", (A, "    for module in torch_module.modules():\n", "    for module in torch_module.children():\n")),
    # discovery and propagation
    bad("methods shared", (A, "            func_ref = types.MethodType(func_ref, funcbuilder)\n", "            pass\n")),
    bad("calls of methods", (A, "            if call_func_context.method_type != MethodType.METHOD:\n                spec.calls", "            if call_func_context.method_type == MethodType.METHOD:\n                spec.calls")),
    bad("no local quantizers", (A, "            spec.local_quantizers.append(_QuantizerRefTrace(src=(func_ref,), ref=ref))\n", "            continue\n")),
    bad("one round", (A, "                    spec.calls[unresolved_call] = new_call_args\n                    changed = True\n", "                    spec.calls[unresolved_call] = new_call_args\n")),
    bad("locals only", (A, "                source_groups.extend(\n                    [arg for arg in callee_args if len(arg.src) > 1]\n                    for callee_args in callee_spec.calls.values()\n                )\n", "")),
    bad("own specs", (A, "                callee_spec = func_specs[call_func_ref]\n", "                callee_spec = spec\n")),
    bad("path not extended", (A, "                            new_src = quant_arg.src + (func_ref,)\n", "                            new_src = quant_arg.src\n")),
    good("group loop", (A, "                source_groups.extend(\n                    [arg for arg in callee_args if len(arg.src) > 1]\n                    for callee_args in callee_spec.calls.values()\n                )\n", "                for callee_args in callee_spec.calls.values():\n                    source_groups.append([arg for arg in callee_args if len(arg.src) > 1])\n")),
    # signatures and calls
    bad("locals not in signature", (A, "            signature.append(arg.ref)\n", "            continue\n")),
    bad("back edge gets parameter", (A, "                    mapped_refs.append(arg.ref)\n                    continue\n", "                    continue\n")),
    bad("created without context", (A, "                with quantizer_refs.push_context(func_contexts[func_ref]):\n                    prefix = \"_\".join(fn.__name__ for fn in reversed(arg.src[:-1]))\n                    name = f\"{prefix}_{arg.ref.value}\"\n                    sigref = quantizer_refs.create_reference(name)\n                signature", "                if True:\n                    prefix = \"_\".join(fn.__name__ for fn in reversed(arg.src[:-1]))\n                    name = f\"{prefix}_{arg.ref.value}\"\n                    sigref = quantizer_refs.create_reference(name)\n                signature")),
    bad("parameter not declared", (A, "                signature.append(sigref)\n", "")),
    bad("map of call lost", (A, "            refs[unresolved_call] = mapped_refs\n", "            refs = {unresolved_call: mapped_refs}\n")),
    bad("signature of caller", (A, "            callee_signature = signatures[unresolved_call.func_ref]\n", "            callee_signature = signatures.get(func_ref, ())\n")),
    bad("first mapped ref", (A, "                        value = caller_mapped_refs[idx]\n", "                        value = caller_mapped_refs[0]\n")),
    bad("keyword is value", (A, "_CallArg(keyword=param, value=value)", "_CallArg(keyword=arg.ref, value=value)")),
    bad("instance reference", (A, "                        value = quantizer_refs.create_quantizer_expression(name)\n", "                        value = quantizer_refs.create_reference(name)\n")),
    bad("used functions removed", (A, "        if not signature:\n            builder.remove_function", "        if signature:\n            builder.remove_function")),
    bad("resolved before propagated", (A, "    _propagate_quantizers(func_specs)\n\n", ""), (A, "    _resolve_calls(quantizer_refs, func_contexts, func_specs, signatures, signature_ref_map, calls)\n", "    _resolve_calls(quantizer_refs, func_contexts, func_specs, signatures, signature_ref_map, calls)\n    _propagate_quantizers(func_specs)\n")),
    bad("signature lost", (A, "        func_builder.quantizer_signature = signatures.get(func_ref, ())\n", "        func_builder.quantizer_signature = ()\n")),
    bad("calls unresolved", (A, "        new_funcdef = func_builder.cst.visit(call_transformer)\n        assert isinstance(new_funcdef, libcst.FunctionDef)\n", "        new_funcdef = func_builder.cst\n")),
    bad("scope per method", (C, "quantizer_name_groups[ctx.torch_module][metadata.name].append", "quantizer_name_groups[(ctx.torch_module, ctx.func)][metadata.name].append")),
    bad("map by callee", (A, "            refs[unresolved_call] = mapped_refs\n", "            refs[unresolved_call.func_ref] = mapped_refs\n"), (A, "signature_ref_map.get(func_ref, {}).get(unresolved_call)\n", "signature_ref_map.get(func_ref, {}).get(unresolved_call.func_ref)\n")),
    bad("dedup across calls", (A, "                for quant_group in source_groups:\n", "                for quant_group in [list(itertools.chain.from_iterable(source_groups))]:\n")),
    bad("imports by name", (B, "                required_imports |= set(imports)\n", "                required_imports |= {imp for imp in imports if imp.name not in {known.name for known in required_imports} or imp.asname is None}\n")),
    # edits that keep the behaviour
    good("expression turned round", (C, "        if ctx is None or ctx.method_type is not MethodType.METHOD:\n            return ref\n        else:\n            # if instance var is unknown, self is a good guess\n            instance_var = ctx.instance_var or \"self\"\n            return libcst.helpers.parse_template_expression(\n                \"{owner}.{quantizer}\", owner=libcst.Name(instance_var), quantizer=ref\n            )\n",
         "        if ctx is not None and ctx.method_type is MethodType.METHOD:\n            owner = libcst.Name(ctx.instance_var or \"self\")\n            return libcst.helpers.parse_template_expression(\n                \"{owner}.{quantizer}\", owner=owner, quantizer=ref\n            )\n        return ref\n")),
    good("group key helper", (C, "            ctx = metadata.context\n            if ctx is None:\n                # When no", "            ctx = metadata.context\n            groups = quantizer_name_groups\n            if ctx is None:\n                # When no")),
    good("locals in one condition", (C, "            if ctx is None or ctx.func is not func:\n                # Context of quantizer is not clear, cannot be determinded to\n                # be a local quantizer of func.\n                continue\n            if ctx.method_type is MethodType.METHOD:\n                # Instance methods have no local quantizers as all quantizers\n                # are defined on the instance.\n                continue\n",
         "            if ctx is None or ctx.func is not func or ctx.method_type is MethodType.METHOD:\n                continue\n")),
    good("prefix helper", (A, "_SignatureRefMap: TypeAlias", "def _prefixed_name(arg: _QuantizerRefTrace) -> str:\n    prefix = \"_\".join(fn.__name__ for fn in reversed(arg.src[:-1]))\n    return f\"{prefix}_{arg.ref.value}\"\n\n\n_SignatureRefMap: TypeAlias"),
         (A, "                    prefix = \"_\".join(fn.__name__ for fn in reversed(arg.src[:-1]))\n                    name = f\"{prefix}_{arg.ref.value}\"\n                    sigref = quantizer_refs.create_reference(name)\n", "                    sigref = quantizer_refs.create_reference(_prefixed_name(arg))\n"),
         (A, "                        prefix = \"_\".join(fn.__name__ for fn in reversed(arg.src[:-1]))\n                        name = f\"{prefix}_{arg.ref.value}\"\n                        value = quantizer_refs.create_quantizer_expression(name)\n", "                        value = quantizer_refs.create_quantizer_expression(_prefixed_name(arg))\n")),
    good("locals by extend", (A, "        signature = []\n        refs = {}\n\n        for arg in spec.local_quantizers:\n            signature.append(arg.ref)\n", "        signature = [arg.ref for arg in spec.local_quantizers]\n        refs = {}\n")),
    good("path turned round", (A, "                        if func_ref in quant_arg.src:\n                            idx = quant_arg.src.index(func_ref)\n                            new_src = quant_arg.src[: idx + 1]\n                        else:\n                            # Extend source path to track propagation chain.\n                            new_src = quant_arg.src + (func_ref,)\n",
         "                        if func_ref not in quant_arg.src:\n                            new_src = (*quant_arg.src, func_ref)\n                        else:\n                            new_src = quant_arg.src[: quant_arg.src.index(func_ref) + 1]\n")),
    good("propagate step", (A, "    # Iterate until no more quantizers need propagation\n    changed = True\n    while changed:\n        changed = False\n", "    while True:\n        changed = False\n"),
         (A, "                    spec.calls[unresolved_call] = new_call_args\n                    changed = True\n", "                    spec.calls[unresolved_call] = new_call_args\n                    changed = True\n        if not changed:\n            break\n")),
    good("resolve arguments helper", (A, "    for func_ref, spec in func_specs.items():\n        is_instance_method = func_contexts[func_ref].method_type == MethodType.METHOD\n", "    for func_ref, spec in func_specs.items():\n        ctx = func_contexts[func_ref]\n        is_instance_method = ctx.method_type == MethodType.METHOD\n")),
    good("discover in one loop header", (A, "            call_func_context = func_contexts[unresolved_call.func_ref]\n            if call_func_context.method_type != MethodType.METHOD:\n                spec.calls[unresolved_call] = []\n", "            if func_contexts[unresolved_call.func_ref].method_type == MethodType.METHOD:\n                continue\n            spec.calls[unresolved_call] = []\n")),
    good("signature removed first", (A, "            builder.remove_function(func_builder_map[func])\n            del func_builder_map[func]\n            del func_specs[func]\n            del signatures[func]\n", "            del signatures[func]\n            del func_specs[func]\n            builder.remove_function(func_builder_map.pop(func))\n")),
    good("imports by comprehension", (B, "        required_imports: set[ImportSymbol] = set(self._required_imports)\n        for method in self._methods:\n            required_imports |= set(method.required_imports)\n        return tuple(required_imports)\n", "        from_methods = {imp for method in self._methods for imp in method.required_imports}\n        return tuple(set(self._required_imports) | from_methods)\n")),
    good("module imports by comprehension", (B, "        required_imports: set[ImportSymbol] = set()\n        for statement in self._statements:\n            if imports := getattr(statement, \"required_imports\", None):\n                required_imports |= set(imports)\n", "        required_imports = {\n            imp\n            for statement in self._statements\n            for imp in getattr(statement, \"required_imports\", None) or ()\n        }\n")),
    good("declarations in a loop", (B, "        body_statements += [\n            libcst.helpers.parse_template_statement(\n                \"self.{name}: fastforward.nn.Quantizer = fastforward.nn.QuantizerStub()\",\n                name=ref,\n            )\n            for ref in quantizer_refs.instance_quantizers_for_module(self._counterpart_type)\n        ]\n",
         "        for ref in quantizer_refs.instance_quantizers_for_module(self._counterpart_type):\n            declaration = libcst.helpers.parse_template_statement(\n                \"self.{name}: fastforward.nn.Quantizer = fastforward.nn.QuantizerStub()\",\n                name=ref,\n            )\n            body_statements.append(declaration)\n")),
    good("parameters in a loop", (B, "    kwonly_params = tuple(funcdef.params.kwonly_params) + tuple(quant_params)\n    func_params = funcdef.params.with_changes(kwonly_params=kwonly_params)\n", "    func_params = funcdef.params.with_changes(\n        kwonly_params=[*funcdef.params.kwonly_params, *quant_params]\n    )\n")),
    good("allocator loop", (A, "        if preferred not in used_names:\n            used_names.add(preferred)\n            return preferred\n\n        index = 1\n        while True:\n            candidate = f\"{preferred}_{index}\"\n            if candidate not in used_names:\n                used_names.add(candidate)\n                return candidate\n            index += 1\n", "        candidate, index = preferred, 0\n        while candidate in used_names:\n            index += 1\n            candidate = f\"{preferred}_{index}\"\n        used_names.add(candidate)\n        return candidate\n")),
    good("submodules by type", (A, "            discovered_modules.add(module_type)\n            yield module\n", "            yield module\n            discovered_modules.add(module_type)\n")),
    # more bugs of the same kinds
    bad("references refused", (C, "        if ref.refid not in self._quantizer_metadata:\n", "        if ref.refid in self._quantizer_metadata:\n")),
    bad("functions bound", (A, "        if funcbuilder.origin.method_type is MethodType.METHOD:\n            # The same", "        if True:\n            # The same")),
    bad("propagated once", (A, "                    spec.calls[unresolved_call] = new_call_args\n                    changed = True\n", "                    spec.calls[unresolved_call] = new_call_args\n                    changed = False\n")),
    bad("nothing propagated", (A, "                        new_call_args.append(_QuantizerRefTrace(src=new_src, ref=quant_arg.ref))\n", "                        pass\n")),
    bad("no step", (A, "    _propagate_quantizers(func_specs)\n\n    # 3", "    # 3")),
    bad("methods sign", (A, "        if func_contexts[func_ref].method_type == MethodType.METHOD:\n            # Instance functions don't", "        if func_contexts[func_ref].func is None:\n            # Instance functions don't")),
    bad("own forwarded", (A, "                if len(arg.src) == 1:\n", "                if False:\n")),
    bad("new references", (A, "                    if caller_mapped_refs is None:\n", "                    if caller_mapped_refs is not None:\n"), (A, "                        value = caller_mapped_refs[idx]\n", "                        value = arg.ref\n")),
    bad("removed still called", (A, "            del func_builder_map[func]\n", "")),
    bad("no importlib", (B, "any(not import_symbol.is_valid() for", "any(import_symbol.is_valid() for")),
    bad("no imports", (B, "                required_imports |= set(imports)\n", "                pass\n")),
    bad("no fastforward", (B, "        required_imports_set.add(ImportSymbol(\"fastforward\"))\n", "")),
    bad("has any method", (B, "any(meth.name == method_name for", "any(meth.name != method_name for")),
    # more edits that keep the behaviour
    good("cleanup extracted", (A, "def _disambiguate_imports(", "def _remove_unquantized(builder, func_builder_map, func_specs, signatures) -> None:\n    for func in [func for func, signature in signatures.items() if not signature]:\n        builder.remove_function(func_builder_map[func])\n        del func_builder_map[func]\n        del func_specs[func]\n        del signatures[func]\n\n\ndef _disambiguate_imports("),
         (A, "    for func, signature in list(signatures.items()):\n        if not signature:\n            builder.remove_function(func_builder_map[func])\n            del func_builder_map[func]\n            del func_specs[func]\n            del signatures[func]\n", "    _remove_unquantized(builder, func_builder_map, func_specs, signatures)\n")),
    good("has method loop", (B, "        return any(meth.name == method_name for meth in self._methods)\n", "        for method in self._methods:\n            if method.name == method_name:\n                return True\n        return False\n")),
    good("has method set", (B, "        return any(meth.name == method_name for meth in self._methods)\n", "        return method_name in {method.name for method in self._methods}\n")),
    good("importlib by all", (B, "        importlib_needed = any(not import_symbol.is_valid() for import_symbol in ordered_imports)\n\n        if importlib_needed:\n", "        if not all(import_symbol.is_valid() for import_symbol in ordered_imports):\n")),
    good("importlib by split", (B, "        importlib_needed = any(not import_symbol.is_valid() for import_symbol in ordered_imports)\n\n        if importlib_needed:\n", "        fallbacks = [imp for imp in ordered_imports if not imp.is_valid()]\n        if fallbacks:\n")),
]
