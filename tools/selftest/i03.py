AQ = "_autoquant/"
A, B, F, T = AQ + "autoquant.py", AQ + "pybuilder/builder.py", AQ + "function_context.py", "type_common.py"


def bad(name, *edits):
    return (name, 1, list(edits))


def good(name, *edits):
    return (name, 0, list(edits))


CASES = [
    bad("methods renamed", (A, "        if func_builder.origin.method_type is MethodType.NO_METHOD:\n            preferred", "        if func_builder.origin.method_type is not MethodType.NO_METHOD:\n            preferred")),
    bad("name of a class", (A, "    used_global_names = {cls_builder.name for cls_builder in builder.classes()}\n", "    used_global_names: set[str] = set()\n")),
    bad("name forgotten", (A, "            used_global_names.add(new_name)\n", "")),
    bad("called by preferred", (A, "            helper_function_names[func_ref] = libcst.Name(new_name)\n", "            helper_function_names[func_ref] = libcst.Name(preferred_name)\n")),
    bad("attributes renamed", (A, "        self._inside_attr.add(id(node.attr))\n", "        self._inside_attr.add(id(node))\n")),
    bad("attributes only", (A, "        if id(original_node) in self._inside_attr:\n", "        if id(original_node) not in self._inside_attr:\n")),
    bad("old call", (A, "        if original_node.func_ref in self._func_rename_map:\n", "        if original_node.func_ref not in self._func_rename_map:\n"), (A, "self._func_rename_map[original_node.func_ref]\n\n        return nodes", "updated_node.func\n\n        return nodes")),
    bad("owner by name", (A, "            if _unwrap_method_owner_member(member) is func:\n                return owner, name", "            if name == func.__name__:\n                return owner, name")),
    bad("first member", (A, "            if member is func:\n", "            if callable(member):\n")),
    bad("method of any object", (A, "                if obj != ctx.instance_var and obj not in module_refs:\n                    continue\n\n                if ff", "                if ff")),
    bad("methods left", (A, "                if ff.type_common.method_type(ModuleType, attr) is not MethodType.NO_METHOD:\n                    yield", "                if ff.type_common.method_type(ModuleType, attr) is MethodType.METHOD and obj != ctx.instance_var:\n                    yield")),
    bad("operator converted", (A, "                    if ref in operator_table:\n                        continue\n\n                    alias = None\n", "                    alias = None\n")),
    bad("bypassed converted", (A, "                # Bypass ops must be preserved as-is and never descended into.\n                if is_bypassed_callable(ref):\n                    continue\n\n                alias", "                alias")),
    bad("methods twice", (A, "                if cls_builder.has_method(func_name):\n", "                if False:\n")),
    good("unique name helper", (A, "def _disambiguate_imports(", "def _unused_name(preferred: str, used: set[str]) -> str:\n    name, suffix = preferred, 2\n    while name in used:\n        name = f\"{preferred}_{suffix}\"\n        suffix += 1\n    used.add(name)\n    return name\n\n\ndef _disambiguate_imports("),
         (A, "            preferred_name = f\"quantized_{func_builder.name}\"\n            new_name = preferred_name\n            suffix = 2\n            while new_name in used_global_names:\n                new_name = f\"{preferred_name}_{suffix}\"\n                suffix += 1\n\n            used_global_names.add(new_name)\n", "            new_name = _unused_name(f\"quantized_{func_builder.name}\", used_global_names)\n")),
    good("names by update", (A, "    used_global_names = {cls_builder.name for cls_builder in builder.classes()}\n", "    used_global_names: set[str] = set()\n    for cls_builder in builder.classes():\n        used_global_names.add(cls_builder.name)\n")),
    good("leave name turned round", (A, "        if id(original_node) in self._inside_attr:\n            return updated_node\n        if replacement := self._name_map.get(updated_node.value):\n            return replacement.deep_clone()\n        return updated_node\n", "        name = updated_node.value\n        if id(original_node) in self._inside_attr or name not in self._name_map:\n            return updated_node\n        return self._name_map[name].deep_clone()\n")),
    good("call renamed by get", (A, "        if original_node.func_ref in self._func_rename_map:\n            params[\"func\"] = self._func_rename_map[original_node.func_ref]\n", "        params[\"func\"] = self._func_rename_map.get(original_node.func_ref, updated_node.func)\n")),
    good("member name by next", (A, "        for name, member in module_dict.items():\n            if member is func:\n                return cast(str, name)\n\n    return accessed_name\n", "        return next((name for name, member in module_dict.items() if member is func), accessed_name)\n\n    return accessed_name\n")),
    good("owner in one loop body", (A, "        owner_member = _unwrap_method_owner_member(owner.__dict__.get(accessed_name, None))\n        if owner_member is func:\n            return owner, accessed_name\n", "        if _unwrap_method_owner_member(vars(owner).get(accessed_name)) is not func:\n            continue\n        return owner, accessed_name\n")),
    good("dependent methods flat", (A, "                if obj != ctx.instance_var and obj not in module_refs:\n                    continue\n\n                if ff.type_common.method_type(ModuleType, attr) is not MethodType.NO_METHOD:\n                    yield _AqTask(module=ModuleType, function=getattr(ModuleType, attr), alias=attr)\n", "                on_module = obj == ctx.instance_var or obj in module_refs\n                if not on_module:\n                    continue\n                if ff.type_common.method_type(ModuleType, attr) is MethodType.NO_METHOD:\n                    continue\n                method = getattr(ModuleType, attr)\n                yield _AqTask(method, ModuleType, attr)\n")),
    good("dependent methods one set", (A, "                if obj != ctx.instance_var and obj not in module_refs:\n                    continue\n\n                if ff", "                if obj not in {ctx.instance_var, *module_refs}:\n                    continue\n\n                if ff")),
    good("converted already helper", (A, "        if any(b.origin.func is task.function for b in module_builder.functions()):\n", "        converted = [b.origin.func for b in module_builder.functions()]\n        if any(func is task.function for func in converted):\n")),
    good("queue by comprehension", (A, "    func_queue = collections.deque[_AqTask]()\n    for mod in _find_unquantized_submodules(module, pre_quantized_modules):\n        mod_type = type(mod)\n        # Keep the accessed member name stable even when the underlying\n        # function object comes from an inherited/aliased implementation.\n        func_queue.append(_AqTask(module=mod_type, function=mod_type.forward, alias=\"forward\"))\n", "    func_queue = collections.deque(\n        _AqTask(module=mod_type, function=mod_type.forward, alias=\"forward\")\n        for mod_type in unquantized_module_types\n    )\n")),
    good("operator check helper", (A, "def _scope_vars_and_module_refs(", "def _is_leaf(ref: Any, operator_table: optable.OperatorTable) -> bool:\n    return is_bypassed_callable(ref) or ref in operator_table\n\n\ndef _scope_vars_and_module_refs("),
         (A, "                    if is_bypassed_callable(ref):\n                        continue\n                    # Only queue", "                    if _is_leaf(ref, operator_table):\n                        continue\n                    # Only queue"),
         (A, "                    if ref in operator_table:\n                        continue\n\n                    alias = None\n", "                    alias = None\n")),
    bad("asked by function name", (A, "                if cls_builder.has_method(func_name):\n", "                if cls_builder.has_method(task.function.__name__):\n")),
    good("asked first", (A, "                if cls_builder.has_method(func_name):\n                    continue\n", "                known = cls_builder.has_method(func_name)\n                if known:\n                    continue\n")),
    bad("static is method", (T, "        case type(), staticmethod():\n            return MethodType.STATIC_METHOD", "        case type(), staticmethod():\n            return MethodType.METHOD")),
    bad("static forgotten", (T, "        case type(), staticmethod():\n            return MethodType.STATIC_METHOD\n", "")),
    bad("kind of bound", (T, "match cls_or_module, cls_or_module.__dict__.get(method_name, None):", "match cls_or_module, getattr(cls_or_module, method_name, None):")),
    bad("inherited function", (F, "        if meth_type is MethodType.NO_METHOD:\n", "        if meth_type is MethodType.STATIC_METHOD:\n")),
    bad("base methods only", (F, "                if owner_meth_type is not MethodType.NO_METHOD:\n", "                if owner_meth_type is MethodType.METHOD:\n")),
    bad("first base", (F, "                if owner_meth_type is not MethodType.NO_METHOD:\n                    meth_type", "                if owner is not module:\n                    meth_type")),
    bad("class and instance", (F, "            class_var = param if meth_type is MethodType.CLASS_METHOD else None\n", "            class_var = param\n")),
    bad("swapped", (F, "            instance_var = param if meth_type is MethodType.METHOD else None\n            class_var = param if meth_type is MethodType.CLASS_METHOD else None\n", "            instance_var = param if meth_type is MethodType.CLASS_METHOD else None\n            class_var = param if meth_type is MethodType.METHOD else None\n")),
    bad("methods only", (F, "        if meth_type in (MethodType.METHOD, MethodType.CLASS_METHOD):\n", "        if meth_type is MethodType.METHOD:\n")),
    bad("kind by function name", (F, "        lookup_name = member_name or func_ref.__name__\n", "        lookup_name = func_ref.__name__\n")),
    bad("bound function", (F, "            func_ref = func_ref.__func__ if isinstance(func_ref, types.MethodType) else func_ref\n\n            param", "            param")),
    bad("member name dropped", (F, "getattr(module, name), module, member_name=name)", "getattr(module, name), module)")),
    bad("module lost", (F, "            py_module=module,\n            func=func_ref,", "            func=func_ref,")),
    bad("type of class", (F, "            return cls._from_torch_module(module, func_ref, member_name)\n        elif isinstance(module, types", "            return cls._from_torch_module(type(module), func_ref, member_name)\n        elif isinstance(module, types")),
    good("kinds by if", (T, "    match cls_or_module, cls_or_module.__dict__.get(method_name, None):\n        case type(), classmethod():\n            return MethodType.CLASS_METHOD\n        case type(), staticmethod():\n            return MethodType.STATIC_METHOD\n        case type(), types.FunctionType():\n            return MethodType.METHOD\n        case _:\n            return MethodType.NO_METHOD\n",
         "    member = vars(cls_or_module).get(method_name)\n    if not isinstance(cls_or_module, type):\n        return MethodType.NO_METHOD\n    if isinstance(member, classmethod):\n        return MethodType.CLASS_METHOD\n    if isinstance(member, staticmethod):\n        return MethodType.STATIC_METHOD\n    return MethodType.METHOD if isinstance(member, types.FunctionType) else MethodType.NO_METHOD\n")),
    good("kind along the mro", (F, "        meth_type = method_type(module, lookup_name)\n        if meth_type is MethodType.NO_METHOD:\n            # `method_type` only checks attributes directly on the type. For\n            # inherited alias methods (e.g. `forward = helper` on a base class),\n            # resolve method semantics through the MRO.\n            for owner in module.__mro__[1:]:\n                owner_meth_type = method_type(owner, lookup_name)\n                if owner_meth_type is not MethodType.NO_METHOD:\n                    meth_type = owner_meth_type\n                    break\n",
         "        meth_type = MethodType.NO_METHOD\n        for owner in module.__mro__:\n            meth_type = method_type(owner, lookup_name)\n            if meth_type is not MethodType.NO_METHOD:\n                break\n")),
    good("kind helper", (F, "        lookup_name = member_name or func_ref.__name__\n        meth_type = method_type(module, lookup_name)\n", "        lookup_name = func_ref.__name__ if member_name is None else member_name\n        meth_type = method_type(module, lookup_name)\n")),
    good("first parameter by kind", (F, "        instance_var, class_var = None, None\n        if meth_type in (MethodType.METHOD, MethodType.CLASS_METHOD):\n            # Get the underlying function object from a method\n            func_ref = func_ref.__func__ if isinstance(func_ref, types.MethodType) else func_ref\n\n            param = next(iter(inspect.signature(func_ref).parameters), None)\n            instance_var = param if meth_type is MethodType.METHOD else None\n            class_var = param if meth_type is MethodType.CLASS_METHOD else None\n",
         "        instance_var = class_var = None\n        if meth_type is MethodType.METHOD or meth_type is MethodType.CLASS_METHOD:\n            if isinstance(func_ref, types.MethodType):\n                func_ref = func_ref.__func__\n            parameters = list(inspect.signature(func_ref).parameters)\n            first = parameters[0] if parameters else None\n            if meth_type is MethodType.METHOD:\n                instance_var = first\n            else:\n                class_var = first\n")),
    good("module kind", (F, "        if isinstance(module, torch.nn.Module):\n            return cls._from_torch_module(type(module), func_ref, member_name)\n        elif isinstance(module, type) and issubclass(module, torch.nn.Module):\n            return cls._from_torch_module(module, func_ref, member_name)\n",
         "        if isinstance(module, torch.nn.Module):\n            module = type(module)\n        if isinstance(module, type) and issubclass(module, torch.nn.Module):\n            return cls._from_torch_module(module, func_ref, member_name)\n")),
]
