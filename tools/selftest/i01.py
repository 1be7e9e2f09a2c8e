AQ = "_autoquant/"
P, N, K, V, B, T, O, Q = AQ + "cst/passes.py", AQ + "cst/nodes.py", AQ + "cst/node_creation.py", AQ + "convert.py", AQ + "bypass.py", AQ + "cst/quantizer_analysis/transformer.py", "_quantops/optable.py", AQ + "autoquant.py"


def bad(name, *edits):
    return (name, 1, list(edits))


def good(name, *edits):
    return (name, 0, list(edits))


AUGR = "            right=updated_node.value,\n        )\n        return libcst.Assign("
DEFL = "                return self.original.with_changes(target=self.targets[0], value=self.value)\n"
SKIP = "        libcst.BooleanOperation,\n"
POP = "        top = self._visit_stack.pop()\n        if self._blocks_isolation(top):\n            self._nested_in_no_isolation_subtree -= 1\n"
ENUM = "        for i, node in zip(enumerator, reversed(self._visit_stack)):\n"
CASES = [
    # operator tables
    bad("sub is add", (P, "    libcst.SubtractAssign: libcst.Subtract,", "    libcst.SubtractAssign: libcst.Add,")),
    bad("floor is div", (P, "    libcst.FloorDivideAssign: libcst.FloorDivide,", "    libcst.FloorDivideAssign: libcst.Divide,")),
    bad("modulo is fmod", (O, "    libcst.Modulo: torch.remainder,", "    libcst.Modulo: torch.fmod,")),
    bad("plus is absolute", (O, "    libcst.Plus: torch.positive,", "    libcst.Plus: torch.absolute,")),
    bad("power is float_power", (O, "    libcst.Power: torch.pow,", "    libcst.Power: torch.float_power,")),
    bad("bitinvert logical", (O, "torch.bitwise_not", "torch.logical_not")),
    good("fewer operators", (P, "    libcst.BitXorAssign: libcst.BitXor,\n", "")),
    # augmented assignment
    bad("operands swapped", (P, "            left=target.deep_clone(),\n            operator=binary_op_cls(),\n            right=updated_node.value,", "            left=updated_node.value,\n            operator=binary_op_cls(),\n            right=target.deep_clone(),")),
    bad("semicolon target lost", (P, "targets=(libcst.AssignTarget(target=target),),\n            value=binary_operation", "targets=(libcst.AssignTarget(target=libcst.Name(\"_\")),),\n            value=binary_operation")),
    good("target first", (P, "        target = updated_node.target\n        if not isinstance(target, (libcst.Name, libcst.Attribute, libcst.Subscript)):\n            return updated_node\n\n        binary_operation", "        if not isinstance(updated_node.target, (libcst.Name, libcst.Attribute, libcst.Subscript)):\n            return updated_node\n        target = updated_node.target\n\n        binary_operation")),
    # splitting statements
    bad("first statement only", (P, "        nodes = [_as_statement_line(s) for s in flat]", "        nodes = [_as_statement_line(s) for s in flat if not isinstance(s, libcst.Pass)]")),
    bad("statements reversed", (P, "for s in flat]", "for s in reversed(flat)]")),
    bad("suite skips", (P, "            new_body.append(line)\n", "            if not isinstance(statement, libcst.Expr):\n                new_body.append(line)\n")),
    bad("nested prepended", (P, "            result.append(stmt)\n    return result", "            result.insert(0, stmt)\n    return result")),
    good("suite comprehension", (P, "        new_body: list[libcst.SimpleStatementLine] = []\n        semicolon = libcst.BaseSmallStatement.semicolon  # use default semicolon\n        for statement in _flatten_small_statements(updated_node.body):\n            line = libcst.SimpleStatementLine(body=[statement.with_changes(semicolon=semicolon)])\n            new_body.append(line)\n", "        semicolon = libcst.BaseSmallStatement.semicolon\n        new_body = [libcst.SimpleStatementLine(body=[s.with_changes(semicolon=semicolon)]) for s in _flatten_small_statements(updated_node.body)]\n")),
    # wrapped assignments
    bad("one target", (P, "targets=tuple(x.target for x in updated_node.targets)", "targets=tuple(x.target for x in updated_node.targets[:1])")),
    bad("original value", (P, "            targets=(updated_node.target,),\n            annotation=None,\n            value=updated_node.value,", "            targets=(updated_node.target,),\n            annotation=None,\n            value=original_node.value,")),
    bad("augassign as assign", (N, DEFL, "                return libcst.Assign([libcst.AssignTarget(self.targets[0])], self.value)\n")),
    bad("targets reversed", (N, "                        self.original.targets, self.targets, strict=True\n", "                        self.original.targets, reversed(self.targets), strict=True\n")),
    bad("deflate drops value", (N, "                return self.original.with_changes(targets=assign_targets, value=self.value)", "                return self.original.with_changes(targets=assign_targets)")),
    bad("annassign keeps value", (N, "                    annotation=self.annotation,\n                    value=self.value,\n", "                    annotation=self.annotation,\n")),
    bad("children reordered", (N, "            visit_optional(self, \"annotation\", self.annotation, visitor),\n            visit_optional(self, \"value\", self.value, visitor),", "            visit_optional(self, \"value\", self.value, visitor),\n            visit_optional(self, \"annotation\", self.annotation, visitor),")),
    # imports
    bad("levels off", (P, "            self._module_qualified_name, relative_levels, module_name\n", "            self._module_qualified_name, relative_levels - 1, module_name\n")),
    bad("parts reversed", (P, "    for part in parts[1:]:\n        node = libcst.Attribute", "    for part in reversed(parts[1:]):\n        node = libcst.Attribute")),
    bad("dots stay", (P, "updated_node.with_changes(relative=(), module=", "updated_node.with_changes(module=")),
    # literals and marking
    bad("name is literal", (N, '        case libcst.Name("None"):\n', "        case libcst.Name():\n")),
    bad("either operand", (N, "is_simple_literal(lhs) and is_simple_literal(rhs)", "is_simple_literal(lhs) or is_simple_literal(rhs)")),
    bad("left only", (P, "is_simple_literal(updated_node.left) and is_simple_literal(updated_node.right)", "is_simple_literal(updated_node.left)")),
    bad("either literal operand", (P, "is_simple_literal(updated_node.left) and is_simple_literal(updated_node.right)", "is_simple_literal(updated_node.left) or is_simple_literal(updated_node.right)")),
    bad("marks the original", (P, "        if is_bypassed_call_syntax(original_node.func):\n            return updated_node\n        return ReplacementCandidate(updated_node)", "        if is_bypassed_call_syntax(original_node.func):\n            return updated_node\n        return ReplacementCandidate(original_node)")),
    bad("super marked", (P, "        if m.matches(original_node.func, m.Name(\"super\")):\n            return updated_node\n        if is_b", "        if is_b")),
    bad("bypass marked", (P, "        if is_bypassed_call_syntax(original_node.func):\n            return updated_node\n        return R", "        return R")),
    bad("any missing", (P, "all(info is None for info in type_info)", "any(info is None for info in type_info)")),
    good("literal helper", (P, "        if is_simple_literal(updated_node.expression):\n            return updated_node\n        else:\n            return ReplacementCandidate(updated_node)\n", "        if not is_simple_literal(updated_node.expression):\n            return ReplacementCandidate(updated_node)\n        return updated_node\n")),
    # isolation
    bad("conditional hoisted", (P, SKIP, "")),
    bad("lambda hoisted", (P, "        libcst.IfExp,\n        libcst.Lambda,\n", "        libcst.IfExp,\n")),
    bad("comps hoisted", (P, "        libcst.BaseComp,\n", "        libcst.ListComp,\n")),
    bad("walrus ignored", (P, "            return len(m.findall(node, m.NamedExpr())) > 0\n", "            return len(m.findall(node, m.NamedExpr())) > 1\n")),
    bad("never unblocked first", (P, "        if self._blocks_isolation(top):\n            self._nested_in_no_isolation_subtree -= 1\n", "        if isinstance(top, self._SKIP_ISOLATION_NODES):\n            self._nested_in_no_isolation_subtree -= 1\n")),
    bad("blocked deeper", (P, "return self._nested_in_no_isolation_subtree > 0", "return self._nested_in_no_isolation_subtree > 1")),
    bad("not checked", (P, "        if self._is_nested_in_no_isolation_subtree():\n            return updated_node\n", "")),
    bad("names not checked", (P, "        while (name := f\"_tmp_{self._count}\") in self._used_names:\n            self._count += 1\n        self._count += 1\n        return name", "        name = f\"_tmp_{self._count}\"\n        self._count += 1\n        return name")),
    bad("name reused", (P, "            self._count += 1\n        self._count += 1\n        return name", "            self._count += 1\n        return name")),
    bad("checked once", (P, "        while (name := f\"_tmp_{self._count}\") in self._used_names:\n            self._count += 1\n", "        if (name := f\"_tmp_{self._count}\") in self._used_names:\n            self._count += 1\n            name = f\"_tmp_{self._count}\"\n")),
    bad("outermost statement", (P, "        enumerator = range(len(self._visit_stack) - 1, -1, -1)\n" + ENUM, "        for i, node in enumerate(self._visit_stack):\n")),
    bad("other name returned", (P, "        return assign_name\n", "        return libcst.Name(self._next_tmp_name())\n")),
    bad("inserted after", (P, "            body.insert(\n                idx,\n", "            body.insert(\n                idx + 1,\n")),
    bad("inserted at front", (P, "            body.insert(\n                idx,\n", "            body.insert(\n                0,\n")),
    bad("position not updated", (P, "                self._insertions.update_position(position, body[idx])\n", "")),
    bad("moved position lost", (P, "        if isinstance(original_node, _LineStatement) and isinstance(result_node, _LineStatement):\n            self._insertions.update_position(original_node, result_node)\n", "")),
    bad("module not resolved", (P, "    ) -> libcst.Module:\n        return self._resolve_insertions(original_node, updated_node)", "    ) -> libcst.Module:\n        return updated_node")),
    good("name by count", (P, "        while (name := f\"_tmp_{self._count}\") in self._used_names:\n            self._count += 1\n        self._count += 1\n        return name", "        while f\"_tmp_{self._count}\" in self._used_names:\n            self._count += 1\n        name = f\"_tmp_{self._count}\"\n        self._count += 1\n        return name")),
    good("flag helper inlined", (P, "        if self._is_nested_in_no_isolation_subtree():\n", "        if self._nested_in_no_isolation_subtree > 0:\n")),
    # counterparts
    bad("replacer swaps", (P, "original_args = (libcst.Arg(orig.left), libcst.Arg(orig.right))", "original_args = (libcst.Arg(orig.right), libcst.Arg(orig.left))")),
    bad("bypass replaced", (P, "                if is_bypassed_callable(original_func):\n                    return orig\n", "")),
    bad("positional only", (P, "                original_args = orig.args\n", "                original_args = [a for a in orig.args if a.star == \"\"]\n")),
    bad("extra first", (P, "args=(*original_args, *extra_args),", "args=(*extra_args, *original_args),")),
    bad("one output", (P, "        for i in range(operator.num_output_quantizers):\n", "        for i in range(min(1, operator.num_output_quantizers)):\n")),
    bad("shared quantizer", (P, "        for i in range(operator.num_output_quantizers):\n            quantizer_var = self._quantizer_refs.create_quantizer_expression(output_quantizer_name)\n", "        quantizer_var = self._quantizer_refs.create_quantizer_expression(output_quantizer_name)\n        for i in range(operator.num_output_quantizers):\n")),
    bad("always numbered", (P, "(f\"_{i}\" if operator.num_output_quantizers > 1 else \"\")", "f\"_{i}\"")),
    bad("intermediates skipped", (P, "            extra_args.append(get_keyword_argument_node(intermediate_quantizer, quantizer_var))\n", "            extra_args.append(get_keyword_argument_node(\"output_quantizer\", quantizer_var))\n")),
    bad("name before object", (P, "self._create_resolved_quantized_call(fn_name, func_ref or fn_name, orig_args)", "self._create_resolved_quantized_call(fn_name, fn_name, orig_args)")),
    bad("twice replaced", (P, "        if isinstance(parent, ReplacementCandidate):\n            return updated_node\n\n        if m", "        if m")),
    bad("super replaced", (P, "        if m.matches(updated_node.func, m.Name(\"super\")):\n            return updated_node\n\n        fn_name", "        fn_name")),
    bad("no overload check", (K, "        if not operator.validate_arguments(pos_args, kw_args):\n            continue\n\n", "")),
    bad("validates positionals", (K, "operator.validate_arguments(pos_args, kw_args)", "operator.validate_arguments(pos_args, {})")),
    bad("unresolved args", (P, "        call_params[\"args\"] = original_args\n", "        call_params[\"args\"] = original_args[:1]\n")),
    bad("keyword as positional", (K, "        if arg.keyword is not None:\n            kw_args", "        if arg.keyword is not None and arg.star:\n            kw_args")),
    bad("inner args last", (Q, "tuple(updated_node.args) + tuple(new_args)", "tuple(new_args) + tuple(updated_node.args)")),
    bad("args dropped", (Q, "tuple(updated_node.args) + tuple(new_args)", "tuple(new_args)")),
    bad("other name renamed", (Q, "            params[\"func\"] = self._func_rename_map[original_node.func_ref]\n", "            params[\"func\"] = next(iter(self._func_rename_map.values()))\n")),
    good("single arguments tuple", (P, "        return QuantizedCall(\n            func=func,\n            args=(*original_args, *extra_args),", "        all_args = tuple(original_args) + tuple(extra_args)\n        return QuantizedCall(\n            func=func,\n            args=all_args,")),
    good("resolved early return", (P, "        call_node = self._create_resolved_quantized_call(fn_name, func_ref or fn_name, orig_args)\n        if call_node is not None:\n            return call_node\n        if func_ref is None:\n            return node\n", "        func_key = func_ref or fn_name\n        call_node = self._create_resolved_quantized_call(fn_name, func_key, orig_args)\n        if call_node is not None:\n            return call_node\n        elif func_ref is None:\n            return node\n")),
    # references
    bad("globals over nonlocals", (P, "{**closure_vars.builtins, **closure_vars.globals, **closure_vars.nonlocals}", "{**closure_vars.nonlocals, **closure_vars.builtins, **closure_vars.globals}")),
    bad("builtins last", (P, "{**closure_vars.builtins, **closure_vars.globals, **closure_vars.nonlocals}", "{**closure_vars.globals, **closure_vars.nonlocals, **closure_vars.builtins}")),
    bad("partial path", (P, "        for part in parts:\n            obj = getattr(obj, part)\n", "        for part in parts[-1:]:\n            obj = getattr(obj, part)\n")),
    bad("default attr", (P, "            obj = getattr(obj, part)\n        if isinstance(obj, types", "            obj = getattr(obj, part, obj)\n        if isinstance(obj, types")),
    # nodes carry what they hold
    bad("operator dropped", (N, "original_name=self.original_name, operator=self.operator\n", "original_name=self.original_name\n")),
    bad("refid lost", (N, "            value=self.value,\n            rpar=visit_sequence(self, \"rpar\", self.rpar, visitor),\n            refid=self.refid,", "            value=self.value,\n            rpar=visit_sequence(self, \"rpar\", self.rpar, visitor),\n            refid=0,")),
    bad("func ref lost", (N, "original_name=self.original_name, func_ref=self.func_ref", "original_name=self.original_name, func_ref=None")),
    # super
    bad("super order", (V, "                libcst.Arg(libcst.Name(self._owner_class_name)),\n                libcst.Arg(libcst.Name(self._self_name)),\n", "                libcst.Arg(libcst.Name(self._self_name)),\n                libcst.Arg(libcst.Name(self._owner_class_name)),\n")),
    bad("explicit super", (V, "        if len(super_call.args) != 0:\n            # Already explicit super(...)\n            return updated_node\n\n", "")),
    bad("any call anchored", (V, "        if not isinstance(super_call.func, libcst.Name) or super_call.func.value != \"super\":\n            return updated_node\n\n", "")),
    bad("owner last", (V, "    return parts[-2]\n", "    return parts[0]\n")),
    bad("static anchored", (V, "    if func_ctx.method_type is not MethodType.METHOD or func_ctx.instance_var is None:", "    if func_ctx.instance_var is None:")),
    # renaming
    bad("bound renamed", (Q, "{k: v for k, v in name_map.items() if k not in bound_names}", "dict(name_map)")),
    bad("attribute renamed", (Q, "        if id(original_node) in self._inside_attr:\n            return updated_node\n", "")),
    bad("keyword renamed", (Q, "        return updated_node.with_changes(keyword=original_node.keyword)", "        return updated_node")),
    bad("def renamed", (Q, "        return updated_node.with_changes(name=original_node.name)\n\n    def leave_Name", "        return updated_node\n\n    def leave_Name")),
    bad("params unbound", (Q, "        libcst.Param,\n        nodes.GeneralAssignment,", "        nodes.GeneralAssignment,")),
    bad("loops unbound", (Q, "case libcst.AssignTarget() | libcst.NamedExpr() | libcst.For() | libcst.CompFor():", "case libcst.AssignTarget() | libcst.NamedExpr() | libcst.CompFor():")),
    # quantize statements
    bad("before docstring", (T, "        updated_body = (node.body[0], *nodes, *node.body[1:])", "        updated_body = (*nodes, *node.body)")),
    bad("docstring twice", (T, "        updated_body = (node.body[0], *nodes, *node.body[1:])", "        updated_body = (node.body[0], *nodes, *node.body)")),
    bad("before the assignment", (T, "libcst.FlattenSentinel((updated_node, *statements))", "libcst.FlattenSentinel((*statements, updated_node))")),
    bad("assignment dropped", (T, "libcst.FlattenSentinel((updated_node, *statements))", "libcst.FlattenSentinel(statements)")),
    bad("loop quantizes last", (T, "                    *statements,\n                    *updated_node.body.body,\n", "                    *updated_node.body.body,\n                    *statements,\n")),
    bad("with body dropped", (T, "body=(*statements, *updated_node.body.body))", "body=(*statements, *updated_node.body.body[1:]))")),
    bad("target mixed up", (K, "        target=target,\n        quantizer_ref=quantizer_ref,\n        source=source,", "        target=source,\n        quantizer_ref=quantizer_ref,\n        source=target,")),
    bad("other quantizer", (T, "            return self._quantizer_refs_by_id[quantizer_id]\n\n        quantizer_ref", "            return next(iter(self._quantizer_refs_by_id.values()))\n\n        quantizer_ref")),
    bad("keyword template", (K, "dummy_fn({keyword}={expression})", "dummy_fn({keyword}=[{expression}])")),
    bad("walrus swapped", (T, "\"({name_} := {expr})\", name_=name_, expr=expr", "\"({name_} := {expr})\", name_=expr, expr=name_")),
    good("insert by list", (T, "        updated_body = (node.body[0], *nodes, *node.body[1:])", "        updated_body = tuple([node.body[0], *nodes, *node.body[1:]])")),
    # order of passes
    bad("wrap first", (Q, "        passes.ExpandAugAssign(),\n        MarkReplacementCandidatesPass,\n        passes.IsolateReplacementCandidates,\n        passes.WrapAssignments(),\n", "        passes.WrapAssignments(),\n        passes.ExpandAugAssign(),\n        MarkReplacementCandidatesPass,\n        passes.IsolateReplacementCandidates,\n")),
    bad("isolate first", (Q, "        MarkReplacementCandidatesPass,\n        passes.IsolateReplacementCandidates,\n", "        passes.IsolateReplacementCandidates,\n        MarkReplacementCandidatesPass,\n")),
    bad("quantize first", (V, "            counterpart_replacer,\n            QuantizerFunctionTransformer(quantizer_refs=quantizer_refs),\n", "            QuantizerFunctionTransformer(quantizer_refs=quantizer_refs),\n            counterpart_replacer,\n")),
    # refactorings
    good("aug early checks merged", (P, "        if binary_op_cls is None:\n            return updated_node\n\n        target = updated_node.target\n        if not isinstance(target, (libcst.Name, libcst.Attribute, libcst.Subscript)):\n            return updated_node\n", "        target = updated_node.target\n        assignable = isinstance(target, (libcst.Name, libcst.Attribute, libcst.Subscript))\n        if binary_op_cls is None or not assignable:\n            return updated_node\n")),
    good("aug assignment by name", (P, "        return libcst.Assign(\n            targets=(libcst.AssignTarget(target=target),),\n            value=binary_operation,\n            semicolon=updated_node.semicolon,\n        )\n", "        assign_target = libcst.AssignTarget(target=target)\n        assign = libcst.Assign(targets=[assign_target], value=binary_operation)\n        return assign.with_changes(semicolon=updated_node.semicolon)\n")),
    good("wrap targets loop", (P, "            targets=tuple(x.target for x in updated_node.targets),\n", "            targets=tuple([assign_target.target for assign_target in updated_node.targets]),\n")),
    good("wrap helper", (P, "    @override\n    def leave_AugAssign(\n        self, original_node: libcst.AugAssign, updated_node: libcst.AugAssign\n    ) -> GeneralAssignment:\n        return GeneralAssignment(\n            original=original_node,\n            targets=(updated_node.target,),\n            annotation=None,\n            value=updated_node.value,\n        )\n", "    def _wrap(self, original, targets, value):\n        return GeneralAssignment(original=original, targets=targets, annotation=None, value=value)\n\n    @override\n    def leave_AugAssign(\n        self, original_node: libcst.AugAssign, updated_node: libcst.AugAssign\n    ) -> GeneralAssignment:\n        return self._wrap(original_node, (updated_node.target,), updated_node.value)\n")),
    good("flatten with isinstance not", (P, "        if isinstance(stmt, libcst.SimpleStatementLine):\n            result.extend(_flatten_small_statements(stmt.body))\n        else:\n            result.append(stmt)\n", "        if not isinstance(stmt, libcst.SimpleStatementLine):\n            result.append(stmt)\n            continue\n        result.extend(_flatten_small_statements(stmt.body))\n")),
    good("import levels inline", (P, "        relative_levels = len(updated_node.relative)\n        if relative_levels == 0:\n            return updated_node\n", "        if not updated_node.relative:\n            return updated_node\n        relative_levels = len(updated_node.relative)\n")),
    good("mark helper", (P, "        if is_simple_literal(updated_node.left) and is_simple_literal(updated_node.right):\n            return updated_node\n        else:\n            return ReplacementCandidate(updated_node)\n", "        operands = (updated_node.left, updated_node.right)\n        return self._mark(updated_node, *operands)\n\n    def _mark(self, node, left, right):\n        if is_simple_literal(left) and is_simple_literal(right):\n            return node\n        return ReplacementCandidate(node)\n")),
    good("literal tuple", (N, '        case libcst.Name("True") | libcst.Name("False"):\n            return True\n        case libcst.Name("None"):\n            return True\n', '        case libcst.Name("True") | libcst.Name("False") | libcst.Name("None"):\n            return True\n')),
    good("literal by isinstance", (N, "    match node:\n        case libcst.Integer() | libcst.Float() | libcst.Imaginary():\n            return True\n        case libcst.BaseString():\n            return True\n", "    if isinstance(node, (libcst.Integer, libcst.Float, libcst.Imaginary, libcst.BaseString)):\n        return True\n    match node:\n")),
    good("isolation early guard", (P, "        parent = self.parent()\n        if parent is None:\n            # If there", "        if self._is_nested_in_no_isolation_subtree():\n            return updated_node\n\n        parent = self.parent()\n        if parent is None:\n            # If there")),
    good("isolation parent isinstance", (P, "            case libcst.Return() | libcst.Yield() | libcst.Raise():\n                # If the replacement candidate is the expression in a return or yield\n                # statement, we don't have to move it.\n                return updated_node\n", "            case libcst.Return():\n                return updated_node\n            case libcst.Yield() | libcst.Raise():\n                return updated_node\n")),
    good("insertion statement named", (P, "            body.insert(\n                idx,\n                libcst.SimpleStatementLine([insertion.insertion], leading_lines=leading_lines),\n            )\n", "            line = libcst.SimpleStatementLine([insertion.insertion], leading_lines=leading_lines)\n            body.insert(idx, line)\n")),
    good("blocked any", (P, "            return len(m.findall(node, m.NamedExpr())) > 0\n", "            return bool(m.findall(node, m.NamedExpr()))\n")),
    good("blocks kept on stack", (P, "        top = self._visit_stack.pop()\n        if self._blocks_isolation(top):\n", "        left = self._visit_stack.pop()\n        blocks = self._blocks_isolation(left)\n        if blocks:\n")),
    good("replacer if chain", (P, "        match orig := updated_node.original:\n            case libcst.UnaryOperation():\n                original_func, _, original_func_name = _get_name_and_torch_name_for_operation(orig)\n                original_args = (libcst.Arg(orig.expression),)\n            case libcst.BinaryOperation():\n                original_func, _, original_func_name = _get_name_and_torch_name_for_operation(orig)\n                original_args = (libcst.Arg(orig.left), libcst.Arg(orig.right))\n", "        match orig := updated_node.original:\n            case libcst.UnaryOperation() | libcst.BinaryOperation():\n                original_func, _, original_func_name = _get_name_and_torch_name_for_operation(orig)\n                if isinstance(orig, libcst.UnaryOperation):\n                    original_args = (libcst.Arg(orig.expression),)\n                else:\n                    original_args = [libcst.Arg(value=orig.left), libcst.Arg(value=orig.right)]\n")),
    good("extra args comprehension", (P, "        extra_args: list[libcst.Arg] = []\n\n        for intermediate_quantizer in operator.intermediate_quantizers:\n            quantizer_var = self._quantizer_refs.create_quantizer_expression(intermediate_quantizer)\n            extra_args.append(get_keyword_argument_node(intermediate_quantizer, quantizer_var))\n", "        extra_args: list[libcst.Arg] = [\n            get_keyword_argument_node(name, self._quantizer_refs.create_quantizer_expression(name))\n            for name in operator.intermediate_quantizers\n        ]\n")),
    good("output name outside", (P, "            arg_name = \"output_quantizer\" + (f\"_{i}\" if operator.num_output_quantizers > 1 else \"\")\n", "            arg_name = \"output_quantizer\"\n            if operator.num_output_quantizers > 1:\n                arg_name = f\"output_quantizer_{i}\"\n")),
    good("call params inline", (P, "        call_params = node_asdict(node.original)\n\n        call_params[\"args\"] = original_args\n        call_params[\"func\"] = _generalize_class_refs(node.original.func, self._func_ctx)\n", "        func = _generalize_class_refs(node.original.func, self._func_ctx)\n        call_params = {**node_asdict(node.original), \"args\": original_args, \"func\": func}\n")),
    good("reference with reduce", (P, "        for part in parts:\n            obj = getattr(obj, part)\n", "        obj = functools.reduce(getattr, parts, obj)\n"), (P, "import dataclasses\n", "import dataclasses\nimport functools\n")),
    good("scope vars update", (P, "    scope_vars = {**closure_vars.builtins, **closure_vars.globals, **closure_vars.nonlocals}\n", "    scope_vars = dict(closure_vars.builtins)\n    scope_vars.update(closure_vars.globals)\n    scope_vars.update(closure_vars.nonlocals)\n")),
    good("resolve args comprehension", (Q, "        new_args = []\n        for arg in quantizer_args:\n            new_args.append(node_creation.get_keyword_argument_node(arg.keyword, arg.value))\n", "        new_args = [\n            node_creation.get_keyword_argument_node(arg.keyword, arg.value) for arg in quantizer_args\n        ]\n")),
    good("resolve args splat", (Q, "tuple(updated_node.args) + tuple(new_args)", "(*updated_node.args, *new_args)")),
    good("rename by loop", (Q, "        self._name_map = {k: v for k, v in name_map.items() if k not in bound_names}\n", "        self._name_map = dict(name_map)\n        for bound in bound_names:\n            self._name_map.pop(bound, None)\n")),
    good("rename get first", (Q, "        if id(original_node) in self._inside_attr:\n            return updated_node\n        if replacement := self._name_map.get(updated_node.value):\n            return replacement.deep_clone()\n        return updated_node\n", "        replacement = self._name_map.get(updated_node.value)\n        if id(original_node) in self._inside_attr or replacement is None:\n            return updated_node\n        return replacement.deep_clone()\n")),
    good("bound names by isinstance", (Q, "        match node:\n            case libcst.FunctionDef() | libcst.ClassDef() | libcst.Param() | libcst.AsName():\n                targets.append(node.name)\n            case nodes.GeneralAssignment():\n                targets.extend(node.targets)\n            case libcst.AssignTarget() | libcst.NamedExpr() | libcst.For() | libcst.CompFor():\n                targets.append(node.target)\n", "        if isinstance(node, nodes.GeneralAssignment):\n            targets.extend(node.targets)\n        elif isinstance(node, (libcst.FunctionDef, libcst.ClassDef, libcst.Param, libcst.AsName)):\n            targets.append(node.name)\n        elif isinstance(node, (libcst.AssignTarget, libcst.NamedExpr, libcst.For, libcst.CompFor)):\n            targets.append(node.target)\n")),
    good("anchor nested checks", (V, "        if not isinstance(super_call.func, libcst.Name) or super_call.func.value != \"super\":\n            return updated_node\n\n        if len(super_call.args) != 0:\n            # Already explicit super(...)\n            return updated_node\n", "        is_super = isinstance(super_call.func, libcst.Name) and super_call.func.value == \"super\"\n        if not is_super or super_call.args:\n            return updated_node\n")),
    good("quantize annotations helper", (T, "        statements = []\n        for annotation in annotations:\n            target = annotation.target\n            statement = create_quantize_statement(\n                target=target,\n                quantizer_ref=self._quantizer_refs.create_quantizer_expression(target),\n            )\n            statements.append(statement.body[0])\n", "        statements = [self._quantize(annotation.target).body[0] for annotation in annotations]\n"), (T, "    def leave_For(self, original_node", "    def _quantize(self, target):\n        ref = self._quantizer_refs.create_quantizer_expression(target)\n        return create_quantize_statement(target=target, quantizer_ref=ref)\n\n    def leave_For(self, original_node")),
    good("for body named", (T, "        return updated_node.with_changes(\n            body=updated_node.body.with_changes(\n                body=[\n                    *statements,\n                    *updated_node.body.body,\n                ]\n            )\n        )\n", "        body = updated_node.body.with_changes(body=[*statements, *updated_node.body.body])\n        return updated_node.with_changes(body=body)\n")),
    good("passes named", (Q, "    return [\n        passes.ConvertSemicolonJoinedStatements(),\n        passes.RemoveRedundantParenthesesTransformer(),\n        passes.ExpandAugAssign(),\n        MarkReplacementCandidatesPass,\n        passes.IsolateReplacementCandidates,\n        passes.WrapAssignments(),\n    ]\n", "    normalize = [\n        passes.ConvertSemicolonJoinedStatements(),\n        passes.RemoveRedundantParenthesesTransformer(),\n        passes.ExpandAugAssign(),\n    ]\n    return [*normalize, MarkReplacementCandidatesPass, passes.IsolateReplacementCandidates, passes.WrapAssignments()]\n")),
    good("inline quantization helper", (T, "            if quantizer_id is not None and quantizer_id in self._quantizer_refs_by_id:\n                quantizer_ref = self._quantizer_refs_by_id[quantizer_id]\n            else:\n", "            quantizer_ref = None if quantizer_id is None else self._quantizer_refs_by_id.get(quantizer_id)\n            if quantizer_ref is None:\n")),
    good("bare test 0", (V, "        if len(super_call.args) != 0:\n", "        if len(super_call.args) > 0:\n")),
    good("bare test 1", (V, "        if len(super_call.args) != 0:\n", "        if super_call.args:\n")),
    good("bare test 2", (V, "        if len(super_call.args) != 0:\n", "        if not len(super_call.args) == 0:\n")),
    good("bare test 3", (V, "        if len(super_call.args) != 0:\n", "        if len(super_call.args) >= 1:\n")),
    good("bare test 4", (V, "        if len(super_call.args) != 0:\n", "        if bool(super_call.args):\n")),
    good("bare test 5", (V, "        if len(super_call.args) != 0:\n", "        if any(True for _ in super_call.args):\n")),
    bad("explicit super 0", (V, "        if len(super_call.args) != 0:\n", "        if len(super_call.args) > 1:\n")),
    bad("explicit super 1", (V, "        if len(super_call.args) != 0:\n", "        if len(super_call.args) >= 2:\n")),
    bad("explicit super 3", (V, "        if len(super_call.args) != 0:\n", "        if len(super_call.args) > 0 and isinstance(super_call.args[0].value, libcst.Attribute):\n")),
    # parentheses
    bad("comparison parens", (P, "            updated_node, (libcst.Name, libcst.Attribute, libcst.Call, libcst.Subscript)\n", "            updated_node, (libcst.Name, libcst.Attribute, libcst.Call, libcst.Subscript, libcst.Comparison)\n")),
    bad("all parens", (P, "            updated_node, (libcst.Name, libcst.Attribute, libcst.Call, libcst.Subscript)\n", "            updated_node, libcst.BaseExpression\n")),
    bad("one paren", (P, "                stripped_node = updated_node.with_changes(lpar=(), rpar=())", "                stripped_node = updated_node.with_changes(lpar=(), rpar=rpar[1:])")),
    bad("no line check", (P, "            ast.parse(libcst.Module([]).code_for_node(stripped_node), mode=\"eval\")\n", "")),
    bad("line check of the wrong node", (P, "            ast.parse(libcst.Module([]).code_for_node(stripped_node), mode=\"eval\")\n", "            ast.parse(libcst.Module([]).code_for_node(original_node), mode=\"eval\")\n")),
    bad("no keyword check", (P, "                    parent.deep_replace(original_node, stripped_node)\n                    break\n", "                    break\n")),
    bad("error ignored", (P, "        except (SyntaxError, libcst.CSTValidationError):\n            return False\n", "        except (SyntaxError, libcst.CSTValidationError):\n            pass\n")),
    bad("no validity check", (P, "                if self._is_valid_without_parens(original_node, stripped_node):\n                    return stripped_node\n", "                return stripped_node\n")),
    bad("dot dropped", (P, "                dot=node.dot.with_changes(whitespace_before=libcst.SimpleWhitespace(\"\"))\n", "                dot=node.dot.with_changes(whitespace_before=libcst.SimpleWhitespace(\"\")), attr=node.value\n")),
    good("paren kinds named", (P, "class RemoveRedundantParenthesesTransformer(libcst.CSTTransformer):\n", "_PRIMARIES = (libcst.Name, libcst.Attribute, libcst.Call, libcst.Subscript)\n\n\nclass RemoveRedundantParenthesesTransformer(libcst.CSTTransformer):\n"), (P, "            updated_node, (libcst.Name, libcst.Attribute, libcst.Call, libcst.Subscript)\n", "            updated_node, _PRIMARIES\n")),
    good("paren early return", (P, "                if self._is_valid_without_parens(original_node, stripped_node):\n                    return stripped_node\n", "                if not self._is_valid_without_parens(original_node, stripped_node):\n                    return updated_node\n                return stripped_node\n")),
    good("paren no hasattr", (P, "        if hasattr(updated_node, \"lpar\") and hasattr(updated_node, \"rpar\"):\n            lpar = getattr(updated_node, \"lpar\")\n            rpar = getattr(updated_node, \"rpar\")\n", "        if True:\n            lpar, rpar = updated_node.lpar, updated_node.rpar\n")),
    good("paren source named", (P, "            ast.parse(libcst.Module([]).code_for_node(stripped_node), mode=\"eval\")\n", "            source = libcst.Module([]).code_for_node(stripped_node)\n            ast.parse(source, mode=\"eval\")\n")),
    good("paren lists", (P, "                stripped_node = updated_node.with_changes(lpar=(), rpar=())", "                stripped_node = updated_node.with_changes(lpar=[], rpar=[])")),
    # chained comparisons
    bad("chained comparison hoisted", (P, "            return len(node.comparisons) > 1\n", "            return len(node.comparisons) > 2\n")),
    good("chained comparison and", (P, "        if isinstance(node, libcst.Comparison):\n            # Operands of a chained comparison are only evaluated if all earlier\n            # comparisons hold.\n            return len(node.comparisons) > 1\n", "        if isinstance(node, libcst.Comparison) and len(node.comparisons) >= 2:\n            return True\n")),
]
