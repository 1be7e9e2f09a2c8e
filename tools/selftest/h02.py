C, Q, D, GG, R, ORC = ("export/pipeline/" + x for x in ("core.py", "qnn_onnx_pipeline.py", "qnn_onnx_qdq_pipeline.py", "gguf_llama_cpp_pipeline.py", "registry.py", "orchestrator.py"))


def bad(name, *edits):
    return (name, 1, list(edits))


def good(name, *edits):
    return (name, 0, list(edits))


REPL = "        self._set_dependencies([new if dep is old else dep for dep in self._dependencies])"
DFS = "        stages = [target_stage] if target_stage else self._stages\n        for stage in stages:\n            depth_first_traversal(stage)"
CASES = [
    bad("depends_on moves", (C, "            if dep not in self._dependencies:\n                self._dependencies[dep] = dep.name", "            self._dependencies.pop(dep, None)\n            self._dependencies[dep] = dep.name")),
    bad("depends_on first only", (C, "        for dep in dependencies:\n            if dep not in self._dependencies:", "        for dep in dependencies[:1]:\n            if dep not in self._dependencies:")),
    bad("depends_on once", (C, "            if dep not in self._dependencies:\n                self", "            if not self._dependencies:\n                self")),
    bad("dependencies sorted", (C, "return tuple(self._dependencies)", "return tuple(sorted(self._dependencies, key=str))")),
    bad("remove silent", (C, "            raise KeyError(msg)\n        del self._dependencies[dep]", "            return\n        del self._dependencies[dep]")),
    bad("remove all", (C, "        del self._dependencies[dep]", "        self._dependencies.clear()")),
    bad("replace appends", (C, REPL, "        self._remove_dependency(old)\n        self.depends_on(new)")),
    bad("replace all", (C, REPL, "        self._set_dependencies([new])")),
    bad("replace keeps old", (C, REPL, "        self._set_dependencies([*self._dependencies, new])")),
    bad("replace inverted", (C, "new if dep is old else dep for", "dep if dep is old else new for")),
    bad("duplicate names", (C, "        if name in self._stages.values():\n            msg = f\"Stage name '{name}' is already registered\"\n            raise ValueError(msg)\n\n        stage_reference", "        stage_reference")),
    bad("capture always", (C, "        if capture_stage_output is True:\n            self._result", "        if True:\n            self._result")),
    bad("eval not recorded", (C, "        self._evaluation_stages[stage_reference] = stage_reference.name\n        return", "        return")),
    bad("eval capture dropped", (C, "self.register_stage(stage_fn, name, capture_stage_output)\n        self._eval", "self.register_stage(stage_fn, name)\n        self._eval")),
    bad("get_stage prefix", (C, "if stage.name == name:", "if stage.name.startswith(name):")),
    bad("get_stage results", (C, "        for stage in self._stages:\n            if stage.name", "        for stage in self._result_stages:\n            if stage.name")),
    bad("before reversed", (C, "new_stage.depends_on(*inherited)\n            target_ref", "new_stage.depends_on(*reversed(inherited))\n            target_ref")),
    bad("before target keeps", (C, "            target_ref._set_dependencies([new_stage])", "            target_ref.depends_on(new_stage)")),
    bad("before explicit rewires", (C, "            new_stage.depends_on(*explicit)\n", "            new_stage.depends_on(*explicit)\n            target_ref._set_dependencies([new_stage])\n")),
    bad("before empty explicit", (C, "        if depends_on is None:\n            inherited", "        if not depends_on:\n            inherited")),
    bad("before late lookup", (C, "            explicit = [self.get_stage(dep_name) for dep_name in depends_on]\n            new_stage = self.register_stage(stage_fn, name, capture_stage_output)\n            new_stage.depends_on(*explicit)", "            new_stage = self.register_stage(stage_fn, name, capture_stage_output)\n            new_stage.depends_on(*[self.get_stage(dep_name) for dep_name in depends_on])")),
    bad("before capture lost", (C, "            inherited = list(target_ref._dependencies)\n            new_stage = self.register_stage(stage_fn, name, capture_stage_output)", "            inherited = list(target_ref._dependencies)\n            new_stage = self.register_stage(stage_fn, name)")),
    bad("before self cycle", (C, "            inherited = list(target_ref._dependencies)\n            new_stage = self.register_stage(stage_fn, name, capture_stage_output)\n            new_stage.depends_on(*inherited)\n            target_ref._set_dependencies([new_stage])", "            new_stage = self.register_stage(stage_fn, name, capture_stage_output)\n            target_ref._set_dependencies([new_stage])\n            new_stage.depends_on(*target_ref._dependencies)")),
    bad("after self", (C, "        existing_dependents = self._dependents_of(target_ref)\n        new_stage = self.register_stage(stage_fn, name, capture_stage_output)\n        new_stage.depends_on(target_ref)\n        for dependent in existing_dependents:", "        new_stage = self.register_stage(stage_fn, name, capture_stage_output)\n        new_stage.depends_on(target_ref)\n        for dependent in self._dependents_of(target_ref):")),
    bad("after no rewire", (C, "        for dependent in existing_dependents:\n            dependent._replace_dependency(target_ref, new_stage)\n", "")),
    bad("after single inputs", (C, "        for dependent in existing_dependents:\n            dependent._replace", "        for dependent in existing_dependents:\n            if len(dependent.dependencies) > 1:\n                continue\n            dependent._replace")),
    bad("dependents results", (C, "[stage for stage in self._stages if target in stage._dependencies]", "[stage for stage in self._result_stages if target in stage._dependencies]")),
    bad("replace eval lost", (C, "        if was_eval:\n            new_stage = self.register_eval_stage(stage_fn, new_name, capture)\n        else:\n            new_stage", "        if True:\n            new_stage")),
    bad("replace was captured late", (C, "        was_captured = target_ref in self._result_stages\n        capture = capture_stage_output if capture_stage_output is not None else was_captured\n", "        was_captured = target_ref in self._evaluation_stages\n        capture = capture_stage_output if capture_stage_output is not None else was_captured\n")),
    bad("replace capture or", (C, "capture = capture_stage_output if capture_stage_output is not None else was_captured", "capture = bool(capture_stage_output) or was_captured")),
    bad("replace stays captured", (C, "        self._result_stages.pop(target_ref, None)\n", "")),
    bad("replace deps lost", (C, "        new_stage.depends_on(*inherited)\n\n        for", "        for")),
    bad("replace refused late", (C, "        if new_name != target_ref.name and new_name in self._stages.values():\n            msg = f\"Stage name '{new_name}' is already registered\"\n            raise ValueError(msg)\n\n        was_eval", "        was_eval"), (C, "        self._evaluation_stages.pop(target_ref, None)\n", "        self._evaluation_stages.pop(target_ref, None)\n        if new_name in self._stages.values():\n            msg = f\"Stage name '{new_name}' is already registered\"\n            raise ValueError(msg)\n")),
    bad("cycle wrong way", (C, "if self._reaches(dep, target):", "if self._reaches(target, dep):")),
    bad("cycle direct only", (C, "if self._reaches(dep, target):", "if target in dep._dependencies:")),
    bad("edge wrong way", (C, "        target.depends_on(dep)\n", "        dep.depends_on(target)\n")),
    bad("remove edge wrong way", (C, "        target._remove_dependency(dep)", "        dep._remove_dependency(target)")),
    bad("reach one step", (C, "            stack.extend(current._dependencies)", "            stack.extend(list(current._dependencies)[:1])")),
    bad("reach src only", (C, "            stack.extend(current._dependencies)\n", "")),
    bad("order before deps", (C, "            visiting.add(stage)\n            for", "            visiting.add(stage)\n            pipeline.append(stage)\n            for"), (C, "            visited.add(stage)\n            pipeline.append(stage)", "            visited.add(stage)")),
    bad("order twice", (C, "            visited.add(stage)\n", "")),
    bad("cycle unnoticed", (C, "            visiting.add(stage)\n            for", "            for"), (C, "            visiting.remove(stage)\n", "            visiting.discard(stage)\n")),
    bad("unknown skipped", (C, "                if dependency not in self._stages:\n                    msg = f\"Stage '{dependency}' is not a known stage\"\n                    raise ValueError(msg)\n", "")),
    bad("unknown left out", (C, "                    msg = f\"Stage '{dependency}' is not a known stage\"\n                    raise ValueError(msg)\n", "                    continue\n")),
    bad("only captured built", (C, "if target_stage else self._stages\n", "if target_stage else self._result_stages\n")),
    bad("target first dep", (C, "        if target_stage is not None and target_stage not in self._stages:\n            msg = f\"Target stage '{target_stage}' is not a known stage\"\n            raise ValueError(msg)\n", "")),
    bad("run reversed", (C, "        for stage in pipeline:\n", "        for stage in reversed(pipeline):\n")),
    bad("run unsaved", (C, "            exec_ctx.save_result(stage, result)\n", "            if stage in self._result_stages:\n                exec_ctx.save_result(stage, result)\n")),
    bad("options shared", (C, "pipeline_kwargs={**self._pipeline_kwargs}", "pipeline_kwargs=self._pipeline_kwargs")),
    bad("samples first", (C, "            sample_inputs=sample_inputs,\n", "            sample_inputs=sample_inputs[:1],\n")),
    bad("inputs reversed", (C, "tuple(self.results[stage] for stage in stage._dependencies)", "tuple(self.results[stage] for stage in reversed(stage._dependencies))")),
    bad("inputs from results order", (C, "tuple(self.results[stage] for stage in stage._dependencies)", "tuple(res for dep, res in self.results.items() if dep in stage._dependencies)")),
    bad("inputs module too", (C, "args = (tuple(self.results[stage] for stage in stage._dependencies),)", "args = (tuple(self.results.get(stage, self.pipeline_input) for stage in stage._dependencies),)")),
    bad("outputs all", (C, "exec_ctx.get_results(stage) for stage in self._result_stages}", "exec_ctx.get_results(stage) for stage in pipeline}")),
    bad("outputs last only", (C, "exec_ctx.get_results(stage) for stage in self._result_stages}", "exec_ctx.get_results(pipeline[-1]) for stage in self._result_stages}")),
    bad("last first", (C, "{pipeline[-1].name: exec_ctx.get_results(pipeline[-1])}", "{pipeline[0].name: exec_ctx.get_results(pipeline[0])}")),
    bad("metric ignored", (C, "        if eval_metric is None:\n            eval_metric = metrics.sqnr\n", "        eval_metric = metrics.sqnr\n")),
    bad("eval all results", (C, "{key: results[key] for key in evaluation_stages if key in results}", "dict(results)")),
    bad("eval same side", (C, "self.metric_fn(a.reshape(-1), b.reshape(-1)) for a, b", "self.metric_fn(a.reshape(-1), a.reshape(-1)) for a, b")),
    bad("eval swapped", (C, "self.metric_fn(a.reshape(-1), b.reshape(-1)) for a, b", "self.metric_fn(b.reshape(-1), a.reshape(-1)) for a, b")),
    bad("key swap", (R, "return target.strip().lower(), format.strip().lower()", "return target.strip().lower(), format.strip()")),
    bad("key concat", (R, "return target.strip().lower(), format.strip().lower()", "return target.strip(), format.strip()")),
    bad("registry overwrites", (R, "if not replace and key in self._factories:", "if replace and key in self._factories:")),
    bad("registry raw key", (R, "        return self._key(target, format) in self._factories", "        return (target, format) in self._factories")),
    bad("registry qdq for onnx", (R, 'registry.register("qnn", "onnx", qnn_onnx_pipeline)', 'registry.register("qnn", "onnx", qnn_onnx_qdq_pipeline)'), (R, 'registry.register("qnn", "onnx_qdq", qnn_onnx_qdq_pipeline)', 'registry.register("qnn", "onnx_qdq", qnn_onnx_pipeline)')),
    bad("wiring capture unfused", (Q, "register_stage(stage_capture_impl_ff, \"capture_ff\").depends_on(\n        fuse_qdq_weights_stage\n    )", "register_stage(stage_capture_impl_ff, \"capture_ff\")")),
    bad("wiring cleanup swapped", (Q, ".depends_on(convert_captured_ff_stage, source_ff_module_stage)", ".depends_on(source_ff_module_stage, convert_captured_ff_stage)")),
    bad("wiring metadata swapped", (Q, ".depends_on(fx_to_onnx_program, cleanup_ff_quantizer_artifacts_stage)", ".depends_on(cleanup_ff_quantizer_artifacts_stage, fx_to_onnx_program)")),
    bad("wiring metadata early graph", (Q, ".depends_on(fx_to_onnx_program, cleanup_ff_quantizer_artifacts_stage)", ".depends_on(fx_to_onnx_program, convert_captured_ff_stage)")),
    bad("wiring proto before rename", (Q, "stage_onnx_program_to_proto, \"onnx_program_to_proto\"\n    ).depends_on(rename_onnx_input_output_names)", "stage_onnx_program_to_proto, \"onnx_program_to_proto\"\n    ).depends_on(fix_onnx_reshape_allowzero)")),
    bad("wiring rename before alter", (Q, '"alter_onnx_node_names"\n    ).depends_on(add_ff_quantization_metadata)', '"alter_onnx_node_names"\n    ).depends_on(fx_to_onnx_program)')),
    bad("wiring save uncopied", (Q, ".depends_on(copy_metadata_props_from_ir_to_proto)", ".depends_on(onnx_program_to_proto)")),
    bad("wiring encodings uncopied", (Q, ").depends_on(save_onnx_proto)", ").depends_on(onnx_program_to_proto)")),
    bad("wiring io not captured", (Q, 'stage_capture_model_io, "capture_model_io", capture_stage_output=True', 'stage_capture_model_io, "capture_model_io"')),
    bad("wiring io unfused", (D, 'capture_stage_output=True\n    ).depends_on(fuse_qdq_weights_stage)', 'capture_stage_output=True\n    )')),
    bad("wiring gguf order", (GG, "        stage_map_tensor_names, \"map_tensor_names\"\n    ).depends_on(apply_transforms_stage)", "        stage_map_tensor_names, \"map_tensor_names\"\n    ).depends_on(extract_stage)")),
    bad("wiring gguf branch", (GG, '"map_tensor_names"\n    ).depends_on(apply_transforms_stage)', '"map_tensor_names"\n    ).depends_on(extract_stage)'), (GG, ".depends_on(\n        map_names_stage\n    )", ".depends_on(\n        apply_transforms_stage\n    )")),
    # ---- the same behaviour
    good("replace loop", (C, REPL, "        deps: list[StageReference] = []\n        for dep in self._dependencies:\n            if dep is old:\n                deps.append(new)\n            else:\n                deps.append(dep)\n        self._set_dependencies(deps)")),
    good("replace rebuild", (C, REPL, "        self._dependencies = {\n            (new if dep is old else dep): (new if dep is old else dep).name for dep in self._dependencies\n        }")),
    good("dependents inline", (C, "        existing_dependents = self._dependents_of(target_ref)\n", "        existing_dependents = [s for s in self._stages if target_ref in s.dependencies]\n")),
    good("dependents loop", (C, "        return [stage for stage in self._stages if target in stage._dependencies]", "        dependents = []\n        for stage in self._stages:\n            if target in stage._dependencies:\n                dependents.append(stage)\n        return dependents")),
    good("depends_on setdefault", (C, "            if dep not in self._dependencies:\n                self._dependencies[dep] = dep.name", "            self._dependencies.setdefault(dep, dep.name)")),
    good("depends_on continue", (C, "            if dep not in self._dependencies:\n                self._dependencies[dep] = dep.name", "            if dep in self._dependencies:\n                continue\n            self._dependencies[dep] = dep.name")),
    good("set deps loop", (C, "        self._dependencies = {dep: dep.name for dep in deps}", "        updated: dict[\"StageReference\", str] = {}\n        for dep in deps:\n            updated[dep] = dep.name\n        self._dependencies = updated")),
    good("names helper", (C, "        if name in self._stages.values():\n            msg = f\"Stage name '{name}' is already registered\"\n            raise ValueError(msg)\n\n        stage_reference", "        self._check_name(name)\n        stage_reference"), (C, "    def register_eval_stage(", "    def _check_name(self, name: str) -> None:\n        if name in self._stages.values():\n            msg = f\"Stage name '{name}' is already registered\"\n            raise ValueError(msg)\n\n    def register_eval_stage(")),
    good("get_stage items", (C, "        for stage in self._stages:\n            if stage.name == name:\n                return stage\n", "        for stage, stage_name in self._stages.items():\n            if stage_name == name:\n                return stage\n")),
    good("get_stage next", (C, "        for stage in self._stages:\n            if stage.name == name:\n                return stage\n        msg = f\"No stage named '{name}'\"\n        raise KeyError(msg)", "        found = next((stage for stage in self._stages if stage.name == name), None)\n        if found is None:\n            msg = f\"No stage named '{name}'\"\n            raise KeyError(msg)\n        return found")),
    good("before early", (C, "            inherited = list(target_ref._dependencies)\n            new_stage = self.register_stage(stage_fn, name, capture_stage_output)\n            new_stage.depends_on(*inherited)\n            target_ref._set_dependencies([new_stage])", "            inherited = target_ref.dependencies\n            new_stage = self.register_stage(stage_fn, name, capture_stage_output)\n            target_ref._set_dependencies((new_stage,))\n            new_stage.depends_on(*inherited)")),
    good("before flipped", (C, "        if depends_on is None:\n            inherited = list(target_ref._dependencies)\n            new_stage = self.register_stage(stage_fn, name, capture_stage_output)\n            new_stage.depends_on(*inherited)\n            target_ref._set_dependencies([new_stage])\n        else:\n            explicit = [self.get_stage(dep_name) for dep_name in depends_on]\n            new_stage = self.register_stage(stage_fn, name, capture_stage_output)\n            new_stage.depends_on(*explicit)\n        return new_stage", "        if depends_on is not None:\n            dependencies = [self.get_stage(dep_name) for dep_name in depends_on]\n        else:\n            dependencies = list(target_ref._dependencies)\n        new_stage = self.register_stage(stage_fn, name, capture_stage_output).depends_on(*dependencies)\n        if depends_on is None:\n            target_ref._set_dependencies([new_stage])\n        return new_stage")),
    good("before loop", (C, "            explicit = [self.get_stage(dep_name) for dep_name in depends_on]\n", "            explicit = []\n            for dep_name in depends_on:\n                explicit.append(self.get_stage(dep_name))\n")),
    good("replace branches", (C, "        capture = capture_stage_output if capture_stage_output is not None else was_captured\n", "        if capture_stage_output is None:\n            capture = was_captured\n        else:\n            capture = capture_stage_output\n")),
    good("replace pop", (C, "        del self._stages[target_ref]\n        self._result_stages.pop(target_ref, None)\n        self._evaluation_stages.pop(target_ref, None)\n", "        for table in (self._stages, self._result_stages, self._evaluation_stages):\n            table.pop(target_ref, None)\n")),
    good("replace register fn", (C, "        if was_eval:\n            new_stage = self.register_eval_stage(stage_fn, new_name, capture)\n        else:\n            new_stage = self.register_stage(stage_fn, new_name, capture)\n", "        register = self.register_eval_stage if was_eval else self.register_stage\n        new_stage = register(stage_fn, new_name, capture)\n")),
    good("reach recursive", (C, "        stack: list[StageReference] = [src]\n        seen: set[StageReference] = set()\n        while stack:\n            current = stack.pop()\n            if current is dst:\n                return True\n            if current in seen:\n                continue\n            seen.add(current)\n            stack.extend(current._dependencies)\n        return False", "        if src is dst:\n            return True\n        return any(self._reaches(dep, dst) for dep in src._dependencies)")),
    good("reach seen first", (C, "            if current is dst:\n                return True\n            if current in seen:\n                continue\n            seen.add(current)\n            stack.extend(current._dependencies)", "            if current in seen:\n                continue\n            seen.add(current)\n            if current is dst:\n                return True\n            for dep in current._dependencies:\n                stack.append(dep)")),
    good("order method", (C, DFS, "        for stage in self._stages if target_stage is None else [target_stage]:\n            depth_first_traversal(stage)")),
    good("order target branch", (C, DFS, "        if target_stage is not None:\n            depth_first_traversal(target_stage)\n            return pipeline\n        for stage in self._stages:\n            depth_first_traversal(stage)")),
    good("order visited first", (C, "            if stage in visiting:\n                msg = f\"Circular dependency detected: {stage}\"\n                raise ValueError(msg)\n            if stage in visited:\n                return\n", "            if stage in visited:\n                return\n            if stage in visiting:\n                msg = f\"Circular dependency detected: {stage}\"\n                raise ValueError(msg)\n")),
    good("order pipeline lookup", (C, "            visited.add(stage)\n            pipeline.append(stage)", "            pipeline.append(stage)"), (C, "            if stage in visited:", "            if stage in pipeline:")),
    good("run kwargs", (C, "            args, kwargs = exec_ctx.resolve_stage_inputs(stage)\n            result = stage.stage_fn(*args, **kwargs)\n            exec_ctx.save_result(stage, result)", "            inputs = exec_ctx.resolve_stage_inputs(stage)\n            exec_ctx.save_result(stage, stage.stage_fn(*inputs[0], **inputs[1]))")),
    good("run dict copy", (C, "pipeline_kwargs={**self._pipeline_kwargs}", "pipeline_kwargs=dict(self._pipeline_kwargs)")),
    good("inputs branch", (C, "        if not stage._dependencies:\n            args = ((self.pipeline_input,),)\n        else:\n            args = (tuple(self.results[stage] for stage in stage._dependencies),)\n", "        if stage._dependencies:\n            modules = tuple(self.get_results(dep) for dep in stage.dependencies)\n        else:\n            modules = (self.pipeline_input,)\n        args = (modules,)\n")),
    good("outputs loop", (C, "        return (\n            {stage.name: exec_ctx.get_results(stage) for stage in self._result_stages},\n            eval_results,\n        )", "        outputs: dict[str, Any] = {}\n        for stage in self._result_stages:\n            outputs[stage.name] = exec_ctx.results[stage]\n        return outputs, eval_results")),
    good("outputs or", (C, "        if eval_metric is None:\n            eval_metric = metrics.sqnr\n\n        pipeline", "        eval_metric = metrics.sqnr if eval_metric is None else eval_metric\n\n        pipeline")),
    good("registry nested", (R, "if not replace and key in self._factories:", "if not replace and self.has(target, format):")),
    good("registry key vars", (R, "        return target.strip().lower(), format.strip().lower()", "        key = (target.lower().strip(), format.lower().strip())\n        return key")),
    good("wiring local name", (Q, "    onnx_pipeline = Pipeline(pipeline_kwargs)\n", "    pipeline = onnx_pipeline = Pipeline(pipeline_kwargs)\n")),
    good("wiring separate calls", (GG, "    apply_transforms_stage = pipeline.register_stage(\n        stage_apply_target_transforms, \"apply_target_transforms\"\n    ).depends_on(extract_stage)\n", "    apply_transforms_stage = pipeline.register_stage(\n        stage_fn=stage_apply_target_transforms, name=\"apply_target_transforms\"\n    )\n    apply_transforms_stage.depends_on(extract_stage)\n")),
    good("wiring helper", (GG, "    extract_stage = pipeline.register_stage(\n        stage_extract_quantized_weights, \"extract_quantized_weights\"\n    )\n", "    extract_stage = _add(pipeline, stage_extract_quantized_weights, \"extract_quantized_weights\")\n"), (GG, "def gguf_llama_cpp_pipeline(", "def _add(pipeline, fn, name, *deps):\n    return pipeline.register_stage(fn, name).depends_on(*deps)\n\n\ndef gguf_llama_cpp_pipeline(")),
    good("wiring extra stage", (GG, "    pack_stage = pipeline", "    pipeline.register_stage(stage_map_tensor_names, \"map_again\").depends_on(apply_transforms_stage)\n    pack_stage = pipeline")),
]
