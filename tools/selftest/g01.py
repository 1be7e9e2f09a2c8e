E, G, O = "_orchestration/instruction_engine.py", "_orchestration/graph_module.py", "orchestration.py"


def bad(name, *edits):
    return (name, 1, list(edits))


def good(name, *edits):
    return (name, 0, list(edits))


CASES = [
    # ---- data sets
    bad("from_value tuple batches", (E, "isinstance(value, (list, DataLoader)) else", "isinstance(value, (list, tuple, DataLoader)) else")),
    bad("from_value loader not list", (E, "isinstance(value, (list, DataLoader)) else", "isinstance(value, (list,)) else")),
    bad("from_value drops last", (E, "batches = list(value) if", "batches = list(value)[:-1] if")),
    bad("from_value rewraps", (E, "        if isinstance(value, cls):\n            return value\n\n        batches", "        batches")),
    bad("merge first mismatch ok", (E, "if len(set(lengths)) > 1:", "if len(set(lengths)) > 2:")),
    bad("merge reversed", (E, "tpl = tuple(ds.batches[i] for ds in datasets)", "tpl = tuple(ds.batches[i] for ds in reversed(datasets))")),
    bad("merge first batch", (E, "tpl = tuple(ds.batches[i] for ds in datasets)", "tpl = tuple(ds.batches[0] for ds in datasets)")),
    bad("broadcast truncates", (E, "        if len(lengths) != 1:\n            msg = (", "        if len(lengths) > 2:\n            msg = (")),
    bad("broadcast drops", (E, "if len(ds) == 1 else ds for ds in datasets]", "if len(ds) == 1 else ds for ds in datasets if len(ds)]")),
    bad("broadcast one extra", (E, "ActivationDataset(ds.batches * target)", "ActivationDataset(ds.batches * (target - 1))")),
    bad("broadcast first only", (E, "ActivationDataset(ds.batches * target)", "ActivationDataset(datasets[0].batches * target)")),
    # ---- register
    bad("store replaces", (E, "        if ref not in self._data:\n            self._data[ref] = {}\n        self._data[ref][context] = data", "        self._data[ref] = {}\n        self._data[ref][context] = data")),
    bad("store_all replaces", (E, "self._data.setdefault(ref, {}).update(mapping)", "self._data[ref] = mapping")),
    bad("store_all keeps old", (E, "self._data.setdefault(ref, {}).update(mapping)", "self._data.setdefault(ref, mapping)")),
    bad("delete ignores context", (E, "            self._data[ref].pop(context, None)\n            if not", "            self._data[ref].clear()\n            if not")),
    bad("delete always entry", (E, "            if not self._data[ref]:\n                self._data.pop(ref)", "            self._data.pop(ref)")),
    bad("load any context", (E, "        return self._data[ref][context]", "        return next(iter(self._data[ref].values()))")),
    bad("load default", (E, "        return self._data[ref][context]", "        return self._data[ref].get(context, ActivationDataset([]))")),
    # ---- bundles
    bad("gather default context", (E, "            return register.load(ref, context)\n\n        arg", "            return register.load(ref, DEFAULT_CONTEXT)\n\n        arg")),
    good("gather const lookup", (E, "            if isinstance(ref, Const):\n                return ActivationDataset([ref.value])\n            return register.load", "            return register.load")),
    bad("gather const spread", (E, "return ActivationDataset([ref.value])\n            return register", "return ActivationDataset.from_value(ref.value)\n            return register")),
    bad("gather no broadcast", (E, "broadcasted = ActivationDataset.broadcast([*arg_datasets, *kwarg_datasets.values()])", "broadcasted = [*arg_datasets, *kwarg_datasets.values()]")),
    bad("gather kwargs first", (E, "ActivationDataset.broadcast([*arg_datasets, *kwarg_datasets.values()])", "ActivationDataset.broadcast([*kwarg_datasets.values(), *arg_datasets])")),
    bad("gather args sorted kwargs", (E, "kwargs=dict(zip(kwarg_datasets.keys(), broadcasted[n_args:]))", "kwargs=dict(zip(sorted(kwarg_datasets), broadcasted[n_args:]))")),
    bad("gather separately broadcast", (E, "        broadcasted = ActivationDataset.broadcast([*arg_datasets, *kwarg_datasets.values()])", "        broadcasted = [*ActivationDataset.broadcast(arg_datasets), *ActivationDataset.broadcast(list(kwarg_datasets.values()))]")),
    bad("bundle kwargs first batch", (E, "kwargs = {name: ds.batches[i] for name, ds in self.kwargs.items()}", "kwargs = {name: ds.batches[0] for name, ds in self.kwargs.items()}")),
    bad("bundle skips last", (E, "        length = len(self)\n        for i in range(length):", "        length = len(self)\n        for i in range(length - 1):")),
    bad("bundle len kwargs none", (E, "        for ds in self.kwargs.values():\n            return len(ds)\n        return 0", "        return 0")),
    bad("bundle len one", (E, "        for ds in self.args:\n            return len(ds)\n", "        if self.args:\n            return 1\n")),
    # ---- instructions
    bad("storevalue first context", (E, "        for context in self.contexts:\n            register.store(self.target, context, self.value)", "        for context in self.contexts[:1]:\n            register.store(self.target, context, self.value)")),
    bad("load attribute attr first", (E, "                    batches = [batch[key] for batch in dataset]\n                except (KeyError, TypeError):\n", "                    batches = [getattr(batch, key) for batch in dataset]\n                except AttributeError:\n"), ),
    bad("load attribute whole", (E, "batches = [batch[idx] for batch in dataset]", "batches = [dataset.batches[idx] for batch in dataset]")),
    bad("load attribute overwrites source", (E, "register.store(self.target, context, self._extract_attribute(dataset))", "register.store(self.source, context, self._extract_attribute(dataset))")),
    bad("load attribute uses target", (E, "        return iter([self.source])\n\n    def produces", "        return iter([self.target])\n\n    def produces")),
    bad("call uses misses kwargs", (E, "        yield from self.args\n        yield from self.kwargs.values()\n\n    def produces", "        yield from self.args\n\n    def produces")),
    bad("optimize uses misses kwargs", (E, "        yield from self.args\n        yield from self.kwargs.values()\n\n\n@dataclasses", "        yield from self.args\n\n\n@dataclasses")),
    bad("return uses first", (E, "return iter(self.outputs)", "return iter(self.outputs[:1])")),
    bad("call outside context", (E, "                else:\n                    outputs = [self.module(*args, **kwargs) for args, kwargs in bundle]\n            results", "                else:\n                    outputs = []\n            if self.args or self.kwargs:\n                outputs = [self.module(*args, **kwargs) for args, kwargs in bundle]\n            results")),
    bad("call drops kwargs", (E, "outputs = [self.module(*args, **kwargs) for args, kwargs in bundle]", "outputs = [self.module(*args) for args, kwargs in bundle]")),
    bad("call stops after one context", (E, "            results[context] = ActivationDataset(outputs)\n", "            results[context] = ActivationDataset(outputs)\n            break\n")),
    bad("call no-arg when no kwargs", (E, "if not self.args and not self.kwargs:", "if not self.args:")),
    bad("call collapses single", (E, "results[context] = ActivationDataset(outputs)", "results[context] = ActivationDataset.from_value(outputs[0] if len(outputs) == 1 else outputs)")),
    bad("call stores from_value", (E, "results[context] = ActivationDataset(outputs)", "results[context] = ActivationDataset([outputs])")),
    bad("call caches first context", (E, "            bundle = ActivationBundle.gather(register, context, self.args, self.kwargs)\n            with context", "            bundle = ActivationBundle.gather(register, self.contexts[0], self.args, self.kwargs)\n            with context")),
    bad("optimize default context only", (E, "            for context in self.delegate.contexts\n", "            for context in self.delegate.contexts[:1]\n")),
    bad("optimize dedup contexts", (E, "            for context in self.delegate.contexts\n", "            for context in set(self.delegate.contexts)\n")),
    bad("optimize bundles list", (E, "self.delegate.fn(self.module, *bundles)", "self.delegate.fn(self.module, *reversed(bundles))")),
    bad("optimize no kwargs", (E, "ActivationBundle.gather(register, context, self.args, self.kwargs)\n            for", "ActivationBundle.gather(register, context, self.args, {})\n            for")),
    bad("optimize twice", (E, "        self.delegate.fn(self.module, *bundles)", "        self.delegate.fn(self.module, *bundles)\n        self.delegate.fn(self.module, *bundles)")),
    bad("return set of outputs", (E, "for output_ref in self.outputs:", "for output_ref in set(self.outputs):")),
    bad("return first dataset", (E, "context: tuple(ActivationDataset.merge(datasets).batches)", "context: tuple(datasets[0].batches)")),
    bad("delete first target", (E, "        for target_id in self.targets:\n            register.delete(target_id)", "        for target_id in self.targets[:1]:\n            register.delete(target_id)")),
    # ---- moving
    bad("move skips buffers", (E, "            for buffer in self.module.buffers():\n                buffer.data = buffer.data.to(device=self.device)", "            pass")),
    bad("move mapping skips buffers", (E, "            for name, buffer in self.module.named_buffers():\n                if name in self.device:\n                    buffer.data = buffer.data.to(device=self.device[name])\n", "")),
    bad("move mapping first device", (E, "parameter.data = parameter.data.to(device=self.device[name])", "parameter.data = parameter.data.to(device=next(iter(self.device.values())))")),
    bad("move nested not", (E, "return tuple(_move_to_device(v, device) for v in value)", "return tuple(v.to(device=device) if isinstance(v, torch.Tensor) else v for v in value)")),
    bad("move tuple as list", (E, "return tuple(_move_to_device(v, device) for v in value)", "return [_move_to_device(v, device) for v in value]")),
    bad("move dict keys", (E, "            return {k: _move_to_device(v, device) for k, v in value.items()}\n    return value", "            return {str(k): _move_to_device(v, device) for k, v in value.items()}\n    return value")),
    bad("move first batch", (E, "batches=[_move_to_device(batch, device) for batch in dataset.batches]", "batches=[_move_to_device(batch, device) for batch in dataset.batches[:1]]")),
    bad("move entry default context", (E, "        register.store(ref, context, moved)", "        register.store(ref, DEFAULT_CONTEXT, moved)")),
    # ---- contexts
    bad("contexts forward order", (E, "    for node_ref in reversed(order):\n        node = graph.node(node_ref)", "    for node_ref in order:\n        node = graph.node(node_ref)")),
    bad("contexts replaces", (E, "node_contexts[node_input] |= node_contexts[node_ref]\n\n", "node_contexts[node_input] = node_contexts[node_ref]\n\n")),
    bad("contexts delegate only", (E, "            node_contexts[node_input] |= node_contexts[node_ref]\n\n            if node.delegate", "            if node.delegate is None:\n                node_contexts[node_input] |= node_contexts[node_ref]\n\n            if node.delegate")),
    bad("contexts first delegate", (E, "node_contexts[node_input] |= set(node.delegate.contexts)", "node_contexts[node_input] |= set(node.delegate.contexts[:1])")),
    bad("contexts outputs base", (E, "node_contexts[out.unwrap_ref()] |= {DEFAULT_CONTEXT}", "node_contexts[out] |= {DEFAULT_CONTEXT}")),
    bad("contexts first output", (E, "        for out in graph._outputs:\n            node_contexts", "        for out in graph._outputs[:1]:\n            node_contexts")),
    bad("program contexts no delegates", (E, "                case OptimizeModule(delegate=delegate):\n                    all_contexts.update(set(delegate.contexts))\n", "")),
    # ---- inputs
    bad("inputs ignored surplus", (E, "        if len(args) > len(input_names):\n            msg = f\"Expected", "        if len(args) > len(input_names) + 1:\n            msg = f\"Expected")),
    bad("inputs unknown kw ignored", (E, "                msg = f\"Unexpected keyword argument: '{name}'\"\n                raise TypeError(msg)", "                continue")),
    bad("inputs duplicate wins", (E, "            if name in inputs:\n                msg = f\"Multiple values for argument: '{name}'\"\n                raise TypeError(msg)\n", "")),
    bad("inputs missing ok", (E, "        if missing := set(input_names) - inputs.keys():", "        if missing := inputs.keys() - set(input_names):")),
    bad("inputs sorted names", (E, "input_names = list(input_refs.keys())", "input_names = sorted(input_refs.keys())")),
    bad("inputs one context", (E, "            for context in contexts:\n                register.store(ref, context, dataset)", "            register.store(ref, DEFAULT_CONTEXT, dataset)")),
    # ---- engine
    bad("run stops at result", (E, "            if result is None:\n                result = output\n        return result", "            if output is not None:\n                return output\n        return result")),
    bad("run last result", (E, "            if result is None:\n                result = output\n        return result", "            result = output\n        return result")),
    bad("passes from start", (E, "            instructions = pass_fn(instructions)\n", "            instructions = pass_fn(program.instructions)\n")),
    bad("forward keeps engine only", (G, "            self._program = scheduler.schedule(self)\n            self._engine = InstructionEngine()", "            self._program = self._program or scheduler.schedule(self)\n            self._engine = InstructionEngine()")),
    bad("add_output keeps cache", (G, "        self._invalidate_caches()\n        for node in nodes:", "        for node in nodes:")),
    bad("add_input keeps cache", (G, "        self._invalidate_caches()\n        ref = InputRef", "        ref = InputRef")),
    bad("add_node keeps cache", (G, "        self._invalidate_caches()\n        node = Node(", "        node = Node(")),
    bad("invalidate keeps topo", (G, "        self._engine = None\n        self._topo_order = None\n\n    @property", "        self._engine = None\n\n    @property")),
    bad("invalidate keeps engine", (G, "        self._engine = None\n        self._topo_order = None\n\n    @property", "        self._topo_order = None\n\n    @property")),
    # ---- scheduling
    bad("schedule attr base under same", (E, "load_instruction = LoadAttribute(source=base_ref, target=ref, attribute=attr)\n                return ref,", "load_instruction = LoadAttribute(source=base_ref, target=base_ref, attribute=attr)\n                return base_ref,")),
    bad("schedule attr no prereq", (E, "return ref, [*base_instructions, load_instruction]", "return ref, [load_instruction]")),
    bad("schedule attr order", (E, "return ref, [*base_instructions, load_instruction]", "return ref, [load_instruction, *base_instructions]")),
    bad("schedule const default context", (E, "contexts = list(self._node_contexts.get(ref, set())) or [DEFAULT_CONTEXT]", "contexts = [DEFAULT_CONTEXT]")),
    bad("schedule const from_value", (E, "dataset = ActivationDataset([ref.value])\n                store_instruction", "dataset = ActivationDataset.from_value(ref.value)\n                store_instruction")),
    bad("schedule optimize after", (E, "        # Always execute the module to cache activations\n        instructions.append(", "        # Always execute the module to cache activations\n        instructions.insert(\n            0,")),
    bad("schedule call xor optimize", (E, "        # Always execute the module to cache activations\n        instructions.append(", "        if node.delegate is not None:\n            return instructions\n        instructions.append(")),
    bad("schedule kwargs lost prereq", (E, "            ref_id, new_instructions = self._schedule_ref_id(arg)\n            instructions.extend(new_instructions)\n            kwargs[key] = ref_id", "            ref_id, _ = self._schedule_ref_id(arg)\n            kwargs[key] = ref_id")),
    bad("schedule return before prereq", (E, "instructions.extend(output_prerequisites + [return_instruction])", "instructions.extend([return_instruction] + output_prerequisites)")),
    bad("schedule stale contexts", (E, "        self._node_contexts = _propagate_contexts(graph, order)\n        try:", "        self._node_contexts = self._node_contexts or _propagate_contexts(graph, order)\n        try:")),
    bad("schedule inputs sorted", (E, "input_refs=graph._inputs)", "input_refs=dict(sorted(graph._inputs.items())))")),
    # ---- passes
    bad("lifetime first return", (E, "            keep_alive.update(instruction.uses())\n", "            keep_alive.update(instruction.uses())\n            break\n")),
    bad("lifetime ignores produces", (E, "for uuid_id in itertools.chain(instruction.uses(), instruction.produces()):", "for uuid_id in instruction.produces():")),
    bad("lifetime forward", (E, "for idx in range(len(instructions) - 1, -1, -1):\n        instruction", "for idx in range(len(instructions)):\n        instruction")),
    bad("lifetime off by one", (E, "if last_idx == idx and uuid_id not in keep_alive", "if last_idx == idx + 1 and uuid_id not in keep_alive")),
    bad("lifetime before", (E, "        new_instructions.append(instruction)\n\n        # Delete any", "        # Delete any"), (E, "            new_instructions.append(DeleteRegisterEntries(targets=to_delete))\n", "            new_instructions.append(DeleteRegisterEntries(targets=to_delete))\n        new_instructions.append(instruction)\n")),
    bad("lifetime deletes returned", (E, "if last_idx == idx and uuid_id not in keep_alive", "if last_idx == idx")),
    bad("optonly no transitive", (E, "                retained_instructions.append(instruction)\n                required_values.update(instruction.uses())\n\n    return", "                retained_instructions.append(instruction)\n\n    return")),
    good("optonly satisfied", (E, "            if outputs & required_values:\n", "            if outputs & required_values:\n                required_values -= outputs\n")),
    bad("optonly not reversed", (E, "return tuple(reversed(retained_instructions))", "return tuple(retained_instructions)")),
    bad("optonly all outputs", (E, "            if outputs & required_values:\n", "            if outputs and outputs <= required_values and isinstance(instruction, CallModule):\n")),
    bad("weights restore storage", (E, "MoveModule(device=param_devices, module=m) for m", "MoveModule(device=storage_device, module=m) for m")),
    bad("weights restore no buffers", (E, "        param_devices.update({name: buf.device for name, buf in m.named_buffers()})\n", "")),
    bad("weights no move back", (E, "                new_instructions.append(MoveModule(device=storage_device, module=module))\n            case _", "            case _")),
    bad("weights optimize not moved", (E, "            case CallModule(module=module) | OptimizeModule(module=module) if isinstance(\n                module, torch.nn.Module\n            ):\n                new_instructions", "            case CallModule(module=module) if isinstance(\n                module, torch.nn.Module\n            ):\n                new_instructions")),
    bad("weights restore first", (E, "    new_instructions.extend(post_restore)\n    return", "    new_instructions[:0] = post_restore\n    return")),
    bad("acts only first", (E, "                new_instructions.append(MoveActivations(device=compute_device, register_ref=ref))\n", "                new_instructions.append(MoveActivations(device=compute_device, register_ref=ref))\n                break\n")),
    bad("acts nodes only", (E, "                if isinstance(ref.unwrap_ref(), Const):\n                    continue\n                new", "                if not isinstance(ref, NodeRef):\n                    continue\n                new")),
    bad("acts storage", (E, "new_instructions.append(MoveActivations(device=compute_device, register_ref=ref))", "new_instructions.append(MoveActivations(device=storage_device, register_ref=ref))")),
    bad("cancel assumes", (E, "            and module_device.get(right.module) == right.device\n", "")),
    bad("cancel other module", (E, "            and left.module is right.module\n", "")),
    good("cancel records only moves", (E, "                module_device[module] = compute_device\n", "                module_device.setdefault(module, compute_device)\n")),
    bad("cancel default assumed", (E, "module_device.get(right.module) == right.device", "module_device.get(right.module, right.device) == right.device")),
    bad("redundant produced stale", (E, "            ref_device.pop(ref, None)\n            pending.pop(ref, None)\n        result", "            pending.pop(ref, None)\n        result")),
    bad("redundant infer any", (E, "                if len(devs) == 1:\n", "                if devs:\n")),
    bad("redundant unknown equals", (E, "            if ref_device.get(ref) != move.device:\n", "            if ref in ref_device and ref_device.get(ref) != move.device:\n")),
    bad("redundant not recorded", (E, "                result.append(move)\n                ref_device[ref] = move.device\n", "                result.append(move)\n")),
    bad("redundant flush only calls", (E, "            case _:\n                for ref in instr.uses():\n                    _flush(ref)\n", "            case CallModule():\n                for ref in instr.uses():\n                    _flush(ref)\n            case _:\n                pass\n")),
    bad("redundant loadattr", (E, "                if (device := ref_device.get(instr.source)) is not None:\n                    ref_device[instr.target] = device", "                ref_device[instr.target] = compute_device")),
    bad("offload order", (E, "    instructions = _weight_offloading_pass(instructions, compute_device, storage_device, graph)\n    instructions = _activation", "    instructions = _weight_offloading_pass(instructions, storage_device, compute_device, graph)\n    instructions = _activation")),
    good("layerwise passes order", (O, "[optimization_only_pass, lifetime_management_pass]", "[lifetime_management_pass, optimization_only_pass]")),
    bad("layerwise offload first", (O, "            all_passes.append(offloading.create_instruction_pass(graph))", "            all_passes.insert(0, offloading.create_instruction_pass(graph))")),
    bad("layerwise program swap", (O, "        self._graph._program = self._original_program\n        self._graph._engine = self._original_engine", "        self._graph._engine = self._original_engine")),
    # ---- benign
    good("from_value branches", (E, "        batches = list(value) if isinstance(value, (list, DataLoader)) else [value]\n        return cls(batches)", "        if isinstance(value, (list, DataLoader)):\n            return cls(list(value))\n        return cls([value])")),
    good("merge zip", (E, "        batches: list[tuple[Any, ...]] = []\n        for i in range(lengths[0]):\n            tpl = tuple(ds.batches[i] for ds in datasets)\n            batches.append(tpl)\n\n        return ActivationDataset(batches)", "        return ActivationDataset(list(zip(*(ds.batches for ds in datasets))))")),
    good("broadcast loop", (E, "        return [ActivationDataset(ds.batches * target) if len(ds) == 1 else ds for ds in datasets]", "        result = []\n        for ds in datasets:\n            if len(ds) == 1:\n                ds = ActivationDataset(ds.batches * target)\n            result.append(ds)\n        return result")),
    good("store setdefault", (E, "        if ref not in self._data:\n            self._data[ref] = {}\n        self._data[ref][context] = data", "        self._data.setdefault(ref, {})[context] = data")),
    good("gather inline", (E, "        n_args = len(arg_datasets)\n        return cls(\n            args=tuple(broadcasted[:n_args]),\n            kwargs=dict(zip(kwarg_datasets.keys(), broadcasted[n_args:])),\n        )", "        n_args = len(args)\n        positional, named = broadcasted[:n_args], broadcasted[n_args:]\n        return cls(args=tuple(positional), kwargs=dict(zip(kwarg_datasets, named)))")),
    good("call loop", (E, "                    outputs = [self.module(*args, **kwargs) for args, kwargs in bundle]", "                    outputs = []\n                    for args, kwargs in bundle:\n                        outputs.append(self.module(*args, **kwargs))")),
    good("call helper", (E, "                if not self.args and not self.kwargs:\n                    # A node with no inputs (e.g. a buffer/constant producer) is\n                    # called exactly once with no arguments.\n                    outputs = [self.module()]\n                else:\n                    outputs = [self.module(*args, **kwargs) for args, kwargs in bundle]\n", "                outputs = self._call(bundle)\n"), (E, "        register.store_all(self.target, results)\n\n    def uses", "        register.store_all(self.target, results)\n\n    def _call(self, bundle: ActivationBundle) -> list[Any]:\n        if not (self.args or self.kwargs):\n            return [self.module()]\n        return [self.module(*args, **kwargs) for args, kwargs in bundle]\n\n    def uses")),
    good("uses list", (E, "        yield from self.args\n        yield from self.kwargs.values()\n\n    def produces", "        return iter([*self.args, *self.kwargs.values()])\n\n    def produces")),
    good("uses chain", (E, "        yield from self.args\n        yield from self.kwargs.values()\n\n    def produces", "        return itertools.chain(self.args, self.kwargs.values())\n\n    def produces")),
    good("store per context", (E, "            results[context] = ActivationDataset(outputs)\n\n        register.store_all(self.target, results)", "            register.store(self.target, context, ActivationDataset(outputs))"), (E, "        results: dict[StreamKey, ActivationDataset] = {}\n\n", "")),
    good("optimize loop", (E, "        bundles = [\n            ActivationBundle.gather(register, context, self.args, self.kwargs)\n            for context in self.delegate.contexts\n        ]\n", "        bundles = []\n        for ctx in self.delegate.contexts:\n            bundles.append(ActivationBundle.gather(register, ctx, self.args, self.kwargs))\n")),
    good("move isinstance", (E, "    match value:\n        case torch.Tensor():\n            return value.to(device=device)\n        case tuple():", "    if isinstance(value, torch.Tensor):\n        return value.to(device)\n    match value:\n        case tuple():")),
    good("contexts update", (E, "            node_contexts[node_input] |= node_contexts[node_ref]\n\n            if node.delegate", "            node_contexts[node_input].update(node_contexts[node_ref])\n\n            if node.delegate")),
    good("contexts needed", (E, "        for node_input in graph.node_inputs(node_ref):\n            node_contexts[node_input] |= node_contexts[node_ref]\n\n            if node.delegate is not None:\n                node_contexts[node_input] |= set(node.delegate.contexts)\n", "        needed = set(node_contexts[node_ref])\n        if node.delegate is not None:\n            needed |= set(node.delegate.contexts)\n        for node_input in graph.node_inputs(node_ref):\n            node_contexts[node_input] |= needed\n")),
    good("inputs loop", (E, "        inputs: dict[str, Any] = dict(zip(input_names[: len(args)], args))", "        inputs: dict[str, Any] = dict(zip(input_names, args))")),
    good("run enumerate", (E, "        for instruction in instructions:\n            output = instruction.execute(register)", "        for _, instruction in enumerate(instructions):\n            output = instruction.execute(register)")),
    good("lifetime loop", (E, "        to_delete = [\n            uuid_id\n            for uuid_id, last_idx in last_use.items()\n            if last_idx == idx and uuid_id not in keep_alive\n        ]\n", "        to_delete = []\n        for uuid_id, last_idx in last_use.items():\n            if last_idx != idx or uuid_id in keep_alive:\n                continue\n            to_delete.append(uuid_id)\n")),
    good("lifetime forward last", (E, "    for idx in range(len(instructions) - 1, -1, -1):\n        instruction = instructions[idx]\n        for uuid_id in itertools.chain(instruction.uses(), instruction.produces()):\n            if uuid_id not in last_use:\n                last_use[uuid_id] = idx\n", "    for idx, instruction in enumerate(instructions):\n        for uuid_id in itertools.chain(instruction.uses(), instruction.produces()):\n            last_use[uuid_id] = idx\n")),
    good("optonly flat", (E, "        if isinstance(instruction, OptimizeModule):\n            # Any dependency of OptimizeModule must be retained.\n            retained_instructions.append(instruction)\n            required_values.update(instruction.uses())\n        else:\n            outputs = set(instruction.produces())\n            if outputs & required_values:\n", "        if isinstance(instruction, OptimizeModule) or set(instruction.produces()) & required_values:\n            if True:\n")),
    good("weights isinstance", (E, "            case CallModule(module=module) | OptimizeModule(module=module) if isinstance(\n                module, torch.nn.Module\n            ):\n                new_instructions.append(MoveModule(device=compute_device, module=module))\n                new_instructions.append(instruction)\n                new_instructions.append(MoveModule(device=storage_device, module=module))", "            case CallModule(module=module) | OptimizeModule(module=module) if isinstance(\n                module, torch.nn.Module\n            ):\n                load = MoveModule(device=compute_device, module=module)\n                offload = MoveModule(device=storage_device, module=module)\n                new_instructions.extend([load, instruction, offload])")),
    good("cancel nested", (E, "        if i + 1 < len(instructions) and _is_noop(instruction, instructions[i + 1]):\n            i += 2\n            continue\n", "        following = instructions[i + 1] if i + 1 < len(instructions) else None\n        if following is not None and _is_noop(instruction, following):\n            i += 2\n            continue\n")),
    good("flush early return", (E, "        if (move := pending.pop(ref, None)) is not None:\n            if ref_device.get(ref) != move.device:\n                result.append(move)\n                ref_device[ref] = move.device\n", "        move = pending.pop(ref, None)\n        if move is None or ref_device.get(ref) == move.device:\n            return\n        result.append(move)\n        ref_device[ref] = move.device\n")),
    good("schedule node helper", (E, "        args = []\n        for arg in node.args:\n            ref_id, new_instructions = self._schedule_ref_id(arg)\n            instructions.extend(new_instructions)\n            args.append(ref_id)\n", "        args = []\n        for arg in node.args:\n            scheduled = self._schedule_ref_id(arg)\n            instructions += scheduled[1]\n            args.append(scheduled[0])\n")),
    good("forward program helper", (G, "            scheduler = InstructionScheduler()\n            self._program = scheduler.schedule(self)\n            self._engine = InstructionEngine()", "            self._program = InstructionScheduler().schedule(self)\n            self._engine = InstructionEngine()")),
]
