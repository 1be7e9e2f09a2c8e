CASES = [
 ("handles not removed when body raises", 1, [("overrides.py", """    try:
        with ff.strict_quantization(False):
            yield
    finally:
        for handle in handles:
            handle.remove()
""", """    with ff.strict_quantization(False):
        yield
    for handle in handles:
        handle.remove()
""")]),
 ("only first handle removed", 1, [("overrides.py", "        for handle in handles:\n            handle.remove()", "        for handle in handles[:1]:\n            handle.remove()")]),
 ("detach forgets to remove", 1, [("overrides.py", "        for handle in self._handles:\n            handle.remove()\n        self._handles = []", "        self._handles = []")]),
 ("attach_to drops handle", 1, [("overrides.py", "            self._handles.append(quantizers.register_override(self))", "            quantizers.register_override(self)")]),
 ("strict exit only on success", 1, [("quantization/strict_quantization.py", "        self.remove()\n\n\ndef", "        if exc_type is None:\n            self.remove()\n\n\ndef")]),
 ("strict post handle not stored", 1, [("quantization/strict_quantization.py", "        self._handles.append(post_handle)\n", "")]),
 ("smoothed cleanup noop", 1, [("range_setting/minmax.py", "        del module\n        metadata.remove()\n\n    def split_module(self, module: torch.nn.Module) -> Iterator[Quantizer]:\n        \"\"\"Split the module into", "        del module\n        del metadata\n\n    def split_module(self, module: torch.nn.Module) -> Iterator[Quantizer]:\n        \"\"\"Split the module into")]),
 ("remove_override clears all", 1, [("nn/quantizer.py", "        return self._quantizer_overrides.pop(override_id, None)", "        fn = self._quantizer_overrides.get(override_id)\n        self._quantizer_overrides.clear()\n        return fn")]),
 ("remove pops last", 1, [("nn/quantizer.py", "        return self._quantizer_overrides.pop(override_id, None)", "        return self._quantizer_overrides.popitem()[1] if override_id else None")]),
 ("id not advanced", 1, [("forward_override.py", "        OverrideHandle.global_handles += 1\n", "        self.global_handles += 1\n")]),
 ("oldest first", 1, [("forward_override.py", "self.override_stack.pop()", "self.override_stack.pop(0)")]),
 ("kwargs dropped", 1, [("forward_override.py", "return self.overridden_fn(*args, **kwargs)", "return self.overridden_fn(*args)")]),
 ("annotate leaks on raise", 1, [("quantization/quantizer_annotations.py", "    finally:\n", "    except ValueError:\n")]),
 ("estimate_ranges stops cleaning", 1, [("range_setting/common.py", "        for module, metadata in prepared_modules:\n            estimator.cleanup(module, metadata)", "        for module, metadata in prepared_modules:\n            estimator.cleanup(module, metadata)\n            break")]),
 ("recorder exit keeps handle on error", 1, [("export/_io_capture.py", "        self.detach()", "        if exc_type is None:\n            self.detach()")]),
 # behaviour preserving
 ("helper extracted", 0, [("overrides.py", """    handles: list[override.OverrideHandle] = []
    for _, quantizer in named_quantizers(model):
        handles.append(quantizer.register_override(DisableQuantizationOverride()))
""", """    handles = _disable_all(model)
"""), ("overrides.py", """@contextlib.contextmanager
def disable_quantization""", """def _disable_all(model):
    return [q.register_override(DisableQuantizationOverride()) for _, q in named_quantizers(model)]


@contextlib.contextmanager
def disable_quantization""")]),
 ("exit stack", 0, [("overrides.py", """    handles: list[override.OverrideHandle] = []
    for _, quantizer in named_quantizers(model):
        handles.append(quantizer.register_override(DisableQuantizationOverride()))

    try:
        with ff.strict_quantization(False):
            yield
    finally:
        for handle in handles:
            handle.remove()
""", """    with contextlib.ExitStack() as stack:
        for _, quantizer in named_quantizers(model):
            stack.enter_context(quantizer.register_override(DisableQuantizationOverride()))
        stack.enter_context(ff.strict_quantization(False))
        yield
""")]),
 ("exit stack callback", 0, [("overrides.py", """    handles: list[override.OverrideHandle] = []
    for _, quantizer in named_quantizers(model):
        handles.append(quantizer.register_override(DisableQuantizationOverride()))

    try:
        with ff.strict_quantization(False):
            yield
    finally:
        for handle in handles:
            handle.remove()
""", """    with contextlib.ExitStack() as stack:
        for _, quantizer in named_quantizers(model):
            handle = quantizer.register_override(DisableQuantizationOverride())
            stack.callback(handle.remove)
        with ff.strict_quantization(False):
            yield
""")]),
 ("while loop detach", 0, [("overrides.py", "        for handle in self._handles:\n            handle.remove()\n        self._handles = []", "        while self._handles:\n            self._handles.pop().remove()")]),
 ("register inlined", 0, [("nn/quantizer.py", "        handle = override.OverrideHandle(self)\n        self._quantizer_overrides[handle.handle_id] = override_fn\n        return handle", "        new_handle = override.OverrideHandle(self)\n        key = new_handle.handle_id\n        registry = self._quantizer_overrides\n        registry[key] = override_fn\n        return new_handle")]),
 ("remove via if", 0, [("nn/quantizer.py", "        return self._quantizer_overrides.pop(override_id, None)", "        if override_id in self._quantizer_overrides:\n            fn = self._quantizer_overrides[override_id]\n            del self._quantizer_overrides[override_id]\n            return fn\n        return None")]),
 ("call protocol reversed list", 0, [("forward_override.py", "        _, override_stack = zip(*sorted(override_map.items()))\n        self.override_stack: list[OverrideFn[T]] = list(override_stack)", "        self.override_stack = [fn for _, fn in sorted(override_map.items())]"), ("forward_override.py", "        if not self.override_stack:\n            return self.overridden_fn(*args, **kwargs)\n        else:\n            override_fn = self.override_stack.pop()\n            return override_fn(self.context, self, args, kwargs)", "        if self.override_stack:\n            override_fn = self.override_stack.pop()\n            return override_fn(self.context, self, args, kwargs)\n        return self.overridden_fn(*args, **kwargs)")]),
 ("cleanup tuple", 0, [("range_setting/common.py", "        for module, metadata in prepared_modules:\n            estimator.cleanup(module, metadata)", "        for entry in prepared_modules:\n            estimator.cleanup(entry[0], entry[1])")]),
 ("cleanup reversed", 0, [("range_setting/common.py", "        for module, metadata in prepared_modules:\n            estimator.cleanup(module, metadata)", "        for module, metadata in reversed(prepared_modules):\n            estimator.cleanup(module, metadata)")]),
]
CASES += [("override id lambda", 0, [("forward_override.py", "zip(*sorted(override_map.items()))", "zip(*sorted(override_map.items(), key=lambda item: item[0]))")]),
 ("override id negative", 1, [("forward_override.py", "zip(*sorted(override_map.items()))", "zip(*sorted(override_map.items(), key=lambda item: -item[0]))")])]
