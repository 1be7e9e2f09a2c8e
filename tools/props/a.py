PROPS = [
 dict(id="A01", title="Scoped switches and temporary state are undone on every exit",
  statement="Every context manager of the library that changes a global switch, an attribute of a caller-visible object or any other state outside itself puts back exactly the value that was there on entry, both when its body completes and when its body raises. The same holds for a switch that is flipped around a module call by a hook: it is reset after the call even when the call raises. A function used through a scope decorator always runs inside that scope.",
  quantifier=dict(over=["histories", "crash_points", "programs"], text="all context managers and flag-writing hooks, all entry values (including nested use), normal and exceptional exit"),
  why_tests_cant="Tests enter a handful of managers from the default state and mostly leave them normally; restoring is needed for every nesting, entry value and exception point.",
  anchors=dict(files=["src/fastforward/flags.py", "src/fastforward/quantization/strict_quantization.py", "src/fastforward/overrides.py", "src/fastforward/quantization/ste.py", "src/fastforward/_orchestration/trace.py"],
   state=[dict(name="strict_quantization / export_mode / compiled_quant_funcs flags", meaning="process wide switches", where="src/fastforward/flags.py")],
   mechanism=[dict(name="flag contexts", where="src/fastforward/flags.py"), dict(name="strict_quantization_for_module hooks", where="src/fastforward/quantization/strict_quantization.py")]),
  technique="abstract interpretation of every manager on all exits (heap-effect analysis)",
  note="Every manager found in the source is interpreted path by path, with an exception injected at its yield or passed to its __exit__; final heap terms are compared with the entry terms. Assumes opaque set-up calls do not raise (that is A02)."),
]
PROPS.append(
 dict(id="A02", title="Temporary overrides, hooks and prepared modules are always removed",
  statement="Every quantizer override, forward hook, recorder attachment or range-estimator preparation that the library registers for the duration of a scope is removed when the scope ends, also when the body or the set-up raises half way, and a handle or owner object that stores registrations releases every one of them when it is removed, detached or its scope is left, after which it can be used again. Removing a handle removes exactly the override registered under it and no other. All overrides of a quantizer take part in its forward, the most recently registered outermost, and receive the quantizer, the next callable and the unchanged arguments.",
  quantifier=dict(over=["histories", "crash_points", "programs"], text="all acquisition sites, all sets of quantizers/modules, normal and exceptional exit, exception at any prepare/user call, any interleaving of register and remove"),
  why_tests_cant="A leaked override only shows when something raises inside the scope or when several scopes are nested and removed in unusual orders; tests exercise the clean path of a few scopes.",
  anchors=dict(files=["src/fastforward/forward_override.py", "src/fastforward/nn/quantizer.py", "src/fastforward/overrides.py", "src/fastforward/range_setting/common.py", "src/fastforward/quantization/freeze.py", "src/fastforward/quantization/strict_quantization.py", "src/fastforward/export/_io_capture.py", "src/fastforward/export/module_export.py"],
   state=[dict(name="Quantizer._quantizer_overrides", meaning="registry of active overrides", where="src/fastforward/nn/quantizer.py")],
   mechanism=[dict(name="OverrideHandle", where="src/fastforward/forward_override.py"), dict(name="estimate_ranges", where="src/fastforward/range_setting/common.py")]),
  technique="acquire/release typestate over abstract-interpretation paths with injected exceptions",
  note="Every acquiring call site found in the source is followed on all paths (loops 0..2 iterations, exceptions at yields and user calls). Handle removal itself is assumed not to raise."))
