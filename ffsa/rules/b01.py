"""No implicit dequantization.  The tensor-level entry point (__torch_function__), the
dequantization fallback, the default in-place / not-implemented registrations, the casting
kernels and the set of operations excluded from dispatch are extracted from the source.
Every path of the entry point is classified: excluded metadata operation, registered kernel
with the unchanged arguments, or the fallback; the fallback may reach the wrapped operator
only on the paths where the strict flag was read and found false, and then with every
quantized argument dequantized."""
from __future__ import annotations

import ast
import pathlib
import glob
import os
import re

from .common import *

ASSUMPTIONS = ["torch routes every operator on the subclass through __torch_function__ unless torch function dispatch is disabled"]
M = "fastforward.quantized_tensor"
T = M + ".QuantizedTensor"
FLAG = ("attr", ("flag", "strict_quantization"), "value")


def check(ctx):
    p = ctx.p
    models = flag_models(p)
    torch_function(ctx)
    fb = fallback(ctx, models)
    leaf(ctx, fb)
    excluded(ctx)
    removed(ctx)
    inplace_dunders(ctx)
    casts(ctx)
    readers(ctx)


A, K = ("star", ("param", "args")), ("**", ("param", "kwargs"))


def same_kwargs(kw):
    """**kwargs forwarded, allowing the `kwargs or {}` normalisation (an empty dict adds nothing)."""
    return kw in ((K,), ())


def torch_function(ctx):
    f = ctx.func(T + ".__torch_function__")
    fb = ctx.func(M + "._dequantization_fallback")
    bad = []
    outs = run(ctx, f, inline=inline_same_module(deny=(fb.qual, M + "._torch_function_to_op_name")))
    n = {"direct": 0, "kernel": 0, "fallback": 0}
    for o in outs:
        if o.kind == "raise":
            continue
        v = o.val
        kwfull = ("param", "kwargs")
        dropped = o.st.holds(kwfull) is False or o.st.holds(("cmp", "is", kwfull, NONE)) is True

        def kw_ok(kw):
            return kw == (K,) or (dropped and kw == ()) or (len(kw) == 1 and kw[0][0] == "**" and mentions(kw[0][1], kwfull))

        if v[0] != "call":
            bad.append("a path does not return the result of an operator call")
            continue
        fn, a, kw = v[1], v[2], v[3]
        excl = [b for c, b in o.st.conds if c[0] == "cmp" and c[1] == "in" and c[2] == ("param", "func")]
        if fn == ("param", "func"):
            n["direct"] += 1
            if True not in excl:
                bad.append("the plain torch implementation runs for an operation that is not excluded from dispatch")
            if a != (A,) or not kw_ok(kw):
                bad.append("an excluded operation does not receive its arguments unchanged")
        elif fn == ("func", fb.qual):
            n["fallback"] += 1
            if a[:1] != (("param", "func"),) or a[1:] != (A,) or not kw_ok(kw):
                bad.append("the dequantization fallback does not receive the operation and its arguments unchanged")
            ds = [e for e in events(o, "call") if e.name.endswith("dispatcher.dispatch")]
            name_false = any(not b and is_opname(c) for c, b in o.st.conds)
            if not ds and not name_false:
                bad.append("the fallback is used without asking the dispatcher for a kernel")
            for e in ds:
                if o.st.holds(e.value) is True or o.st.holds(("cmp", "is", e.value, NONE)) is False:
                    bad.append("a registered kernel is found but the fallback is used")
        elif is_kernel(fn):
            n["kernel"] += 1
            if a != (A,) or not kw_ok(kw):
                bad.append("a kernel does not receive the operation's arguments unchanged")
            d = fn if fn[0] == "call" else None
            if not is_opname(arg(d, 0, "op_name")):
                bad.append("the dispatcher is not asked under the operation's own name")
            if d[2][1:] != (A,) or not kw_ok(d[3]):
                bad.append("the dispatcher does not see the operation's arguments unchanged")
            if o.st.holds(fn) is False:
                bad.append("a missing kernel is called")
        else:
            bad.append(f"a path returns {fmt(v)[:60]}")
    for k, c in n.items():
        if not c:
            bad.append(f"no path handles the '{k}' case")
    ctx.check("torch-function-protocol", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))


def is_opname(t):
    return t is not None and mentions(t, ("param", "func")) and (contains(t, lambda x: x[0] == "attr" and x[2] == "__name__") or contains(t, lambda x: x[0] == "func" and x[1].endswith("_op_name")))


def is_kernel(fn):
    return fn[0] == "call" and ref_name(fn[1]).endswith("dispatcher.dispatch")


def fallback(ctx, models):
    f = ctx.func(M + "._dequantization_fallback")
    outs = run(ctx, f, inline=no_inline, models=models)
    bad, called, raised = [], 0, 0
    mappers = set()
    for o in outs:
        strict = o.st.holds(FLAG)
        evs = [e for e in o.st.events if e.kind == "call" and (e.name == "param:func" or (e.args and e.args[0] == ("param", "func")))]
        if o.kind == "raise":
            if strict is True and o.val[0] == "call" and ref_name(o.val[1]).endswith("QuantizationError"):
                raised += 1
            elif strict is True:
                bad.append("strict mode is violated with an error other than QuantizationError")
            else:
                bad.append("the operator is refused although strict quantization is off")
            if evs:
                bad.append("the operator runs before strict mode is checked")
            continue
        if strict is None:
            bad.append("a path runs the operator without reading the strict flag")
        elif strict:
            bad.append("an operator runs on dequantized data although strict quantization is on")
        v = o.val
        if v[0] == "call" and v[1] == ("param", "func"):
            called += 1
            parts = [x[1] for x in v[2] if x[0] == "star"] + [x for k, x in v[3] if k == "**"]
            for nm in ("args", "kwargs"):
                hit = [x for x in parts if mentions(x, ("param", nm))]
                if not hit and o.st.holds(("param", nm)) is False:
                    continue
                if not hit:
                    bad.append(f"{nm} are not passed on to the operator")
                for x in hit:
                    m = mapper(x)
                    if m is None:
                        bad.append(f"{nm} are not dequantized recursively before the operator runs")
                    else:
                        mappers.add(m)
        else:
            bad.append("the operator's result is not returned")
    if not called or not raised:
        bad.append("strict and non-strict cases are not distinguished")
    ctx.check("strict-fallback", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))
    return mappers


def mapper(t):
    for x in calls_in(t):
        if ref_name(x[1]).rsplit(".", 1)[-1] in ("tree_map", "tree_map_"):
            for a in x[2]:
                if a[0] in ("func", "closure"):
                    return a[1]
    return None


def leaf(ctx, mappers):
    for q in sorted(mappers):
        f = ctx.p.funcs.get(q)
        if f is None:
            ctx.skip("dequantize-leaf", q, "not a named function")
            continue
        par = ("param", f.params()[0])
        bad = []
        for o in run(ctx, f, inline=no_inline):
            isq = o.st.holds(("isinstance", par, ("class", T)))
            if isq is not False and not (o.val[0] == "call" and ref_name(o.val[1]).endswith("dequantize") and mentions(o.val[1], par) or mentions(o.val, par) and "dequantize" in ref_name(o.val[1] if o.val[0] == "call" else o.val)):
                bad.append("a quantized argument is not dequantized")
            if isq is False and o.val != par:
                bad.append("an ordinary argument is changed")
        ctx.check("dequantize-leaf", short(q), not bad, f.loc, "; ".join(sorted(set(bad))))


# attributes of torch.Tensor that describe, alias or annotate a tensor without computing with its values
METADATA = set("""__cuda_array_interface__ __repr__ __setstate__ __dir__ __reduce_ex__ __sizeof__ __len__ __hash__
_backward_hooks _base _cdata _grad _grad_fn _version as_subclass backward data_ptr grad grad_fn name names has_names
indices _indices pin_memory requires_grad requires_grad_ retain_grad record_stream register_hook
register_post_accumulate_grad_hook refine_names shape device dtype layout ndim itemsize nbytes output_nr retains_grad
storage untyped_storage _typed_storage storage_type _nested_tensor_size _nested_tensor_strides __dlpack_device__
is_cpu is_cuda is_ipu is_leaf is_meta is_mkldnn is_mps is_nested is_quantized is_shared is_sparse is_sparse_csr
is_vulkan is_xpu is_xla is_hpu is_mtia is_maia volatile""".split())
READERS = set("""__bool__ __complex__ __contains__ __float__ __index__ __int__ __long__ __nonzero__ allclose equal
is_nonzero item tolist numpy __array__""".split())


def value_ops(ctx):
    """Decides whether an attribute of torch.Tensor computes with (or reads) tensor values: operators
    the library generates or registers kernels for, methods whose result is a tensor according to the
    stubs of the installed torch, and the scalar readers."""
    p = ctx.p
    names = set(READERS)
    for st in p.module("fastforward._gen.operators").tree.body:
        if isinstance(st, ast.FunctionDef):
            names |= {st.name, f"__{st.name}__", st.name + "_"}
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "register" and n.args and isinstance(n.args[0], ast.Constant):
                names.add(n.args[0].value)
    for f in sorted(pathlib.Path("/opt/venv/lib").glob("python3*/site-packages/torch/_C/__init__.pyi")):
        for c in ast.parse(f.read_text()).body:
            if isinstance(c, ast.ClassDef) and c.name == "TensorBase":
                for st in c.body:
                    r = st.returns if isinstance(st, ast.FunctionDef) else st.annotation if isinstance(st, ast.AnnAssign) else None
                    n = st.name if isinstance(st, ast.FunctionDef) else getattr(getattr(st, "target", None), "id", None)
                    if r is not None and n not in METADATA and "Tensor" in ast.unparse(r):
                        names.add(n)
    return names | {"view", "reshape", "transpose", "clone", "copy_", "abs", "neg", "min", "max", "mean", "eq", "lt", "gt", "data", "real", "imag", "T", "H", "mT", "mH"}


def excluded(ctx):
    """Operations excluded from dispatch must not compute values from the raw data."""
    p = ctx.p
    m = p.module(M)
    names = []
    for st in ast.walk(m.tree):
        if isinstance(st, ast.Call) and isinstance(st.func, ast.Name) and st.func.id == "_set_no_dispatch":
            if isinstance(st.args[0], ast.Constant):
                names.append((st.args[0].value, st))
    for st in m.tree.body:
        if isinstance(st, ast.For) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "_set_no_dispatch" for x in ast.walk(st)):
            it = st.iter
            if isinstance(it, ast.Name):
                it = next((s.value for s in m.tree.body if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == it.id), it)
            if isinstance(it, (ast.List, ast.Tuple, ast.Set)):
                names += [(e.value, e) for e in it.elts if isinstance(e, ast.Constant)]
    ops = value_ops(ctx)
    for n, node in names:
        ctx.check("excluded-is-metadata", n, n not in ops, f"{m.rel}:{node.lineno}", f"'{n}' computes values but bypasses dispatch, so it silently works on the raw integer data")
    ctx.floor("excluded-is-metadata", 40)


def removed(ctx):
    """Default torch implementations of in-place and indexing operations are disabled."""
    p = ctx.p
    m = p.module(M)
    f = ctx.func(M + "._remove_default_implementation")
    bad, n = [], 0
    for o in normals(run(ctx, f, inline=no_inline)):
        regs = [e for e in events(o, "call") if e.name.endswith("dispatcher.register") or e.name == "name:register"]
        if len(regs) != 1:
            bad.append("the refusing kernel is not registered on every path")
            continue
        e = regs[0]
        n += 1
        name, pred, kern, prio = evarg(e, 0, "op_name"), evarg(e, 1, "predicate", NONE), evarg(e, 2, "kernel"), evarg(e, 3, "priority")
        if not mentions(name, ("param", "func_name")) and not mentions(name, ("param", "func")):
            bad.append("the refusing kernel is registered under another name")
        if pred != NONE:
            bad.append("the refusing kernel is conditional")
        if prio is None or not fmt(prio).endswith("NOT_IMPLEMENTED_FALLBACK"):
            bad.append("the refusing kernel does not have the lowest priority, so it hides registered implementations")
        if kern is None or kern[0] != "closure":
            bad.append("kernel unknown")
        else:
            kf = p.funcs.get(kern[1])
            ko = run(ctx, kf, inline=no_inline)
            if any(x.kind != "raise" for x in ko) or any(not ref_name(x.val[1] if x.val[0] == "call" else x.val).endswith("NotImplementedError") for x in ko):
                bad.append("the kernel does not always raise NotImplementedError")
    ctx.check("unsupported-op-raises", short(f.qual), n > 0 and not bad, f.loc, "; ".join(sorted(set(bad))))
    # all in-place methods are covered by the module-level loop
    loop = None
    for st in ast.walk(m.tree):
        if isinstance(st, ast.For) and "_remove_default_implementation" in ast.unparse(st) and re.search(r"\bdir\(", ast.unparse(st.iter)):
            loop = st
    if loop is None:
        ctx.check("in-place-ops-raise", "module loop over torch.Tensor", False, m.rel, "no loop disables the in-place operations of torch.Tensor")
    else:
        outs = in_place_loop(ctx, m, loop)
        bad = []
        for o in outs:
            reg = any(e.kind == "call" and e.name.endswith("_remove_default_implementation") for e in o.st.events)
            el = next((e.value for e in o.st.events if e.kind == "loop"), None)
            if el is None:
                continue
            ends1, ends2 = suffix(o.st, el, "_"), suffix(o.st, el, "__")
            others = [(c, b) for c, b in o.st.conds if mentions(c, el) and not (c[0] == "call" and ref_name(c[1]) == "method:.endswith")]
            if ends1 is not False and ends2 is not True and not reg:
                bad.append("some in-place operations keep the default torch implementation")
            if reg and others:
                bad.append("only some in-place operations are disabled")
        ctx.check("in-place-ops-raise", "module loop over torch.Tensor", not bad, f"{m.rel}:{loop.lineno}", "; ".join(sorted(set(bad))))
    direct = {x.args[0].attr for x in ast.walk(m.tree) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == f.name and x.args and isinstance(x.args[0], ast.Attribute)}
    for nm in ("__getitem__", "__setitem__", "__reversed__"):
        ctx.check("indexing-default-removed", nm, nm in direct, m.rel, f"torch's default {nm} runs on the raw integer data")


def in_place_loop(ctx, m, loop):
    i = Interp(ctx.p, inline=no_inline, loop_iters=(1,))
    return i.run_module(m, [loop])


def suffix(st, el, s):
    for c, b in st.conds:
        if c[0] == "call" and ref_name(c[1]) == "method:.endswith" and c[1][1] == el and c[2] == (const(s),):
            return b
    return None


INPLACE = ["__iadd__", "__isub__", "__imul__", "__imatmul__", "__itruediv__", "__ifloordiv__", "__imod__", "__ilshift__", "__irshift__", "__iand__", "__ixor__", "__ior__", "__ipow__"]


def inplace_dunders(ctx):
    c = ctx.p.cls(T)
    for n in INPLACE:
        f = c.methods.get(n)
        ok = f is not None
        if ok:
            outs = run(ctx, f, inline=no_inline)
            ok = all(o.kind == "raise" or o.val in (("builtin", "NotImplemented"), ("name", "NotImplemented")) for o in outs)
        ctx.check("augmented-assignment-disabled", n, ok, f.loc if f else c.loc, f"{n} runs an in-place update on the raw data of the quantized tensor")
    ctx.floor("augmented-assignment-disabled", 13)


DT = {"double": {"double", "float64"}, "float": {"float", "float32"}, "half": {"half", "float16"}, "bfloat16": {"bfloat16"}, "long": {"long", "int64"}, "int": {"int", "int32"}, "short": {"short", "int16"},
      "char": {"int8"}, "cdouble": {"cdouble", "complex128"}, "cfloat": {"cfloat", "complex64"}, "chalf": {"chalf", "complex32"}, "bool": {"bool"}, "byte": {"uint8"}}


def casts(ctx):
    """tensor.float() & co. dequantize and convert to the dtype of that name."""
    p = ctx.p
    m = p.module(M)
    regs = {}
    i = Interp(p, inline=no_inline, keep=lambda e: e.kind == "call" and e.name.endswith("dispatcher.register"))
    body = [st for st in m.tree.body if isinstance(st, ast.Expr) or isinstance(st, ast.For) and "register" in ast.unparse(st) and "dir(" not in ast.unparse(st.iter)]
    for o in i.run_module(m, body):
        for e in o.st.events:
            nm = evarg(e, 0, "op_name")
            if nm and nm[0] == "const" and nm[2] in DT:
                regs[nm[2]] = (evarg(e, 2, "kernel"), evarg(e, 1, "predicate", NONE), e.loc)
    for nm, dts in DT.items():
        if nm not in regs:
            ctx.check("cast-dequantizes", nm, False, m.rel, f"tensor.{nm}() has no kernel, so it converts the raw integer data or is refused")
            continue
        k, pred, loc = regs[nm]
        ok, why = False, "kernel does not dequantize and convert"
        i2 = Interp(p, inline=inline_same_module())
        i2.entry = p.funcs[M + "._dequantize_qtensor"]
        i2.stack, i2.param_types = [i2.entry], {}
        q = ("param", "qt")
        i2.types[q] = T
        outs = [o for o in i2.call(k, [q], [], State({}), i2.entry, i2.entry.node)]
        if outs and all(o.kind == "value" for o in outs):
            ok = True
            for o in outs:
                v = o.val
                if not (v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("to", "type") and any(fmt(a).split(".")[-1] in dts for a in v[2] + tuple(x for _, x in v[3]))):
                    ok, why = False, f"tensor.{nm}() does not convert to torch.{sorted(dts)[0]}"
                elif not contains(v[1][1], lambda x: x[0] == "call" and ref_name(x[1]).endswith("dequantize") or (x[0] == "attr" and x[2] == "dequantize")):
                    ok, why = False, f"tensor.{nm}() converts without dequantizing"
        if pred != NONE:
            ok, why = False, "the cast is conditional"
        ctx.check("cast-dequantizes", nm, ok, loc, why)
    # .to(dtype)
    f = ctx.func(T + ".to")
    bad = []
    for o in run(ctx, f, inline=no_inline):
        if o.kind == "raise":
            continue
        dts = [(c, b) for c, b in o.st.conds if c[0] == "cmp" and c[1] == "is" and c[3] == NONE and is_dtype_part(c[2])]
        isnone = dts[0][1] if dts else None
        deq = contains(o.val, lambda x: x[0] == "call" and ref_name(x[1]).endswith("dequantize"))
        rewrapped = o.val[0] == "call" and (o.val[1] == ("class", T) or ref_name(o.val[1]) == "builtin:type" or o.val[1][0] == "call")
        if isnone is False and (not deq or rewrapped):
            bad.append("a dtype conversion does not return the dequantized tensor")
        if isnone is False and deq:
            last = o.val
            if not any(is_dtype_part(x) for x in list(last[2]) + [v for _, v in last[3]]):
                bad.append("the requested dtype is ignored")
        if isnone is True and deq:
            bad.append("a device move dequantizes the tensor")
        if isnone is None:
            bad.append("dtype conversions are not distinguished from device moves")
    ctx.check("to-dtype-dequantizes", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))


def is_dtype_part(t):
    return t[0] == "item" and t[2] == const(1) and contains(t[1], lambda x: x[0] == "call" and ref_name(x[1]).endswith("_parse_to"))


def readers(ctx):
    """QuantizedTensor.dequantize itself applies the tensor's own context to its own raw data."""
    f = ctx.func(T + ".dequantize")
    selft = ("param", "self")
    bad = []
    for o in run(ctx, f, inline=inline_same_module()):
        if o.kind == "raise":
            continue
        v = o.val
        if not (v[0] == "call" and v[1][0] in ("attr", "bound") and ref_name(v[1]).endswith("dequantize")):
            bad.append("dequantize does not call the quantization function's dequantize")
            continue
        d, a = arg(v, 0, "quantized_data"), arg(v, 1, "quant_args", arg(v, 1, "params", v[2][1] if len(v[2]) > 1 else None))
        if d is None or not mentions(d, selft) or not raw(d):
            bad.append("the tensor's raw data is not what gets dequantized")
        if a is None or not contains(a, lambda x: x[0] == "attr" and x[2] in ("quantization_params", "quant_args") and mentions(x, selft)) and not contains(a, lambda x: x[0] == "call" and ref_name(x[1]).endswith("quant_args")):
            bad.append("the tensor's own quantization parameters are not used")
        if not contains(v[1], lambda x: x[0] == "attr" and x[2] in ("quantization_fn", "quant_func") and mentions(x, selft)):
            bad.append("the tensor's own quantization function is not used")
    ctx.check("dequantize-own-context", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))


def raw(d):
    return contains(d, lambda x: x[0] == "attr" and x[2] in ("raw_data",)) or contains(d, lambda x: x[0] == "call" and ref_name(x[1]).endswith(("raw_data", "int_repr", "as_subclass")))
