"""Exported graphs and records.  The lowerings of quantize and dequantize are interpreted and their zero
points compared with the offset in canonical form; the stages that capture, convert, clean and evaluate a
model are interpreted with the contexts active at every call; the recorder, the extension of encodings
with recorded inputs and the export of modules are interpreted for an arbitrary leaf, input or module."""
from __future__ import annotations

import ast

from .. import algebra as A
from .common import *
from .g01 import FALSE, NONE, SELF, TRUE, fact, fun, meth, method, norm, paths, unwrap
from .h01 import dictionary, elements, par

ASSUMPTIONS = ["torch.export, torch.onnx.export, optree and onnxruntime have their documented meaning", "the orders of module arguments and graph inputs agree (documented by the code)"]
EX = "fastforward.export"
QDQ = f"{EX}.stages.onnx.onnx_qdq_export_stages"
OST = f"{EX}.stages.onnx.onnx_export_stages"
BASE = f"{EX}.stages.base_pipeline_stages"
IO = f"{EX}._io_capture"
REC = f"{IO}.ModuleIORecorder"
MOD = f"{EX}.module_export"
HELP = f"{EX}._onnx_helpers"
QT = ("class", "fastforward.quantized_tensor.QuantizedTensor")


def check(ctx):
    qdq_context(ctx)
    qdq_resolve(ctx)
    qdq_lowerings(ctx)
    qdq_dtype(ctx)
    qdq_axis(ctx)
    capture(ctx)
    convert(ctx)
    fuse(ctx)
    cleanup(ctx)
    evaluate(ctx)
    parameters(ctx)
    aligned(ctx)
    recording(ctx)
    hook(ctx)
    extend(ctx)
    modules(ctx)
    exporting(ctx)
    names(ctx)
    saving(ctx)


def pol(deny=()):
    return inline_same_module(deny=tuple(deny))


def name_of(e):
    """Last part of the name of the called function."""
    return (e.name or "").split(":")[-1].rsplit(".", 1)[-1]


def active(o, ev):
    """Contexts active at an event, outermost first."""
    out = []
    for e in o.st.events:
        if e is ev:
            return out
        if e.kind == "enter":
            out.append(e.obj)
        elif e.kind == "exit":
            for k in range(len(out) - 1, -1, -1):
                if out[k] == e.obj:
                    del out[k]
                    break
    return out


def flag_of(t):
    """(flag, value) a context sets."""
    if t[0] == "call" and t[1][0] in ("global", "func") and ".flags." in t[1][1]:
        n = t[1][1].rsplit(".", 1)[-1]
        if n == "context" and len(t[2]) == 2 and t[2][0][0] in ("global", "func"):
            return t[2][0][1].rsplit(".", 1)[-1], t[2][1]
        if len(t[2]) == 1:
            return n, t[2][0]
        if not t[2] and len(t[3]) == 1:
            return n, t[3][0][1]
    return None


def flags_at(o, ev):
    out = {}
    for t in active(o, ev):
        f = flag_of(t)
        if f:
            out[f[0]] = f[1]
    return out


def decorated(f, flag):
    """Value a decorator of the function gives the flag."""
    for d in f.node.decorator_list:
        if isinstance(d, ast.Call):
            n = ast.unparse(d.func)
            if n.endswith("flags.context") and len(d.args) == 2 and ast.unparse(d.args[0]).endswith(flag) and isinstance(d.args[1], ast.Constant):
                return const(d.args[1].value)
            if n.endswith(flag) and len(d.args) == 1 and isinstance(d.args[0], ast.Constant):
                return const(d.args[0].value)
    return None


def no_grad(o, ev):
    return any(t[0] == "call" and t[1][0] == "ext" and t[1][1].rsplit(".", 1)[-1] in ("no_grad", "inference_mode") and not t[2] for t in active(o, ev))


def only(t, p):
    """Whether the term is the only element of a parameter tuple."""
    return t == ("item", p, const(0))


def ext(e, name):
    return e.kind == "call" and (e.name or "").startswith("ext:") and e.name[4:] == name


def subs(t):
    if t and isinstance(t[0], str):
        yield t
    for x in t:
        if isinstance(x, tuple):
            yield from subs(x)


def from_ctx(t, C, key):
    """Whether a term is the entry of the context (with any default)."""
    return t == ("item", C, const(key)) or meth(t, "get") == C and t[2][:1] == (const(key),)


def defaults(o, C, key):
    """Defaults with which the entry of the context is read on a path (NONE if there is none)."""
    out = set()
    for t in [x for e in o.st.events for x in (e.value, e.obj, *e.args, *(v for _, v in e.kwargs)) if isinstance(x, tuple)] + [c for c, _ in o.st.conds]:
        for x in subs(t):
            if x[0] == "call" and meth(x, "get") == C and x[2][:1] == (const(key),):
                out.add(x[2][1] if len(x[2]) > 1 else NONE)
    return out


# ------------------------------------------------------------------ Q/DQ lowerings
def qdq_context(ctx):
    f = fun(ctx, "qdq.context", f"{QDQ}._with_ff_qdq_lowerings")
    if f is None:
        return
    C = par(f, 0)

    def raw(t, key):
        return any(from_ctx(x, C, key) for x in subs(t))

    n = 0
    for o in paths(ctx, f, inline=pol(("_resolve_qdq_lowerings",))):
        for e in o.st.events:
            if e.kind in ("setitem", "delitem") or e.kind == "call" and e.name in ("method:.setdefault", "method:.update", "method:.clear", "method:.pop", "method:.popitem"):
                own = e.obj == C or e.obj is not None and (from_ctx(e.obj, C, "onnx_export_options") or meth(e.obj, "get") is not None or e.obj[0] == "item")
                ctx.check("qdq.untouched", f"{e.kind} {fmt(e.obj)[:50]}", not own, e.loc, f"options given by the user are changed: {fmt(e.obj)[:80]}")
        if o.kind != "return":
            continue
        d = dictionary_over(o, o.val, C)
        if d is None:
            ctx.skip("qdq.context", "result", f"not a dictionary with known entries: {fmt(o.val)[:60]}")
            continue
        base, own = d
        ctx.check("qdq.context", "context kept", base == C, f.loc, "the new context does not contain the entries of the given context")
        opts = own.get(const("onnx_export_options"))
        ctx.check("qdq.context", "options", opts is not None, f.loc, "the new context has no export options")
        if opts is None:
            continue
        n += 1
        raws = {x for x in subs(opts) if x[0] in ("dstar",)}
        given_empty = fact(o, lambda c: from_ctx(c, C, "onnx_export_options")) is False
        ctx.check("qdq.context", "options kept", given_empty or bool(raws) or raw(opts, "onnx_export_options"), f.loc, "export options given by the user are dropped")
        # opset: a default that user options override
        v = opset(o, opts)
        if v is not None:
            kind, value = v
            ctx.check("qdq.opset", "user opset", kind == "default", f.loc, "the opset the user asks for is overwritten")
            ctx.check("qdq.opset", "default opset", value[0] == "const" and isinstance(value[2], int) and value[2] >= 21, f.loc, f"the default opset {fmt(value)} has no INT4/INT16 quantization")
        low = [(c, b) for c, b in ((norm(c, b)) for c, b in o.st.conds) if c[0] == "cmp" and c[1] in ("<", "<=") and any(x == const("opset_version") for x in subs(c))]
        ok = any(not b and c[1] == "<" and c[3] == const(21) for c, b in low) or any(not b and c[1] == "<=" and c[3] == const(20) for c, b in low) or any(b and c[1] == "<=" and c[2] == const(21) for c, b in low) or any(b and c[1] == "<" and c[2] == const(20) for c, b in low)
        # set on this path because the user did not ask for one
        fixed = v[1] if v is not None and v[0] == "default" and fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == const("opset_version")) is False else None
        if fixed is not None and fixed[0] == "const" and isinstance(fixed[2], int) and fixed[2] >= 21:
            ok = True
        ctx.check("qdq.opset", "minimum opset", ok, f.loc, "an opset below 21 is accepted")
        # the translation table
        calls = [e for e in o.st.events if e.kind == "call" and name_of(e) == "_resolve_qdq_lowerings"]
        if len(calls) != 1 or calls[0].value is None:
            ctx.skip("qdq.table", "lowerings", "the lowerings are not resolved by one call")
            continue
        Q, D = ("item", calls[0].value, const(0)), ("item", calls[0].value, const(1))
        ctx.check("qdq.opset", "opset of the lowerings", any(x == const("opset_version") or fixed is not None and x == fixed for x in subs(calls[0].args[0] if calls[0].args else calls[0].value)), calls[0].loc, "the lowerings do not use the opset of the export")
        t = None
        for e in o.st.events:
            if e.kind == "setitem" and e.obj == opts and e.args[0] == const("custom_translation_table"):
                t = e.value
        if opts[0] == "dict":
            for x in opts[1:]:
                if x[0] == "pair" and x[1] == const("custom_translation_table"):
                    t = x[2]
        ctx.check("qdq.table", "table", t is not None, f.loc, "the lowerings are not part of the export options")
        if t is None:
            continue
        defaults, forced = table_of(o, t)
        for want, nm, other in ((Q, "quantize_by_tile", "the quantize lowering"), (D, "dequantize_by_tile", "the dequantize lowering")):
            ent = [v for k, v in defaults + forced if op_name(k) == nm]
            ctx.check("qdq.table", nm, ent == [want], f.loc, f"{nm} is not lowered by {other}")
            ctx.check("qdq.table", f"{nm} of the user", not any(op_name(k) == nm for k, v in forced), f.loc, f"a lowering for {nm} given by the user is replaced")
        empty = fact(o, lambda c: meth(c, "get") is not None and c[2][:1] == (const("custom_translation_table"),)) is False
        ctx.check("qdq.table", "table kept", empty or any(x == const("custom_translation_table") for x in subs(t)), f.loc, "lowerings given by the user are dropped")
    if n:
        ctx.floor("qdq.context", 1)
    g = fun(ctx, "qdq.stage", f"{QDQ}.stage_fx_to_onnx_program_qdq")
    if g is not None:
        M, S, C = par(g, 0), par(g, 1), par(g, 2)
        for o in normals(paths(ctx, g, inline=no_inline)):
            cs = [e for e in o.st.events if e.kind == "call" and name_of(e) == "stage_fx_to_onnx_program"]
            if len(cs) != 1:
                ctx.skip("qdq.stage", "export", "the ONNX stage is not called once")
                continue
            e = cs[0]
            a = [evarg(e, 0, "modules"), evarg(e, 1, "sample_inputs"), evarg(e, 2, "context")]
            ctx.check("qdq.stage", "graph and inputs", a[0] == M and a[1] == S, e.loc, "another graph or other inputs are exported")
            ctx.check("qdq.stage", "lowerings", a[2] is not None and a[2][0] == "call" and a[2][1] == ("func", f"{QDQ}._with_ff_qdq_lowerings") and a[2][2] == (C,), e.loc, f"the graph is exported with context {fmt(a[2])[:80]}")
            ctx.check("qdq.stage", "result", o.val == e.value, g.loc, "another program is returned")


def op_name(k):
    return k[1].split(".")[-2] if k[0] == "ext" and k[1].endswith(".default") else (k[1].rsplit(".", 1)[-1] if k[0] == "ext" else op_name(k[1]) if k[0] == "attr" and k[2] == "default" else k[2] if k[0] == "attr" else None)


def dictionary_over(o, t, C):
    """(mapping it extends, own entries) of a dictionary."""
    base, own = None, {}
    if t[0] == "dict":
        for x in t[1:]:
            if x[0] == "dstar" and not own and base is None:
                base = unwrap(x[1], ("dict",))
            elif x[0] == "pair":
                own[x[1]] = x[2]
            else:
                return None
    elif t[0] == "call" and t[1] == ("builtin", "dict") and len(t[2]) == 1:
        base = t[2][0]
        own.update({const(k): v for k, v in t[3]})
    elif t[0] == "bin" and t[1] == "|" and t[3][0] == "dict":
        base = t[2]
        own.update({x[1]: x[2] for x in t[3][1:] if x[0] == "pair"})
    elif meth(t, "copy") is not None:
        base = meth(t, "copy")
    else:
        return None
    for e in o.st.events:
        if e.obj == t and e.kind == "setitem":
            own[e.args[0]] = e.value
    return base, own


def opset(o, opts):
    """How the options get an opset: ("default" | "forced", value)."""
    out = None
    if opts[0] == "dict":
        seen_star = False
        for x in opts[1:]:
            if x[0] == "dstar":
                seen_star = True
            elif x[0] == "pair" and x[1] == const("opset_version"):
                out = ("forced" if seen_star else "default", x[2])
    for e in o.st.events:
        if e.obj != opts:
            continue
        if e.kind == "call" and e.name == "method:.setdefault" and e.args[0] == const("opset_version") and len(e.args) == 2 and out is None:
            out = ("default", e.args[1])
        elif e.kind == "setitem" and e.args[0] == const("opset_version"):
            had = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == const("opset_version"))
            out = ("default" if had is False else "forced", e.value)
    return out


def table_of(o, t):
    """Entries of the table that give way to entries of the user and those that do not."""
    defaults, forced = [], []
    if t[0] == "dict":
        later = [k for k, x in enumerate(t[1:]) if x[0] == "dstar"]
        for k, x in enumerate(t[1:]):
            if x[0] == "pair":
                (defaults if later and k < later[-1] else forced).append((x[1], x[2]))
    if t[0] == "bin" and t[1] == "|":
        for x in t[2][1:] if t[2][0] == "dict" else ():
            if x[0] == "pair":
                defaults.append((x[1], x[2]))
        for x in t[3][1:] if t[3][0] == "dict" else ():
            if x[0] == "pair":
                forced.append((x[1], x[2]))
    for e in o.st.events:
        if e.obj != t:
            continue
        if e.kind == "call" and e.name == "method:.setdefault" and len(e.args) == 2:
            defaults.append((e.args[0], e.args[1]))
        elif e.kind == "setitem":
            had = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == e.args[0])
            (defaults if had is False else forced).append((e.args[0], e.value))
        elif e.kind == "call" and e.name == "method:.update":
            for x in e.args:
                if x[0] == "dict":
                    forced.extend((y[1], y[2]) for y in x[1:] if y[0] == "pair")
    return defaults, forced


def qdq_resolve(ctx):
    f = fun(ctx, "qdq.resolve", f"{QDQ}._resolve_qdq_lowerings")
    if f is None:
        return
    V = par(f, 0)
    for o in paths(ctx, f, inline=no_inline):
        if o.kind != "return":
            ctx.check("qdq.resolve", "unknown opset", "ExportError" in fmt(o.val), f.loc, f"a missing opset fails with {fmt(o.val)[:60]}")
            continue
        if o.val[0] != "tuple" or len(o.val) != 3:
            ctx.skip("qdq.resolve", "lowerings", "the lowerings are not returned as a pair")
            continue
        want = ("_make_ff_quantize_by_tile_onnx", "_make_ff_dequantize_by_tile_onnx")
        for x, n in zip(o.val[1:], want):
            got = x[1][1].rsplit(".", 1)[-1] if x[0] == "call" and x[1][0] == "func" else "?"
            ctx.check("qdq.resolve", n, got == n, f.loc, f"the lowering at the place of {n} is made by {got}")
            if x[0] == "call" and x[2]:
                ctx.check("qdq.resolve", f"{n} opset", any(y == V for y in subs(x[2][0])), f.loc, "the lowering does not use the requested opset")
        for e in o.st.events:
            if e.kind == "call" and e.name == "builtin:getattr" and len(e.args) == 3:
                ctx.check("qdq.resolve", "fallback opset", e.args[2] == NONE, e.loc, f"an opset that onnxscript does not have is replaced by {fmt(e.args[2])[:60]}")
        missing = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[3] == NONE)
        ctx.check("qdq.resolve", "missing opset", missing is not True, f.loc, "an opset that onnxscript does not have is used")


def zero_base(t):
    """Zero point without the cast to the storage type; and the cast."""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("Cast", "CastLike"):
        return t[2][0], (t[1][2], arg(t, 1, "to" if t[1][2] == "Cast" else "target_type"))
    return t, None


def onnx_op(t, name):
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] == name


def qdq_lowerings(ctx):
    keep = ("_ff_axis_from_tile_size", "_ff_quant_dtype_for_bitwidth")
    for maker, node in (("_make_ff_quantize_by_tile_onnx", "QuantizeLinear"), ("_make_ff_dequantize_by_tile_onnx", "DequantizeLinear")):
        rule = "qdq.lowering"
        m = fun(ctx, rule, f"{QDQ}.{maker}")
        if m is None:
            continue
        f = None
        for o in normals(paths(ctx, m, inline=no_inline)):
            if o.val[0] == "closure":
                f = ctx.p.funcs.get(o.val[1])
        if f is None:
            ctx.skip(rule, maker, "the lowering is not a nested function")
            continue
        X, S, T = ("param", "input"), ("param", "scale"), ("param", "tile_size")
        OFF, BITS = ("param", "offset"), ("param", "num_bits")
        if not {"input", "scale", "tile_size", "offset"} <= set(f.all_params()):
            ctx.check(rule, f"{node} signature", False, f.loc, "the lowering does not take the arguments of the operator")
            continue
        n = 0
        for o in paths(ctx, f, inline=inline_same_module(deny=keep)):
            if o.kind != "return":
                continue
            if not any(onnx_op(x, nm) for x in subs(o.val) for nm in ("QuantizeLinear", "DequantizeLinear")):
                ctx.check(rule, f"{node} node", not (o.val[0] == "call" and o.val[1][0] == "attr"), f.loc, f"lowered to {fmt(o.val)[:80]}")
                continue
            t = o.val
            n += 1
            ctx.check(rule, f"{node} node", onnx_op(t, node), f.loc, f"lowered to {fmt(t)[:80]} instead of {node}")
            if not onnx_op(t, node):
                continue
            ctx.check(rule, f"{node} input", t[2][:2] == (X, S), f.loc, f"{node} is applied to {fmt(t[2][0])[:40]} with scale {fmt(t[2][1])[:40] if len(t[2]) > 1 else '-'}")
            zp = arg(t, 2, "zero_point") or arg(t, 2, "y_zero_point" if node == "QuantizeLinear" else "x_zero_point")
            if zp is None:
                none = fact(o, lambda c: c == ("cmp", "is", OFF, NONE))
                ctx.check(rule, f"{node} zero point", node == "DequantizeLinear" and none is True, f.loc, f"{node} has no zero point (the storage type is lost)")
            else:
                z, cast = zero_base(zp)
                none = fact(o, lambda c: c == ("cmp", "is", OFF, NONE))
                if none is True:
                    ok = onnx_op(z, "Sub") and z[2][0] == z[2][1] == S
                    unknown = not (any(onnx_op(z, w) for w in ("Sub", "Add", "Div", "Mul", "Neg", "Round")) or z == S)
                    if onnx_op(z, "Mul"):
                        unknown = any(y[0] == "const" or y[0] == "call" for y in z[2])
                    if unknown:
                        ctx.skip(rule, f"{node} no offset", f"unknown form {fmt(z)[:60]}")
                    else:
                        ctx.check(rule, f"{node} no offset", ok, f.loc, f"without offset the zero point is {fmt(z)[:80]}")
                elif none is False:
                    neg, rnd = False, 0
                    y = z
                    while y[0] == "call" and y[1][0] == "attr" and y[1][2] in ("Neg", "Round", "Identity") and len(y[2]) == 1:
                        if y[1][2] == "Neg":
                            neg = not neg
                        if y[1][2] == "Round":
                            rnd += 1
                        y = y[2][0]
                    if y != OFF and y[0] == "call" and not (y[1][0] == "attr" and y[1][2] in ("Floor", "Ceil")):
                        ctx.skip(rule, f"{node} offset", f"unknown form {fmt(z)[:60]}")
                    else:
                        ctx.check(rule, f"{node} offset", y == OFF and neg and rnd >= 1, f.loc, f"the zero point of an offset is {fmt(z)[:80]} instead of -round(offset)")
                else:
                    ctx.check(rule, f"{node} offset", False, f.loc, "the zero point does not depend on whether there is an offset")
                if node == "QuantizeLinear":
                    ok = cast is not None and cast[0] == "Cast" and cast[1] is not None and cast[1][0] == "call" and cast[1][1] == ("func", f"{QDQ}._ff_quant_dtype_for_bitwidth") and cast[1][2] == (BITS,)
                    ctx.check(rule, f"{node} storage", ok, f.loc, f"the storage type of the quantized values is {fmt(cast[1])[:60] if cast and cast[1] else 'that of the scale'}")
                else:
                    ctx.check(rule, f"{node} storage", cast is not None and (cast[0] == "CastLike" and cast[1] == X), f.loc, "the zero point does not have the type of the quantized input")
            ax = dict(t[3]).get("axis")
            calls = [e for e in o.st.events if e.kind == "call" and name_of(e) == "_ff_axis_from_tile_size"]
            for e in calls:
                ctx.check(rule, f"{node} axis", e.args[:1] == (T,) and evarg(e, 1, "data") == X, e.loc, "the axis is not that of the tile size and the input")
            if len(calls) == 1:
                none = fact(o, lambda c: c == ("cmp", "is", calls[0].value, NONE))
                if none is True:
                    ctx.check(rule, f"{node} per tensor", ax is None or ax == NONE, f.loc, "a quantization per tensor gets an axis")
                else:
                    ctx.check(rule, f"{node} per channel", ax == calls[0].value or "**" in dict(t[3]), f.loc, f"the axis of a quantization per channel is {fmt(ax)[:60] if ax else 'missing'}")
        if n:
            ctx.floor(rule, 1)


def qdq_dtype(ctx):
    f = fun(ctx, "qdq.dtype", f"{QDQ}._ff_quant_dtype_for_bitwidth")
    if f is None:
        return
    B = par(f, 0)
    for o in paths(ctx, f, inline=pol()):
        if o.kind != "return":
            ctx.check("qdq.dtype", "error", "ExportError" in fmt(o.val), f.loc, f"an unsupported bit width fails with {fmt(o.val)[:60]}")
            continue
        whole = fact(o, lambda c: meth(c, "is_integer") is not None) or any(c[0] == "cmp" and c[1] == "==" and b and any(x == ("builtin", "int") for x in subs(c)) and any(x == B for x in subs(c)) for c, b in (norm(c, b) for c, b in o.st.conds))
        ctx.check("qdq.dtype", "fraction", whole is True, f.loc, "a fractional bit width is truncated")
        r = o.val
        tab = meth(r, "get") or (r[1] if r[0] == "item" else None)
        if tab is None or tab[0] != "global":
            ctx.skip("qdq.dtype", "table", f"unknown form {fmt(r)[:60]}")
            continue
        key = r[2][0] if r[0] == "call" else r[2]
        ctx.check("qdq.dtype", "key", any(x == B for x in subs(key)) and not any(x[0] == "bin" for x in subs(key)), f.loc, f"the storage type is that of {fmt(key)[:60]}")
        known = fact(o, lambda c: c[0] == "cmp" and (c[1] == "is" and c[2] == r and c[3] == NONE))
        inside = fact(o, lambda c: c[0] == "cmp" and c[1] == "in")
        ctx.check("qdq.dtype", "unsupported", (known is False or inside is True or r[0] == "item") and (r[0] == "item" or len(r[2]) == 1 or r[2][1] == NONE), f.loc, "an unsupported bit width is not refused")
        mod, n = tab[1].rsplit(".", 1)
        ent = ctx.p.modules[mod].env.get(n)
        if not ent or not isinstance(ent[1], ast.Dict):
            ctx.skip("qdq.dtype", "table", "the table is not a literal")
            continue
        for k, v in zip(ent[1].keys, ent[1].values):
            bits = k.value if isinstance(k, ast.Constant) else None
            t = ast.unparse(v).rsplit(".", 1)[-1]
            ctx.check("qdq.dtype", f"{bits} bits", t == f"INT{bits}", f"{ctx.p.modules[mod].path}:{k.lineno}", f"{bits} bits are stored as {t}; saturation differs from the range of the quantizer")


def qdq_axis(ctx):
    f = fun(ctx, "qdq.axis", f"{QDQ}._ff_axis_from_tile_size")
    if f is None:
        return
    T, D = par(f, 0), par(f, 1)
    ones = None
    for o in normals(paths(ctx, f, inline=pol(), loop_iters=(0, 1))):
        for t in [c for c, b in o.st.conds] + ([o.val] if o.val else []):
            for x in subs(t):
                if x[0] == "comp" and x[2] == ("idx", T):
                    ones = x
    if ones is None:
        ctx.skip("qdq.axis", "candidates", "the candidates are not a comprehension over the tile size")
        return
    ifs = ones[3][0][1]
    ok = len(ifs) == 1 and norm(*ifs[0])[1] is True and norm(*ifs[0])[0][:2] == ("cmp", "==") and norm(*ifs[0])[0][3] == const(1) and any(x == ("elem", T) for x in subs(norm(*ifs[0])[0][2]))
    ctx.check("qdq.axis", "candidates", ok, f.loc, "the candidate axes are not those with tile size 1")
    L = ("call", ("builtin", "len"), (ones,), ())
    for o in normals(paths(ctx, f, inline=pol(), loop_iters=(0, 1))):
        zero = fact(o, lambda c: c == ("cmp", "==", L, const(0)))
        if zero is None:
            b = fact(o, lambda c: c == ones or c == ("nonempty", ones))
            zero = None if b is None else not b
        one = fact(o, lambda c: c == ("cmp", "==", L, const(1)))
        dims = [(c, b) for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] == "==" and c[3] == const(1) and any(x == ("attr", D, "shape") for x in subs(c))]
        if o.val == NONE:
            ctx.check("qdq.axis", "per tensor", zero is True, f.loc, "a quantization per channel is exported per tensor")
        elif o.val == ("idx", T):
            ctx.check("qdq.axis", "channel axis", any(not b for c, b in dims), f.loc, "an axis is chosen although its data dimension is 1")
        elif o.val in (("item", ones, const(0)), ("item", ones, const(-1))):
            if zero is True:
                ctx.check("qdq.axis", "per tensor", False, f.loc, "a quantization per tensor is exported per channel")
            elif one is True:
                pass
            else:
                nodata = fact(o, lambda c: c == ("cmp", "is", D, NONE)) is True or fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[2] == ("attr", D, "shape")) is True
                none_left = fact(o, lambda c: c[0] == "nonempty") is False
                ctx.check("qdq.axis", "fallback", nodata or none_left or (dims and all(b for c, b in dims)), f.loc, "with several axes of tile size 1 the first is taken whatever the data dimensions are")
        elif o.val[0] != "item":
            ctx.skip("qdq.axis", "result", f"unknown form {fmt(o.val)[:60]}")


# ------------------------------------------------------------------ capture
def needs_samples(ctx, rule, o, S, loc):
    return fact(o, lambda c: c[0] == "cmp" and c[1] == "==" and c[2] == ("call", ("builtin", "len"), (S,), ()) and c[3] == const(0)) is True or fact(o, lambda c: c == S or c == ("nonempty", S)) is False


def sample(t, S, k):
    return t == ("item", ("item", S, const(0)), const(k))


def capture(ctx):
    f = fun(ctx, "capture.graph", f"{BASE}.stage_capture_impl_ff")
    if f is not None:
        M, S = par(f, 0), par(f, 1)
        n = 0
        for o in paths(ctx, f, inline=pol()):
            if needs_samples(ctx, "capture.graph", o, S, f.loc):
                ctx.check("capture.graph", "no samples", o.kind == "raise", f.loc, "a model is captured without sample inputs")
                continue
            for e in o.st.events:
                if not ext(e, "torch.export.export"):
                    continue
                n += 1
                fl = flags_at(o, e)
                ctx.check("capture.graph", "export mode", fl.get("export_mode") == TRUE, e.loc, "the model is captured outside export mode: quantizers are not traced as operators")
                ctx.check("capture.graph", "no grad", no_grad(o, e), e.loc, "the model is captured with gradients")
                ctx.check("capture.graph", "not strict", fl.get("strict_quantization") == FALSE, e.loc, "the model is captured in strict mode")
                ctx.check("capture.graph", "module", evarg(e, 0, "mod") is not None and only(evarg(e, 0, "mod"), M), e.loc, f"{fmt(evarg(e, 0, 'mod'))[:60]} is captured")
                a, k = evarg(e, 1, "args"), evarg(e, 2, "kwargs")
                ctx.check("capture.graph", "sample", a is not None and sample(a, S, 0) and k is not None and sample(k, S, 1), e.loc, "the model is not captured with the arguments of a sample")
                ctx.check("capture.graph", "result", o.kind == "return" and o.val == e.value, f.loc, "the captured program is not the result")
        if n:
            ctx.floor("capture.graph", 1)
    f = fun(ctx, "capture.io", f"{BASE}.stage_capture_model_io")
    if f is not None:
        M, S, C = par(f, 0), par(f, 1), par(f, 2)
        for o in paths(ctx, f, inline=pol()):
            if needs_samples(ctx, "capture.io", o, S, f.loc):
                ctx.check("capture.io", "no samples", o.kind == "raise", f.loc, "a reference is recorded without sample inputs")
                continue
            if o.kind != "return":
                continue
            runs = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "call" and e.value is not None and e.value[0] == "call" and only(e.value[1], M)]
            stores = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "call" and name_of(e) == "store_io_as_dict"]
            ctx.check("capture.io", "one run", len(runs) == 1 and len(stores) == 1, f.loc, "the reference is not one run of the model that is stored once")
            if len(runs) != 1 or len(stores) != 1:
                continue
            (k, e), (j, s) = runs[0], stores[0]
            fl = flags_at(o, e)
            ctx.check("capture.io", "eager", fl.get("export_mode") == FALSE, e.loc, "the reference run happens in export mode")
            ctx.check("capture.io", "not strict", fl.get("strict_quantization") == FALSE, e.loc, "the reference run happens in strict mode")
            ctx.check("capture.io", "no grad", no_grad(o, e), e.loc, "the reference run records gradients")
            ctx.check("capture.io", "quantized", not any(t[0] == "call" and "disable_quantization" in fmt(t) for t in active(o, e)), e.loc, "the reference run is not quantized")
            rec = [t for t in active(o, e) if t[0] == "call" and t[1] == ("class", REC)]
            attached = len(rec) == 1 and rec[0][2][:1] and only(rec[0][2][0], M) or any(x.kind == "call" and name_of(x) == "attach" for x in o.st.events[:k])
            ctx.check("capture.io", "recorder", attached, e.loc, "the recorder is not attached to the model during the run")
            ctx.check("capture.io", "order", j > k, s.loc, "the record is stored before the run")
            a = e.args[0] if e.args else None
            ctx.check("capture.io", "sample", a is not None and a[0] == "star" and sample(a[1], S, 0) and dict(e.kwargs).get("**") is not None and sample(dict(e.kwargs)["**"], S, 1), e.loc, "the run does not use the arguments of the sample")
            path = evarg(s, 0, "location")
            ctx.check("capture.io", "path", path is not None and o.val == path and any(from_ctx(x, C, "output_dir") for x in subs(path)) and any(from_ctx(x, C, "model_name") for x in subs(path)), s.loc, "the record is not stored in the output folder under the name of the model, or another path is returned")


def convert(ctx):
    want = {"stage_convert_captured_impl_ff": ("AnnotateFFQuantSpecs", "PropagateFFQuantSpecs"), "stage_convert_captured_impl_ff_qdq": ()}
    for n, passes in want.items():
        f = fun(ctx, "convert.decompose", f"{BASE}.{n}")
        if f is None:
            continue
        M, C = par(f, 0), par(f, 2)
        for o in normals(paths(ctx, f, inline=pol(), loop_iters=(1,))):
            runs = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "call" and e.name == "method:.run_decompositions"]
            ctx.check("convert.decompose", f"{n} once", len(runs) == 1, f.loc, "the program is not decomposed once")
            if len(runs) != 1:
                continue
            k, e = runs[0]
            ctx.check("convert.decompose", f"{n} program", only(e.obj, M), e.loc, "another program is decomposed")
            tab = evarg(e, 0, "decomp_table")
            if tab is None:
                ctx.check("convert.decompose", f"{n} table", False, e.loc, "operators the user wants to keep are decomposed")
                continue
            loops = [x for x in o.st.events[:k] if x.kind == "loop" and any(from_ctx(y, C, "torch_export_decomp_table") for y in subs(x.obj))]
            if loops:
                it = unwrap(loops[0].obj)
                pops = [x for x in o.st.events[:k] if x.obj == tab and (x.kind == "delitem" or x.kind == "call" and x.name == "method:.pop")]
                keys = {x.args[0] for x in pops if x.args}
                base = meth(it, "items") or meth(it, "keys") or it
                ok = any(y in (("key", base), ("elem", base), ("elem", it), ("item", ("elem", it), const(0))) for y in keys)
                ctx.check("convert.decompose", f"{n} table", ok, e.loc, "operators the user wants to keep are decomposed")
                for x in pops:
                    tolerant = x.kind == "call" and len(x.args) == 2 or x.kind == "delitem" and (x.name != "pop" or len(x.args) > 1)
                    known = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == x.args[0] and c[3] == tab)
                    ctx.check("convert.decompose", f"{n} unknown operator", tolerant or known is True, x.loc, "an operator without decomposition fails")
            elif tab[0] == "comp":
                # a filtered table: entries the user names are left out
                ifs = [c for _, cs in tab[3] for c in cs]
                ctx.check("convert.decompose", f"{n} table", any(not norm(*c)[1] and any(from_ctx(y, C, "torch_export_decomp_table") for y in subs(norm(*c)[0])) for c in ifs), e.loc, "operators the user wants to keep are decomposed")
            else:
                ctx.check("convert.decompose", f"{n} table", any(from_ctx(y, C, "torch_export_decomp_table") for x in o.st.events[:k] for a in x.args for y in subs(a)) if tab[0] != "call" else False, e.loc, "operators the user wants to keep are decomposed")
            got = []
            for x in o.st.events:
                if x.kind == "call" and x.value is not None and (x.name or "").endswith("PassManager"):
                    ps = x.args[0] if x.args else dict(x.kwargs).get("passes", NONE)
                    got += [y[1][1].rsplit(".", 1)[-1] for y in ps[1:] if isinstance(y, tuple) and y[0] == "call" and y[1][0] == "class"] if ps[0] in ("list", "tuple") else []
            ctx.check("convert.passes", n, tuple(got) == passes, f.loc, f"passes {got} are applied instead of {list(passes)}")
            ctx.check("convert.passes", f"{n} result", any(y == e.value for y in subs(o.val)), f.loc, "the result is not the converted program")
            if passes:
                ran = any(y[0] == "call" and y[1][0] == "call" and "PassManager" in fmt(y[1]) for y in subs(o.val)) or any("PassManager" in fmt(y) for y in subs(o.val))
                ctx.check("convert.passes", f"{n} applied", ran, f.loc, "the graph without quantization nodes is not the result of the passes")


def fuse(ctx):
    f = fun(ctx, "fuse.gate", f"{BASE}.stage_fuse_qdq_weights")
    if f is None:
        return
    M, C = par(f, 0), par(f, 2)
    for o in paths(ctx, f, inline=no_inline):
        if o.kind != "return":
            continue
        on = fact(o, lambda c: from_ctx(c, C, "store_weights_as_qdq"))
        cs = [e for e in o.st.events if e.kind == "call" and name_of(e) == "fuse_qdq_weights"]
        ctx.check("fuse.gate", "off", on is True or not cs, f.loc, "weights are snapped to the grid without being asked")
        ctx.check("fuse.gate", "on", on is not True or len(cs) == 1, f.loc, "weights are not snapped to the grid although asked")
        for e in cs:
            ctx.check("fuse.gate", "model", e.args[:1] and only(e.args[0], M), e.loc, "another model is changed")
            ctx.check("fuse.gate", "quantizers stay", dict(e.kwargs).get("stub_quantizers", e.args[1] if len(e.args) > 1 else None) == FALSE, e.loc, "the quantizers of snapped weights are removed: the export loses their parameters")
        ctx.check("fuse.gate", "result", only(o.val, M), f.loc, f"the stage returns {fmt(o.val)[:60]}")
        for c, b in o.st.conds:
            c, b = norm(c, b)
            if from_ctx(c, C, "store_weights_as_qdq") and meth(c, "get") is not None:
                ctx.check("fuse.gate", "default", c[2][1:] in ((), (FALSE,), (NONE,)), f.loc, "weights are snapped to the grid by default")


# ------------------------------------------------------------------ cleanup
def cleanup(ctx):
    f = fun(ctx, "cleanup.paths", f"{BASE}._collect_quantizer_module_paths")
    if f is not None:
        M = par(f, 0)
        n = 0
        for o in normals(paths(ctx, f, inline=pol(), loop_iters=(1,))):
            for e in o.st.events:
                if e.kind == "loop" and meth(unwrap(e.obj), "named_modules") is not None:
                    it = unwrap(e.obj)
                    ctx.check("cleanup.paths", "shared quantizers", dict(it[3]).get("remove_duplicate", it[2][2] if len(it[2]) > 2 else TRUE) == FALSE, e.loc, "only the first path of a shared quantizer is known")
                    n += 1
                    el = ("elem", it)
                    isq = fact(o, lambda c: c[0] == "isinstance" and c[1] == ("item", el, const(1)) and "Quantizer" in fmt(c[2]))
                    named = fact(o, lambda c: c == ("item", el, const(0)) or c[0] == "cmp" and c[2] == ("item", el, const(0)))
                    adds = [x for x in o.st.events if x.kind == "call" and x.name in ("method:.add", "method:.append") and x.args[:1] == (("item", el, const(0)),)]
                    if isq is True and named is not False:
                        ctx.check("cleanup.paths", "quantizer", bool(adds), f.loc, "a quantizer is not known to the cleanup")
                    if isq is False:
                        ctx.check("cleanup.paths", "other module", not adds, f.loc, "a module that is no quantizer is taken for one")
        if n:
            ctx.floor("cleanup.paths", 1)
    f = fun(ctx, "cleanup.references", f"{BASE}._collect_graph_referenced_module_paths")
    if f is not None:
        G = par(f, 0)
        N = ("elem", ("attr", ("attr", G, "graph"), "nodes"))
        T = ("attr", N, "target")
        seen = set()
        for o in normals(paths(ctx, f, inline=no_inline, loop_iters=(1,))):
            isstr = fact(o, lambda c: c[0] == "isinstance" and c[1] == T)
            for op, helper in (("call_module", "_module_path_prefixes"), ("get_attr", "_module_prefixes_from_get_attr_target")):
                b = fact(o, lambda c: c == ("cmp", "==", ("attr", N, "op"), const(op)))
                if b is True and isstr is not False:
                    cs = [e for e in o.st.events if e.kind == "call" and name_of(e) == helper]
                    seen.add(op)
                    ctx.check("cleanup.references", op, len(cs) == 1 and T in cs[0].args, f.loc, f"modules referenced by {op} nodes are not collected")
                    for e in cs:
                        if op == "call_module":
                            full = evarg(e, 1, "include_full_path")
                            ctx.check("cleanup.references", "called module", full == TRUE, e.loc, "a called module is not counted as referenced")
                        kept = any(x.kind == "call" and x.name in ("method:.update", "method:.add") and any(y == e.value for a in x.args for y in subs(a)) for x in o.st.events) or any(x.kind == "aug" and e.value in (x.value, *x.args) for x in o.st.events) or any(y == e.value for y in subs(o.val))
                        ctx.check("cleanup.references", f"{op} kept", kept, e.loc, "the modules a node references are dropped")
        if seen:
            ctx.check("cleanup.references", "kinds of nodes", seen == {"call_module", "get_attr"}, f.loc, f"only {sorted(seen)} nodes reference modules")
    prefixes(ctx)
    f = method(ctx, "cleanup.prune", f"{BASE}.PruneUnusedGetAttrsPass", "__call__")
    if f is not None:
        G = par(f, 1)
        N = ("elem", ("attr", ("attr", G, "graph"), "nodes"))
        for o in normals(paths(ctx, f, inline=pol(), loop_iters=(1,))):
            filters = []
            for e in o.st.events:
                if e.kind == "loop" and unwrap(e.obj)[0] == "comp":
                    for _, ifs in unwrap(e.obj)[3]:
                        todo = list(ifs)
                        while todo:
                            c, b = norm(*todo.pop())
                            filters.append((c, b))
                            todo += [(d, True) for d in c[1:] if isinstance(d, tuple)] if b and c[0] == "and" else []
                if e.kind == "call" and e.name == "method:.erase_node":
                    known = lambda p_: next((b for c, b in filters if p_(c)), None) if any(p_(c) for c, b in filters) else fact(o, p_)
                    isget = known(lambda c: c == ("cmp", "==", ("attr", N, "op"), const("get_attr")))
                    unused = known(lambda c: c[0] == "cmp" and c[1] == "==" and c[3] == const(0) and c[2] == ("call", ("builtin", "len"), (("attr", N, "users"),), ()))
                    if unused is None:
                        b = known(lambda c: c == ("attr", N, "users"))
                        unused = None if b is None else not b
                    ctx.check("cleanup.prune", "unused", unused is True, e.loc, "nodes that are used are removed")
                    ctx.check("cleanup.prune", "get_attr", isget is True, e.loc, "nodes other than get_attr are removed")
    f = fun(ctx, "cleanup.live", f"{BASE}.stage_cleanup_ff_quantizer_artifacts")
    if f is not None:
        M = par(f, 0)
        g, src = ("item", M, const(0)), ("item", M, const(1))
        n = 0
        for o in paths(ctx, f, inline=no_inline):
            col = [e for e in o.st.events if e.kind == "call" and name_of(e) == "_collect_quantizer_module_paths"]
            ref = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "call" and name_of(e) == "_collect_graph_referenced_module_paths"]
            if len(col) != 1 or len(ref) != 1:
                ctx.skip("cleanup.live", "stage", "quantizers and references are not collected by one call each")
                continue
            n += 1
            k, r = ref[0]
            ctx.check("cleanup.live", "quantizers", col[0].args[:1] == (src,), col[0].loc, "the quantizers are not those of the original model")
            ctx.check("cleanup.live", "pruned first", any(x == g for x in subs(r.args[0])) and not any(x == src for x in subs(r.args[0])) and (r.args[0] != g or any("Prune" in (x.name or "") for x in o.st.events[:k])), r.loc, "references are collected before unused ones are removed")
            both = fact(o, lambda c: any(x == col[0].value for x in subs(c)) and any(x == r.value for x in subs(c)))
            if o.kind == "return":
                ctx.check("cleanup.live", "live quantizer", both is False or fact(o, lambda c: meth(c, "isdisjoint") is not None) is True, f.loc, "a graph that still uses a quantizer is exported without it")
                fin = [e for e in o.st.events[k:] if e.kind == "call" and "Finalize" in (e.name or "")]
                ctx.check("cleanup.live", "finalize", bool(fin), f.loc, "unused modules are not removed")
            elif o.kind == "raise":
                ctx.check("cleanup.live", "clean graph", both is not False, f.loc, "a graph without quantizers is refused")
        if n:
            ctx.floor("cleanup.live", 1)


def prefixes(ctx):
    """The paths of a called module and of the modules along an attribute are all its prefixes."""
    E = A.Alg()
    f = fun(ctx, "cleanup.prefixes", f"{BASE}._module_path_prefixes")
    if f is not None:
        F = par(f, 1)
        n = 0
        for o in normals(paths(ctx, f, inline=pol(), loop_iters=(1,))):
            full = fact(o, lambda c: c == F)
            got = joined(o, [o.val])
            parts = next((x[1] for x in got if x[0] == "item" and x[2][0] == "slice"), None)
            if full is None or parts is None or len(got) != 1:
                continue
            n += 1
            total = ("call", ("builtin", "len"), (parts,), ())
            want = A.add(E.ev(total), E.ev(const(0 if full else -1)))
            ok = upto(E, got[0], want)
            if ok is None:
                ctx.skip("cleanup.prefixes", "prefixes", f"unknown form {fmt(got[0])[:80]}")
            else:
                ctx.check("cleanup.prefixes", "path" if full else "parents", ok, f.loc, f"the prefixes of a path are {fmt(got[0])[:80]}")
    f = fun(ctx, "cleanup.prefixes", f"{BASE}._module_prefixes_from_get_attr_target")
    if f is not None:
        for o in normals(paths(ctx, f, inline=pol(), loop_iters=(1,))):
            looked = [e for e in o.st.events if e.kind == "call" and e.name == "method:.get_submodule"]
            raised = [e for e in o.st.events if e.kind == "raise"]
            adds = [x for x in o.st.events if x.kind == "call" and x.name in ("method:.add", "method:.append")]
            if len(looked) == 1 and not raised:
                ctx.check("cleanup.prefixes", "attribute modules", any(x.args == looked[0].args for x in adds), looked[0].loc, "a module on the way to an attribute is not counted as referenced")
                got = joined(o, [looked[0].args[0]])
                parts = next((x[1] for x in got if x[0] == "item" and x[2][0] == "slice"), None)
                if parts is not None and len(got) == 1:
                    ok = upto(E, got[0], E.ev(("call", ("builtin", "len"), (parts,), ())))
                    low = upto(E, got[0], A.sub(E.ev(("call", ("builtin", "len"), (parts,), ())), E.ev(const(1))))
                    if ok is not None:
                        ctx.check("cleanup.prefixes", "attribute path", ok or low, f.loc, f"the modules on the way to an attribute are {fmt(got[0])[:80]}")


def joined(o, ts):
    """What is joined into the elements of a collection of paths."""
    out = []
    for t in ts + [a for e in o.st.events if e.kind == "call" and e.name in ("method:.add", "method:.append") for a in e.args]:
        for x in subs(t):
            if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "join" and len(x[2]) == 1:
                out.append(x[2][0])
    return list(dict.fromkeys(out))


def upto(E, t, want):
    """Whether a slice parts[:i], with i from a range, takes every length from 1 to `want`."""
    if t[0] != "item" or t[2][0] != "slice" or t[2][1] not in (NONE, const(0)) or len(t[2]) > 3 and t[2][3] not in (NONE, const(1)):
        return None
    its = [x for x in subs(t[2][2]) if x[0] == "elem" and x[1][0] == "call" and x[1][1] == ("builtin", "range")]
    if not its or len(its[0][1][2]) > 2:
        return None
    r = its[0][1][2]
    lo, hi = (const(0), r[0]) if len(r) == 1 else r
    c = A.sub(E.ev(t[2][2]), E.ev(its[0]))
    return A.add(E.ev(lo), c) == E.ev(const(1)) and A.sub(A.add(E.ev(hi), c), E.ev(const(1))) == want


# ------------------------------------------------------------------ evaluation
def evaluate(ctx):
    for n, quantized in (("stage_fp_eval", False), ("stage_quantized_eval", True)):
        f = fun(ctx, "eval", f"{BASE}.{n}")
        if f is None:
            continue
        M, S = par(f, 0), par(f, 1)
        count = 0
        for o in normals(paths(ctx, f, inline=no_inline, loop_iters=(1,))):
            runs = [e for e in o.st.events if e.kind == "call" and e.value is not None and e.value[0] == "call" and only(e.value[1], M)]
            for e in runs:
                count += 1
                ctx.check("eval", f"{n} no grad", no_grad(o, e), e.loc, "the evaluation records gradients")
                off = [t for t in active(o, e) if t[0] == "call" and t[1][0] == "func" and t[1][1].endswith("disable_quantization")]
                if quantized:
                    ctx.check("eval", f"{n} quantized", not off, e.loc, "the quantized evaluation runs without quantization")
                else:
                    ctx.check("eval", f"{n} float", any(t[2] and only(t[2][0], M) for t in off), e.loc, "the floating point evaluation runs quantized")
                a, k = (e.args[0] if e.args else None), dict(e.kwargs).get("**")
                el = ("elem", S)
                ctx.check("eval", f"{n} sample", a == ("star", ("item", el, const(0))) and k == ("item", el, const(1)), e.loc, "the evaluation does not use the arguments of every sample")
            r = elements(o, o.val)
            if r is None:
                ctx.skip("eval", f"{n} result", f"unknown form {fmt(o.val)[:60]}")
                continue
            el, over = r
            ctx.check("eval", f"{n} all samples", unwrap(over) == S, f.loc, f"only {fmt(over)[:60]} are evaluated")
            if runs:
                v = runs[0].value
                ctx.check("eval", f"{n} output", (meth(el, "dequantize") == v) if quantized else el == v, f.loc, f"the output of a sample is {fmt(el)[:80]}")
        if count:
            ctx.floor("eval", 1)


# ------------------------------------------------------------------ recorder
def parameters(ctx):
    f = fun(ctx, "record.parameters", f"{IO}._dequant_and_get_quantparams")
    if f is None:
        return
    T = par(f, 0)
    shape = ("attr", T, "shape")
    n = 0
    for o in normals(paths(ctx, f, inline=pol())):
        if o.val[0] != "tuple" or len(o.val) != 3:
            ctx.skip("record.parameters", "result", "not a pair")
            continue
        n += 1
        ctx.check("record.parameters", "values", meth(o.val[1], "dequantize") == T, f.loc, f"the recorded values are {fmt(o.val[1])[:60]}")
        d = dictionary(o, o.val[2])
        if d is None:
            ctx.skip("record.parameters", "fields", "fields are not known")
            continue
        for k in ("scale", "offset", "num_bits"):
            v = d.get(const(k))
            ctx.check("record.parameters", k, v is not None and v[0] == "attr" and v[2] == k and meth(v[1], "quant_args") == T, f.loc, f"the recorded {k} is {fmt(v)[:60] if v else 'missing'}")
        ctx.check("record.parameters", "data_shape", d.get(const("data_shape")) == shape, f.loc, f"the recorded shape is {fmt(d.get(const('data_shape')))[:60] if d.get(const('data_shape')) else 'missing'}")
        v = d.get(const("tile_size"))
        whole = fact(o, lambda c: c[0] == "cmp" and c[1] == "==" and c[3] == const("data_shape"))
        ts = lambda t: meth(t, "tile_size") is not None and t[2] == (shape,)
        ctx.check("record.parameters", "tile_size", v is not None and (v == shape if whole is True else ts(v)), f.loc, f"the recorded tile size is {fmt(v)[:60] if v else 'missing'}")
    if n:
        ctx.floor("record.parameters", 1)


def aligned(ctx):
    """For an arbitrary leaf, one value and one setting are recorded."""
    keep = ("_dequant_and_get_quantparams",)
    for n in ("_dequantize_leaves", "_deep_dequantize"):
        f = fun(ctx, "record.leaves", f"{IO}.{n}")
        if f is None:
            continue
        A = par(f, 0)
        count = 0
        for o in normals(paths(ctx, f, inline=pol(keep), loop_iters=(1,))):
            loops = [e for e in o.st.events if e.kind == "loop"]
            if o.val[0] != "tuple" or len(o.val) != 3 or len(loops) != 1:
                ctx.skip("record.leaves", n, "unknown form")
                continue
            it = unwrap(loops[0].obj)
            el = ("elem", it)
            if n == "_dequantize_leaves":
                ctx.check("record.leaves", f"{n} all", it == A, f.loc, f"only {fmt(it)[:60]} are recorded")
                lists = [unwrap(o.val[1]), unwrap(o.val[2])]
            else:
                flat = it[1] if it[0] == "item" and it[2] == const(0) else None
                ok = flat is not None and flat[0] == "call" and "tree_flatten" in fmt(flat[1]) and flat[2][:1] == (A,)
                ctx.check("record.leaves", f"{n} all", ok, f.loc, f"only {fmt(it)[:60]} are recorded")
                if not ok:
                    continue
                lists = []
                for x in o.val[1:]:
                    good = x[0] == "call" and "tree_unflatten" in fmt(x[1]) and x[2][0] == ("item", flat, const(1))
                    ctx.check("record.leaves", f"{n} structure", good, f.loc, "the structure of the recorded values is not that of the arguments")
                    lists.append(unwrap(x[2][1]) if good else NONE)
            isq = fact(o, lambda c: c[0] == "isinstance" and c[1] == el and c[2] == QT)
            if isq is None:
                ctx.skip("record.leaves", n, "the leaf is not tested")
                continue
            count += 1
            got = []
            for l in lists:
                adds = [e.args[0] for e in o.st.events if e.kind == "call" and e.obj == l and e.name == "method:.append"]
                got.append(adds)
            call = [e.value for e in o.st.events if e.kind == "call" and name_of(e) == "_dequant_and_get_quantparams" and e.args[:1] == (el,)]
            if isq:
                want = [[("item", call[0], const(0))], [("item", call[0], const(1))]] if len(call) == 1 else None
            else:
                want = [[el], [NONE]]
            ctx.check("record.leaves", f"{n} {'quantized' if isq else 'other'} leaf", got == want, f.loc, f"a leaf is recorded as {[[fmt(x)[:40] for x in g] for g in got]}")
        if count:
            ctx.floor("record.leaves", 1)
    f = fun(ctx, "record.detach", f"{IO}._deep_detach_tensors")
    if f is not None:
        for o in normals(paths(ctx, f, inline=pol())):
            ok = o.val[0] == "call" and "tree_map" in fmt(o.val[1]) and par(f, 0) in o.val[2]
            if ok:
                lam = o.val[2][0]
                g = ctx.p.funcs.get(lam[1]) if lam[0] in ("closure", "func") else None
                ctx.check("record.detach", "structure", True, f.loc, "")
                if lam[0] in ("closure", "func"):
                    nodes = [g.node] if g is not None and not (g.node is f.node) else [x for x in ast.walk(f.node) if isinstance(x, ast.Lambda)]
                    ctx.check("record.detach", "tensors", any(isinstance(x, ast.Attribute) and x.attr in ("detach", "detach_", "data") for nd in nodes for x in ast.walk(nd)), f.loc, "tensors are not detached")
                if g is not None:
                    for p in normals(paths(ctx, g, inline=pol())):
                        t = fact(p, lambda c: c[0] == "isinstance")
                        v = par(g, 0)
                        ctx.check("record.detach", "leaf", (meth(p.val, "detach") == v) if t else p.val == v, g.loc, f"a leaf becomes {fmt(p.val)[:60]}")
            else:
                ctx.skip("record.detach", "structure", f"unknown form {fmt(o.val)[:60]}")


def recording(ctx):
    f = method(ctx, "record.call", REC, "__call__")
    if f is None:
        return
    ps = f.params()
    I, K, OUT = ("param", ps[2]), ("param", ps[3]), ("param", ps[4])
    keep = ("_deep_dequantize", "_dequantize_leaves", "_dequant_and_get_quantparams")
    n = 0
    for o in normals(paths(ctx, f, inline=pol(keep))):
        last = {}
        for e in o.st.events:
            if e.kind == "setattr" and e.obj == SELF:
                last[e.name] = e.value
        for field, src, helper in (("input", I, "_deep_dequantize"), ("kwargs", K, "_deep_dequantize"), ("output", OUT, "_dequantize_leaves")):
            v, s = last.get(field), last.get(f"{field}_quantizer_settings")
            if v is None or s is None:
                ctx.check("record.call", field, False, f.loc, f"{field} is not recorded")
                continue
            n += 1
            ok = v[0] == "item" and s[0] == "item" and v[1] == s[1] and v[2] == const(0) and s[2] == const(1) and v[1][0] == "call" and v[1][1] == ("func", f"{IO}.{helper}")
            ctx.check("record.call", f"{field} dequantized", ok, f.loc, f"{field} is recorded as {fmt(v)[:60]} with settings {fmt(s)[:60]}")
            if not ok:
                continue
            a = v[1][2][0]
            if field == "output":
                good = a[0] == "call" and ("tree_leaves" in fmt(a[1]) or "tree_flatten" in fmt(a[1])) and a[2][:1] == (OUT,) or a[0] == "item" and any(x == OUT for x in subs(a))
                ctx.check("record.call", "output leaves", good, f.loc, f"the leaves of the output are {fmt(a)[:60]}")
            elif field == "input":
                tup = fact(o, lambda c: c[0] == "isinstance" and c[1] == I)
                ctx.check("record.call", "input tuple", a == I if tup is True else a == ("tuple", I) if tup is False else any(x == I for x in subs(a)), f.loc, f"the inputs are recorded as {fmt(a)[:60]}")
            else:
                ctx.check("record.call", "kwargs", unwrap(a, ("dict",)) == K, f.loc, f"the keyword arguments are recorded as {fmt(a)[:60]}")
        ctx.check("record.call", "module output", o.val == NONE, f.loc, "the hook replaces the output of the module")
    if n:
        ctx.floor("record.call", 1)


def hook(ctx):
    H = ("attr", SELF, "handle")
    f = method(ctx, "record.hook", REC, "attach")
    if f is not None:
        for o in paths(ctx, f, inline=pol()):
            free = fact(o, lambda c: c == ("cmp", "is", H, NONE))
            if free is None:
                b = fact(o, lambda c: c == H)
                free = None if b is None else not b
            regs = [e for e in o.st.events if e.kind == "call" and e.name == "method:.register_forward_hook"]
            if o.kind == "return":
                ctx.check("record.hook", "attach twice", free is True, f.loc, "a recorder can be attached twice; the first hook is never removed")
                ctx.check("record.hook", "attached", len(regs) == 1, f.loc, "attach does not register the recorder")
                for e in regs:
                    ctx.check("record.hook", "module", e.obj == ("attr", SELF, "module"), e.loc, "the recorder is attached to another module")
                    ctx.check("record.hook", "recorder", evarg(e, 0, "hook") == SELF, e.loc, "another hook is registered")
                    ctx.check("record.hook", "kwargs", dict(e.kwargs).get("with_kwargs") == TRUE, e.loc, "keyword arguments are not given to the recorder")
                    ctx.check("record.hook", "handle", any(x.kind == "setattr" and x.obj == SELF and x.name == "handle" and x.value == e.value for x in o.st.events), e.loc, "the handle of the hook is lost")
            elif o.kind == "raise":
                ctx.check("record.hook", "attach", free is not True, f.loc, "a recorder that is not attached cannot be attached")
    for n in ("detach", "__exit__"):
        f = method(ctx, "record.hook", REC, n)
        if f is None:
            continue
        for o in normals(paths(ctx, f, inline=pol())):
            free = fact(o, lambda c: c == ("cmp", "is", H, NONE))
            if free is None:
                b = fact(o, lambda c: c == H)
                free = None if b is None else not b
            rem = [e for e in o.st.events if e.kind == "call" and e.name == "method:.remove" and e.obj == H]
            reset = any(x.kind == "setattr" and x.obj == SELF and x.name == "handle" and x.value == NONE for x in o.st.events)
            ctx.check("record.hook", n, free is True or (len(rem) == 1 and reset), f.loc, f"{n} leaves the recorder attached")
            if n == "__exit__":
                ctx.check("record.hook", "errors", o.val in (NONE, FALSE), f.loc, "errors of the recorded run are swallowed")
    f = method(ctx, "record.hook", REC, "__enter__")
    if f is not None:
        for o in normals(paths(ctx, f, inline=pol(("attach",)))):
            ctx.check("record.hook", "__enter__", o.val == SELF and any(e.kind == "call" and name_of(e) in ("attach", "register_forward_hook") for e in o.st.events), f.loc, "entering the recorder does not attach it")
    f = method(ctx, "record.store", REC, "store_io_as_dict")
    if f is not None:
        L = par(f, 1)
        for o in normals(paths(ctx, f, inline=pol())):
            dumps = [e for e in o.st.events if e.kind == "call" and (e.name or "").endswith("pickle.dump")]
            texts = [e for e in o.st.events if e.kind == "call" and (e.name or "").endswith("pickle.dumps")]
            if not dumps and len(texts) == 1:
                put = [e for e in o.st.events if e.kind == "call" and e.name in ("method:.write", "method:.write_bytes") and e.args == (texts[0].value,)]
                ctx.check("record.store", "location", len(put) == 1 and any(x == L for x in subs(put[0].obj)), f.loc, "the record is stored elsewhere or not at all")
                dumps = [texts[0]]
            ctx.check("record.store", "stored", len(dumps) == 1, f.loc, "the record is not stored once")
            for e in dumps:
                d = dictionary(o, e.args[0])
                want = {const(k): ("attr", SELF, k) for k in ("input", "output", "kwargs")}
                ctx.check("record.store", "fields", d is None or all(d.get(k) == v for k, v in want.items()), e.loc, f"the stored record is {fmt(e.args[0])[:100]}")
                if len(e.args) > 1:
                    ctx.check("record.store", "location", any(x == L for x in subs(e.args[1])), e.loc, "the record is stored elsewhere")


# ------------------------------------------------------------------ encodings of recorded tensors
def extend(ctx):
    f = fun(ctx, "extend", f"{MOD}.maybe_extend_encodings_file")
    if f is None:
        return
    N, P, S, H = (par(f, k) for k in range(4))
    INP, KW, OUT = (("item", S, const(k)) for k in ("input", "kwargs", "output"))
    n = 0
    for o in normals(paths(ctx, f, inline=pol(), loop_iters=(1,))):
        adds = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "call" and name_of(e) == "add_encoding"]
        for k, e in adds:
            ctx.check("extend", "handler", e.obj == H, e.loc, "encodings are added to another handler")
            name, q = evarg(e, 0, "name"), evarg(e, 1, "quant_params") or evarg(e, 1, "encoding")
            isp = e.args[2] if len(e.args) > 2 else next((v for kk, v in e.kwargs if "param" in kk and v[0] == "const"), None)
            ctx.check("extend", "activation", isp == FALSE, e.loc, "the encoding of an activation is added as that of a parameter")
            if q is None and len(e.args) > 1:
                q = e.args[1]
            if name is None or q is None:
                continue
            n += 1
            outs = any(meth(x, "get_outputs") is not None for x in subs(name))
            ins = any(meth(x, "get_inputs") is not None for x in subs(name))
            if outs:
                ctx.check("extend", "output", any(x == OUT for x in subs(q)) and q[0] == "elem", e.loc, f"an output gets settings {fmt(q)[:80]}")
                loops = [x for x in o.st.events[:k] if x.kind == "loop"]
                it = loops[-1].obj if loops else None
                if it is not None and it[0] == "call" and it[1] == ("builtin", "zip"):
                    ctx.check("extend", "outputs in order", len(it[2]) == 2 and meth(unwrap(it[2][0]), "get_outputs") is not None and unwrap(it[2][1]) == OUT, e.loc, f"outputs and settings are paired as {fmt(it)[:100]}")
            elif ins:
                kw = q in (("item", KW, name),) or meth(q, "get") == KW and q[2][:1] == (name,)
                pos = q[0] == "item" and q[1] == INP
                ctx.check("extend", "input", kw or pos, e.loc, f"an input gets settings {fmt(q)[:80]}")
                if pos:
                    isk = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[3] == NONE and any(x == KW for x in subs(c)))
                    isin = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[3] == KW)
                    ctx.check("extend", "keyword first", isk is True or isin is False, e.loc, "an input given as keyword argument gets the settings of a positional argument")
                    ctx.check("extend", "first input", q[2] == const(0) or q[2][0] != "const", e.loc, f"the first positional input gets setting {fmt(q[2])}")
            none = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[2] == q and c[3] == NONE)
            ctx.check("extend", "quantized only", none is not True, e.loc, "an encoding is added for a tensor that is not quantized")
        # what is written is what the handler builds after the additions
        dumps = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "call" and (e.name or "").endswith("json.dump")]
        builds = [k for k, e in enumerate(o.st.events) if e.kind == "call" and name_of(e) == "build_encodings_dictionary" and e.obj == H]
        ctx.check("extend", "written", len(dumps) == 1, f.loc, "the extended encodings are not written once")
        for k, e in dumps:
            built = meth(e.args[0], "build_encodings_dictionary") == H
            ctx.check("extend", "encodings", built, e.loc, f"{fmt(e.args[0])[:80]} is written instead of the encodings of the handler")
            ctx.check("extend", "complete", not built or builds and all(b > max([j for j, _ in adds], default=-1) for b in builds[-1:]), e.loc, "encodings are written before all are added")
            ctx.check("extend", "file", any(x == P for x in subs(e.args[1])) and any(x == N for x in subs(e.args[1])) and ".encodings" in fmt(e.args[1]), e.loc, "the encodings are written to another file")
    # several positional inputs: the second gets the second setting
    two, later, first_off = 0, False, False
    for o in normals(paths(ctx, f, inline=pol(), loop_iters=(2,))):
        adds = [e for e in o.st.events if e.kind == "call" and name_of(e) == "add_encoding" and len(e.args) > 1 and e.args[1][0] == "item" and e.args[1][1] == INP]
        if len(adds) == 2 and adds[0].args[0] != adds[1].args[0]:
            two += 1
            ctx.check("extend", "positions", adds[0].args[1] != adds[1].args[1] and adds[0].args[1][2] == const(0) and adds[1].args[1][2] in (const(1), ("bin", "+", const(0), const(1))), adds[1].loc, f"the second positional input gets setting {fmt(adds[1].args[1][2])}")
    # an unquantized positional input uses up its position
        keys = [e for e in o.st.events if e.kind == "call" and name_of(e) == "add_encoding" and len(e.args) > 1 and meth(e.args[1], "get") == KW]
        if len(adds) == 1 and not keys:
            i0 = adds[0].args[1][2]
            none0 = fact(o, lambda c: c == ("cmp", "is", ("item", INP, const(0)), NONE))
            if none0 is True:
                ctx.check("extend", "unquantized position", i0 != const(0), adds[0].loc, "an unquantized positional input does not use up its position")
        if fact(o, lambda c: c == ("cmp", "is", ("item", INP, const(0)), NONE)) is True:
            first_off = True
            later |= any(x == ("item", INP, const(1)) for c, _ in o.st.conds for x in subs(c)) or any(a == ("item", INP, const(1)) for e in adds for a in e.args)
    if two and first_off:
        ctx.check("extend", "position used up", later, f.loc, "an unquantized positional input does not use up its position: the next input gets its settings")
    if n:
        ctx.floor("extend", 1)


# ------------------------------------------------------------------ exporting modules
def modules(ctx):
    f = fun(ctx, "modules", f"{MOD}.export_modules")
    if f is None:
        return
    ps = f.all_params()
    P = {k: ("param", k) for k in ps}
    MODEL, H = P.get("model"), P.get("encoding_schema_handler")
    keep = ("export", "maybe_extend_encodings_file", "_deep_detach_tensors")
    n = 0
    for o in paths(ctx, f, inline=pol(keep), loop_iters=(1,)):
        if o.kind != "return":
            continue
        runs = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "call" and e.name == "param:model"]
        exports = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "call" and e.name == f"func:{EX}.export.export"]
        if len(runs) != 2 or not exports:
            ctx.check("modules", "runs", len(runs) >= 2, f.loc, "the model is not recorded once with and once without quantization")
            continue
        n += 1
        for e in o.st.events:
            for x in e.args if e.kind == "call" and e.name == f"class:{REC}" else ():
                for y in subs(x):
                    if y[0] == "comp" and y[1] == "dict" and y[2][2][0] == "attr" and y[2][2][2] == "module":
                        ctx.check("modules", "module names", y[2][1] == ("attr", y[2][2][1], "full_name"), e.loc, f"modules are told apart by {fmt(y[2][1])[:40]}: modules with the same one are exported once")
        ctx.check("modules", "arguments", all(flows_any(e, P, o) for k, e in runs), f.loc, "the model is not run with the given arguments")
        off = [any(t[0] == "call" and "disable_quantization" in fmt(t[1]) and t[2][:1] == (MODEL,) for t in active(o, e)) for k, e in runs]
        rec = [any(t[0] == "call" and t[1] == ("class", REC) for t in active(o, e)) for k, e in runs]
        ctx.check("modules", "reference runs", sorted(off) == [False, True], f.loc, "the recorded runs are not one with and one without quantization")
        ctx.check("modules", "recorders attached", all(rec), f.loc, "modules are not recorded during a run")
        ctx.check("modules", "quantized run last", not off[-1] or exports[0][0] < runs[-1][0], f.loc, "modules are exported with inputs recorded without quantization")
        for k, e in exports:
            ctx.check("modules", "detached", not any(t[0] == "call" and t[1] == ("class", REC) for t in active(o, e)), e.loc, "a module is exported while recorders are attached")
            m = evarg(e, 0, "model")
            R = m[1] if m is not None and m[0] == "attr" and m[2] == "module" else None
            if R is None:
                ctx.skip("modules", "module", f"unknown form {fmt(m)[:60]}")
                continue
            kw = dict(e.kwargs)
            nm = evarg(e, 3, "model_name")
            det = lambda t, fld: t is not None and t[0] == "call" and t[1][0] == "func" and t[1][1].endswith("_deep_detach_tensors") and t[2] == (("attr", R, fld),)
            ctx.check("modules", "inputs", det(evarg(e, 1, "data"), "input"), e.loc, f"the module is exported with {fmt(evarg(e, 1, 'data'))[:60]}")
            ctx.check("modules", "keyword inputs", det(evarg(e, 7, "model_kwargs"), "kwargs"), e.loc, f"the module is exported with keyword arguments {fmt(evarg(e, 7, 'model_kwargs'))[:60]}")
            ctx.check("modules", "name", nm == ("attr", R, "module_name"), e.loc, f"the module is exported as {fmt(nm)[:60]}")
            for k2 in ("target", "format", "verbose", "encoding_schema_handler", "alter_node_names", "pipeline_factory", "orchestrator", "registry"):
                if k2 in P:
                    ctx.check("modules", f"option {k2}", kw.get(k2) == P[k2], e.loc, f"{k2} is not passed on: {fmt(kw.get(k2))[:60] if kw.get(k2) else 'missing'}")
            if "onnx_export_options" in P:
                v, given = kw.get("onnx_export_options"), fact(o, lambda c: c == P["onnx_export_options"])
                ctx.check("modules", "option onnx_export_options", v is not None and (given is False or any(x == P["onnx_export_options"] for x in subs(v))), e.loc, "export options are not passed on")
            out = evarg(e, 2, "output_directory")
            ctx.check("modules", "folder", out is not None and ("attr", R, "module_name") in set(subs(out)) and any(x == P.get("output_path") for x in subs(out)), e.loc, f"the module is exported to {fmt(out)[:80]}")
            # after the export: encodings extended, record stored, handler cleared, path kept
            rest = list(enumerate(o.st.events))[k:]
            ext_ = [(j, x) for j, x in rest if x.kind == "call" and name_of(x) == "maybe_extend_encodings_file"]
            clr = [(j, x) for j, x in rest if x.kind == "call" and name_of(x) == "clear" and x.obj == H]
            ctx.check("modules", "extended", len(ext_) == 1, e.loc, "the encodings of recorded inputs and outputs are not added")
            ctx.check("modules", "cleared", bool(clr) and (not ext_ or clr[-1][0] > ext_[0][0]), e.loc, "encodings of a module leak into the next module")
            for j, x in ext_:
                ctx.check("modules", "extended module", evarg(x, 0, "module_name") == ("attr", R, "module_name") and evarg(x, 1, "path") == out and evarg(x, 3, "encoding_schema_handler") == H, x.loc, "the encodings of another module are extended")
                ctx.check("modules", "handler intact", not any(i < j for i, _ in clr), x.loc, "the handler is cleared before its encodings are extended")
                d = dictionary(o, evarg(x, 2, "quantizer_settings"))
                if d is None:
                    ctx.skip("modules", "settings", "unknown form")
                else:
                    for fld in ("input", "output", "kwargs"):
                        ctx.check("modules", f"settings of {fld}", d.get(const(fld)) == ("attr", R, f"{fld}_quantizer_settings"), x.loc, f"the settings of {fld} are {fmt(d.get(const(fld)))[:60] if d.get(const(fld)) else 'missing'}")
            st = [x for j, x in rest if x.kind == "call" and name_of(x) == "store_io_as_dict"]
            ctx.check("modules", "record", any(x.obj == R for x in st), e.loc, "the quantized record of a module is not stored")
            puts = [x for j, x in rest if x.kind == "setitem" and x.obj == o.val]
            if o.val[0] == "fresh":
                ctx.check("modules", "paths", any(x.args[0] == nm and x.value == out for x in puts), e.loc, "the folder of a module is not part of the result")
        # records of the run without quantization
        j0 = runs[0][0]
        st = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "call" and name_of(e) == "store_io_as_dict"]
        if off[0]:
            early = [(k, e) for k, e in st if k < runs[1][0]]
            ctx.check("modules", "record without quantization", bool(early) and all(k > j0 for k, e in early), f.loc, "the record of the run without quantization is not stored after it")
            for k, e in early:
                ctx.check("modules", "record file", "nonquantized" in fmt(evarg(e, 0, "location"), 8) or not any(fmt(evarg(e, 0, "location")) == fmt(evarg(x, 0, "location")) for j, x in st if j > runs[1][0]), e.loc, "the record without quantization is overwritten")
    if n:
        ctx.floor("modules", 1)


def flows_any(e, P, o):
    """Whether a run gets the positional and keyword arguments (or they are known to be missing)."""
    a = [x for x in e.args if x[0] == "star" and any(y == P.get("args") for y in subs(x))]
    k = [v for n, v in e.kwargs if n == "**" and any(y == P.get("kwargs") for y in subs(v))]
    na = fact(o, lambda c: c == P.get("args"))
    nk = fact(o, lambda c: c == P.get("kwargs"))
    return (bool(a) or na is False) and (bool(k) or nk is False)


def exporting(ctx):
    f = fun(ctx, "export", f"{EX}.export.export")
    if f is None:
        return
    P = {k: ("param", k) for k in f.all_params()}
    n = 0
    for o in paths(ctx, f, inline=no_inline):
        both = fact(o, lambda c: c == ("cmp", "is", P.get("orchestrator"), NONE)) is False and fact(o, lambda c: c == ("cmp", "is", P.get("registry"), NONE)) is False
        if both:
            ctx.check("export", "both", o.kind == "raise", f.loc, "a registry is silently ignored if an orchestrator is given")
            continue
        if o.kind != "return":
            continue
        runs = [e for e in o.st.events if e.kind == "call" and e.name == f"func:{EX}.pipeline.orchestrator.ExportOrchestrator.export"]
        if len(runs) != 1:
            ctx.skip("export", "run", "the orchestrator is not called once")
            continue
        e = runs[0]
        n += 1
        fl = flags_at(o, e)
        ctx.check("export", "export mode", fl.get("export_mode") == TRUE or decorated(f, "export_mode") == TRUE, e.loc, "a model is exported outside export mode")
        ctx.check("export", "not strict", fl.get("strict_quantization") == FALSE or decorated(f, "strict_quantization") == FALSE, e.loc, "a model is exported in strict mode")
        ctx.check("export", "result", o.val == e.value, f.loc, "the artifacts are not the result")
        given = fact(o, lambda c: c == P.get("orchestrator"))
        if given is True:
            ctx.check("export", "orchestrator", e.obj == P["orchestrator"], e.loc, "the given orchestrator is not used")
        elif given is False or fact(o, lambda c: c == ("cmp", "is", P.get("orchestrator"), NONE)) is True:
            off = fact(o, lambda c: c == P.get("registry")) is False or fact(o, lambda c: c == ("cmp", "is", P.get("registry"), NONE)) is True
            ctx.check("export", "registry", off or any(x == P.get("registry") for x in subs(e.obj)), e.loc, "the given registry is not used")
        reg = fact(o, lambda c: c == P.get("registry"))
        if reg is True:
            ctx.check("export", "registry", any(x == P["registry"] for x in subs(e.obj)) or e.obj == P.get("orchestrator"), e.loc, "the given registry is not used")
        r = e.args[0] if e.args else None
        if r is None or r[0] != "call" or r[1][0] != "class":
            ctx.skip("export", "request", "unknown form")
            continue
        kw = dict(r[3])
        for k in ("model", "model_name", "target", "format", "pipeline_factory"):
            ctx.check("export", f"request {k}", kw.get(k) == P.get(k), e.loc, f"the {k} of the request is {fmt(kw.get(k))[:60] if kw.get(k) else 'missing'}")
        ctx.check("export", "request folder", kw.get("output_dir") is not None and any(x == P.get("output_directory") for x in subs(kw["output_dir"])), e.loc, "the artifacts are written elsewhere")
        s = kw.get("sample_inputs")
        if s is not None and s[0] == "list" and len(s) == 2 and s[1][0] == "tuple" and len(s[1]) == 3:
            hask = fact(o, lambda c: c == P.get("model_kwargs"))
            ctx.check("export", "request sample", s[1][1] == P.get("data") and (hask is False or any(x == P.get("model_kwargs") for x in subs(s[1][2]))), e.loc, f"the sample of the request is {fmt(s[1])[:80]}")
        op = kw.get("options")
        opt = meth(op, "to_context") if op is not None else None
        if opt is None or opt[0] != "call":
            ctx.skip("export", "options", "unknown form")
            continue
        okw = dict(opt[3])
        for k in ("input_names", "output_names", "alter_node_names", "verbose"):
            ctx.check("export", f"option {k}", okw.get(k) == P.get(k), e.loc, f"the option {k} is {fmt(okw.get(k))[:60] if okw.get(k) else 'missing'}")
        for k in ("encoding_schema_handler", "onnx_export_options", "onnx_save_kwargs"):
            isnone = fact(o, lambda c: c == ("cmp", "is", P.get(k), NONE))
            gone = isnone is True or fact(o, lambda c: c == P.get(k)) is False
            v = okw.get(k)
            ctx.check("export", f"option {k}", v is not None and (gone or any(x == P[k] for x in subs(v))), e.loc, f"the option {k} is dropped")
    if n:
        ctx.floor("export", 1)


# ------------------------------------------------------------------ names
def names(ctx):
    f = fun(ctx, "names.io", f"{OST}._rename_onnx_input_output_names")
    if f is not None:
        G = ("attr", par(f, 0), "graph")
        n = 0
        for o in paths(ctx, f, inline=pol(), loop_iters=(1,)):
            sets = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "setattr" and e.name == "name"]
            if o.kind == "raise":
                ctx.check("names.io", "refused before renaming", not sets, f.loc, "a model is partly renamed before the names are refused")
                continue
            for fld, given in (("inputs", par(f, 1)), ("outputs", par(f, 2))):
                none = fact(o, lambda c: c == ("cmp", "is", given, NONE))
                V = ("attr", G, fld)
                mine = [e for k, e in sets if e.obj == ("elem", V)]
                if none is False:
                    n += 1
                    for e in o.st.events:
                        if e.kind == "call" and e.name == "builtin:zip" and any(x == V for x in subs(e.args[0])) and len(e.args) == 2:
                            ctx.check("names.io", f"order of {fld}", unwrap(e.args[0]) == V and unwrap(e.args[1]) == given, e.loc, f"names and {fld} are paired as {fmt(e.args[0])[:40]}, {fmt(e.args[1])[:40]}")
                    ctx.check("names.io", fld, bool(mine) and all(e.value == ("elem", given) for e in mine), f.loc, f"the {fld} do not get the given names in order")
                    ln = lambda t: ("call", ("builtin", "len"), (t,), ())
                    eq = fact(o, lambda c: c[0] == "cmp" and c[1] == "==" and {c[2], c[3]} == {ln(V), ln(given)})
                    strict = any(e.kind == "call" and e.name == "builtin:zip" and dict(e.kwargs).get("strict") == TRUE for e in o.st.events)
                    ctx.check("names.io", f"number of {fld}", eq is True or strict, f.loc, f"a wrong number of names for {fld} is accepted")
        if n:
            ctx.floor("names.io", 1)
    f = fun(ctx, "names.stage", f"{OST}.stage_rename_onnx_input_output_names")
    if f is not None:
        C = par(f, 2)
        for o in normals(paths(ctx, f, inline=no_inline)):
            cs = [e for e in o.st.events if e.kind == "call" and name_of(e) == "_rename_onnx_input_output_names"]
            ctx.check("names.stage", "renamed", len(cs) == 1, f.loc, "inputs and outputs are not renamed")
            for e in cs:
                ctx.check("names.stage", "names", from_ctx(evarg(e, 1, "input_names"), C, "input_names") and from_ctx(evarg(e, 2, "output_names"), C, "output_names"), e.loc, "inputs get the names of outputs or no names")
            ctx.check("names.stage", "program", only(o.val, par(f, 0)), f.loc, "another program is returned")
    f = fun(ctx, "names.alter", f"{OST}.stage_alter_onnx_node_names")
    if f is not None:
        C = par(f, 2)
        for o in normals(paths(ctx, f, inline=no_inline)):
            on = fact(o, lambda c: from_ctx(c, C, "alter_node_names"))
            cs = [e for e in o.st.events if e.kind == "call" and name_of(e) == "_fix_onnx_names"]
            ctx.check("names.alter", "default", all(d in (NONE, FALSE) for d in defaults(o, C, "alter_node_names")), f.loc, "names are altered by default")
            for e in cs:
                pre = evarg(e, 1, "new_name_prefix")
                ctx.check("names.alter", "prefix", pre is not None and any(from_ctx(x, C, "alter_node_names_prefix") for x in subs(pre)), e.loc, "the prefix asked for is not used")
            ctx.check("names.alter", "gate", (len(cs) == 1) == (on is True), f.loc, "names are altered without being asked or not altered although asked")
            ctx.check("names.alter", "program", only(o.val, par(f, 0)), f.loc, "another program is returned")
    f = fun(ctx, "names.unique", f"{HELP}._fix_onnx_names")
    if f is not None:
        G = ("attr", par(f, 0), "graph")
        PRE = par(f, 1)
        n = 0
        yes = lambda i, fn, args, kw, st, loc, g: i.V(st, TRUE)
        for o in normals(paths(ctx, f, inline=pol(), loop_iters=(1,), models={"builtin:hasattr": yes})):
            for e in o.st.events:
                if e.kind == "setattr" and e.name == "name" and e.obj is not None:
                    n += 1
                    direct = e.value[0] == "fstr" or e.value[0] == "bin"
                    if direct:
                        parts = list(subs(e.value))
                        if not (e.obj[0] == "elem" and e.obj[1][0] == "attr" and e.obj[1][1] == G):
                            rows = [x for x in o.st.events if x.kind == "setitem" and o.val[0] == "tuple" and x.obj == o.val[2]]
                            ctx.check("names.unique", "mapping", any(x.args[0] == ("attr", e.obj, "name") and x.value == e.value for x in rows), e.loc, "a new name is missing in the mapping of names")
                        ctx.check("names.unique", "new name", PRE in parts and ("attr", e.obj, "name") in parts, e.loc, f"the new name {fmt(e.value)[:60]} does not contain the prefix and the old name")
                    else:
                        # a reference: only if the value was not renamed before
                        marked = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and any(x == e.obj for x in subs(c[2])) and not any(x == ("attr", e.obj, "name") for x in subs(c[2])))
                        ctx.check("names.unique", f"reference {fmt(e.obj)[-40:]}", marked is False, e.loc, "a value that already has its new name is renamed again when that is the old name of another value: two values get the same name")
        if n:
            ctx.floor("names.unique", 1)
    f = fun(ctx, "names.encodings", f"{HELP}._fix_encoding_names")
    if f is not None:
        E, M = par(f, 0), par(f, 1)
        for o in normals(paths(ctx, f, inline=pol(), loop_iters=(1,))):
            puts = [e for e in o.st.events if e.kind == "setitem" and e.obj == o.val]
            if not puts and o.val[0] == "fresh" and not any(e.kind == "call" and e.obj == o.val for e in o.st.events):
                ctx.check("names.encodings", "kept", False, f.loc, "an encoding is dropped")
                continue
            if len(puts) != 1:
                ctx.skip("names.encodings", "entries", "unknown form")
                continue
            e = puts[0]
            k = ("key", E)
            miss = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[3] == NONE)
            want = (k,) if miss is True else (("item", M, k), ("call", ("attr", M, "get"), (k,), ())) if miss is False else (("call", ("attr", M, "get"), (k, k), ()),)
            ctx.check("names.encodings", "name", e.args[0] in want, e.loc, f"an encoding gets the name {fmt(e.args[0])[:60]}")
            ctx.check("names.encodings", "value", e.value in (("val", E), ("item", E, k)), e.loc, f"an encoding gets the value {fmt(e.value)[:60]}")
    f = fun(ctx, "names.reshape", f"{HELP}._fix_reshape_allowzero")
    if f is not None:
        for o in normals(paths(ctx, f, inline=pol(), loop_iters=(1,))):
            isr = fact(o, lambda c: c[0] == "cmp" and c[1] == "==" and c[3] == const("Reshape"))
            has = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == const("allowzero"))
            dels = [e for e in o.st.events if e.kind == "delitem"]
            for e in dels:
                ctx.check("names.reshape", "only Reshape", isr is True and e.args[0] == const("allowzero"), e.loc, "attributes of other nodes are removed")
            if isr is True and has is True:
                ctx.check("names.reshape", "removed", bool(dels), f.loc, "allowzero stays on a Reshape node")


# ------------------------------------------------------------------ writing
def saving(ctx):
    f = fun(ctx, "onnx.export", f"{OST}.stage_fx_to_onnx_program")
    if f is not None:
        M, S, C = (par(f, k) for k in range(3))
        n = 0
        for o in paths(ctx, f, inline=pol()):
            if needs_samples(ctx, "onnx.export", o, S, f.loc):
                ctx.check("onnx.export", "no samples", o.kind == "raise", f.loc, "a graph is exported without sample inputs")
                continue
            for e in o.st.events:
                if not ext(e, "torch.onnx.export"):
                    continue
                n += 1
                kw = dict(e.kwargs)
                ctx.check("onnx.export", "graph", evarg(e, 0, "model") is not None and only(evarg(e, 0, "model"), M), e.loc, "another graph is exported")
                a, k = evarg(e, 1, "args"), kw.get("kwargs")
                ctx.check("onnx.export", "sample", a is not None and sample(a, S, 0) and k is not None and sample(k, S, 1), e.loc, "the graph is not exported with the arguments of a sample")
                d = kw.get("**")
                if d is not None and d[0] == "dict":
                    order = [(x[0], x[1]) for x in d[1:]]
                    stars = [j for j, (a_, b_) in enumerate(order) if a_ == "dstar" and any(from_ctx(y, C, "onnx_export_options") for y in subs(b_))]
                    ctx.check("onnx.export", "user options", bool(stars) and stars[-1] == len(order) - 1, e.loc, "options given by the user are dropped or overridden")
                    dyn = {x[1]: x[2] for x in d[1:] if x[0] == "pair"}.get(const("dynamo"))
                    ctx.check("onnx.export", "dynamo", dyn == TRUE, e.loc, "the graph is not exported with the exporter that keeps node metadata")
                elif d is not None:
                    # built by updates: user options last
                    upd = [x for x in o.st.events if x.obj == d and (x.kind == "setitem" or x.kind == "call" and x.name == "method:.update")]
                    ctx.check("onnx.export", "user options", any(from_ctx(y, C, "onnx_export_options") for x in [d] + [a_ for u in upd for a_ in u.args] for y in subs(x)), e.loc, "options given by the user are dropped")
                else:
                    ctx.check("onnx.export", "user options", any(from_ctx(y, C, "onnx_export_options") for _, v in e.kwargs for y in subs(v)), e.loc, "options given by the user are dropped")
                nothing = fact(o, lambda c: c == ("cmp", "is", e.value, NONE))
                if o.kind == "return":
                    ctx.check("onnx.export", "result", o.val == e.value, f.loc, "the exported program is not the result")
                    ctx.check("onnx.export", "no program", nothing is not True, f.loc, "an export without program is not refused")
        if n:
            ctx.floor("onnx.export", 1)
    f = fun(ctx, "onnx.save", f"{OST}.stage_save_onnx_proto")
    if f is not None:
        M, C = par(f, 0), par(f, 2)
        for o in normals(paths(ctx, f, inline=pol())):
            saves = [e for e in o.st.events if ext(e, "onnx.save") or ext(e, "onnx.save_model")]
            ctx.check("onnx.save", "once", len(saves) == 1, f.loc, "the model is not saved once")
            for e in saves:
                ctx.check("onnx.save", "model", only(e.args[0], M), e.loc, "another model is saved")
                p = evarg(e, 1, "f")
                ctx.check("onnx.save", "path", p is not None and any(from_ctx(x, C, "output_dir") for x in subs(p)) and any(from_ctx(x, C, "model_name") for x in subs(p)) and ("const", "str", "onnx") in set(subs(p)) | {const(str(y[2]).lstrip(".")) for y in subs(p) if y[0] == "const" and y[1] == "str"}, e.loc, "the model is saved elsewhere")
                kw = dict(e.kwargs)
                used = [y for v in kw.values() for y in subs(v)] + [y for u in o.st.events if u.kind in ("call", "setitem") and u.name in ("method:.update", None) for a in u.args for y in subs(a)]
                ctx.check("onnx.save", "user options", any(from_ctx(y, C, "onnx_save_kwargs") for y in used), e.loc, "save options given by the user are dropped")
                d = kw.get("**")
                if d is not None and d[0] == "dict":
                    stars = [j for j, x in enumerate(d[1:]) if x[0] == "dstar" and any(from_ctx(y, C, "onnx_save_kwargs") for y in subs(x[1]))]
                    if stars:
                        ctx.check("onnx.save", "user options win", stars[-1] == len(d) - 2, e.loc, "save options given by the user are overridden")
                ctx.check("onnx.save", "external data", all(any(from_ctx(y, C, "model_name") for y in subs(x)) for x in defaults(o, C, "onnx_external_data_location")), e.loc, "models saved to one directory share their external data")
                for k in ("save_as_external_data", "all_tensors_to_one_file"):
                    if k in kw and any(from_ctx(y, C, "onnx_save_kwargs") for y in used):
                        ctx.check("onnx.save", k, any(from_ctx(y, C, k) or from_ctx(y, C, "onnx_save_kwargs") for y in subs(kw[k])), e.loc, f"{k} is {fmt(kw[k])[:60]}")
            ctx.check("onnx.save", "result", only(o.val, M), f.loc, "another model is passed on")
    f = fun(ctx, "encodings.stage", f"{OST}.stage_onnx_proto_to_encodings")
    if f is not None:
        M, C = par(f, 0), par(f, 2)
        n = 0
        for o in normals(paths(ctx, f, inline=pol(("extract_qnn_encodings_from_onnx_proto",)))):
            cs = [e for e in o.st.events if e.kind == "call" and name_of(e) == "extract_qnn_encodings_from_onnx_proto"]
            if len(cs) != 1:
                ctx.skip("encodings.stage", "extraction", "encodings are not extracted by one call")
                continue
            n += 1
            e = cs[0]
            h = evarg(e, 1, "encoding_schema_handler")
            ctx.check("encodings.stage", "model", only(e.args[0], M), e.loc, "the encodings of another model are extracted")
            none = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[3] == NONE and from_ctx(c[2], C, "encoding_schema_handler"))
            if none is True:
                ctx.check("encodings.stage", "default handler", h is not None and h[0] == "call" and h[1][0] == "class", e.loc, "without handler a shared handler is used")
            else:
                ctx.check("encodings.stage", "handler", h is not None and any(from_ctx(x, C, "encoding_schema_handler") for x in subs(h)), e.loc, "the given handler is not used")
            ctx.check("encodings.stage", "result", o.val == e.value, f.loc, "other encodings are returned")
            dumps = [x for x in o.st.events if x.kind == "call" and (x.name or "").endswith("json.dump")]
            ctx.check("encodings.stage", "written", len(dumps) == 1 and dumps[0].args[0] == e.value, f.loc, "the encodings are not written")
            for x in dumps:
                ps = list(subs(x.args[1]))
                ctx.check("encodings.stage", "file", any(from_ctx(y, C, "output_dir") for y in ps) and any(from_ctx(y, C, "model_name") for y in ps) and any(y[0] == "const" and y[1] == "str" and str(y[2]).endswith("encodings") for y in ps), x.loc, "the encodings are written elsewhere")
        if n:
            ctx.floor("encodings.stage", 1)
