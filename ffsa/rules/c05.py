"""Gradients through quantization.  Every entry into a custom autograd function is interpreted:
forward with symbolic inputs, recording what is kept on the context, then backward on that very
context; the tuple of gradients is compared, input by input, with the gradient the operation has to
have.  The path from the public functions to these autograd functions must not leave the graph."""
from __future__ import annotations

import ast

from .c04 import *
from .c04 import facts, kernel, strip, SELF, SYM, ONE
from .b04 import is_raw
from .c01 import registered

ASSUMPTIONS = ["torch.autograd.Function.apply runs forward and setup_context, and backward with the gradients of the outputs", "the backward kernel computes the gradient of the quantization formula (decided by C01)"]
AF = "torch.autograd.Function"
GRAD = ("param", "@grad")
CUTS = ("torch.no_grad", "torch.inference_mode", "torch.set_grad_enabled", "torch.autograd.no_grad")
STE = "fastforward.quantization.ste"
LQO = "fastforward.quantization._linear_quantized_ops"


class GInterp(WInterp):
    """Records every entry into an autograd function with its arguments, value and context."""

    def call(self, fn, args, kws, st, f, node, as_cm=False):
        if fn[0] == "attr" and fn[1][0] == "ctx" and fn[2] == "save_for_backward" and not kws:
            return self.V(st.hset((fn[1], "saved_tensors"), ("tuple", *args)), NONE)
        if fn[0] == "attr" and fn[1][0] == "ctx" and fn[2] in ("mark_non_differentiable", "set_materialize_grads"):
            return self.V(st, NONE)
        enter = fn[0] == "attr" and fn[2] == "apply" and fn[1][0] == "class" and self.p.find_method(fn[1][1], "forward") is not None
        if not enter:
            return super().call(fn, args, kws, st, f, node, as_cm)
        cq = fn[1][1]
        fwd, setup = self.p.find_method(cq, "forward"), self.p.find_method(cq, "setup_context")
        own = setup is not None and setup.cls is not None and self.p.is_subclass(cq, setup.cls if isinstance(setup.cls, str) else setup.cls.qual)
        ctx = ("ctx", cq)
        if own:
            outs = self.inline_call(fwd, list(args), {}, st, f, node, bound=True)
            if outs is None:
                return super().call(fn, args, kws, st, f, node, as_cm)
            res = []
            for o in outs:
                if o.kind != "value":
                    res.append(o)
                    continue
                for o2 in self.inline_call(setup, [ctx, ("tuple", *args), o.val], {}, o.st, f, node, bound=True) or []:
                    res.append(Out("value", o2.st, o.val) if o2.kind == "value" else o2)
            outs = res
        else:
            outs = super().call(fn, args, kws, st, f, node, as_cm)
        return [Out(o.kind, o.st.with_event(Ev("apply", cq, ctx, tuple(args), (), o.val, self.loc(node, f), f.qual)), o.val) if o.kind == "value" else o for o in outs]


def go(ctx, module, src, args=None, extra=(), deny=(), ctors=None, **kw):
    f = snippet(ctx, module, src)
    given = dict(facts())
    given.update(dict(extra))
    ctors = ctors or (lambda q: q.startswith("fastforward.") and ctx.p.is_dataclass(q))
    i = GInterp(ctx.p, merge=False, models=flag_models(ctx.p), given=given.items(), inline=inline_pkg("fastforward", maxsize=60, deny=deny), max_depth=16, ctor_inline=ctors, **kw)
    i.given.append((("attr", ("flag", "export_mode"), "value"), False))
    outs = i.run(f, args or {})
    ctx.analysed.update(i.inlined)
    return i, outs


def check(ctx):
    cuts(ctx)
    static(ctx)
    straight(ctx)
    ste(ctx)
    scaled(ctx)
    conversions(ctx)
    graph(ctx)
    arities(ctx)


# ------------------------------------------------------------------ backward
def saved(o, cq):
    c = ("ctx", cq)
    return {k: v for k, v in o.st.heap.items() if k[0] == c or k[0][0] == "new"}


def backward(ctx, o, e, rule, name):
    """Gradients [term per input] of one autograd function entry, per path; None when undecided."""
    cq, c = e.name, e.obj
    bwd = ctx.p.find_method(cq, "backward") or ctx.p.find_method(cq, "vjp")
    if bwd is None:
        ctx.check(rule, name + " backward", False, e.loc, f"{short(cq)} has no backward")
        return None
    heap = saved(o, cq)
    heap[(c, "needs_input_grad")] = ("tuple", *[TRUE] * len(e.args))
    outputs = bwd.params()[1:] or []
    given = dict(facts())
    given.update({k: v for k, v in o.st.conds})
    i = GInterp(ctx.p, merge=False, models=flag_models(ctx.p), given=given.items(), inline=inline_pkg("fastforward", maxsize=60), heap=heap)
    args = {bwd.params()[0]: c}
    for n, p in enumerate(outputs):
        args[p] = GRAD if n == 0 else ("param", f"@grad{n}")
    res = []
    for b in i.run(bwd, args):
        ctx.analysed.update(i.inlined)
        if b.kind != "return":
            continue
        v = b.val
        gs = list(v[1:]) if v[0] in ("tuple", "list") else [v]
        if any(g[0] == "star" for g in gs):
            wide = []
            for g in gs:
                k = kernel(g[1], registered(ctx)) if g[0] == "star" else None
                if g[0] == "star" and k is None:
                    ctx.skip(rule, name, "gradients are unpacked from an unknown sequence")
                    wide = None
                    break
                wide += [("item", g[1], const(j)) for j in range(3)] if k else [g]
            if wide is None:
                continue
            gs = wide
        ctx.check("arity", f"{short(cq)} {name}", len(gs) == len(e.args) or (len(gs) > len(e.args) and all(g == NONE for g in gs[len(e.args):])), bwd.loc, f"returns {len(gs)} gradients for {len(e.args)} inputs")
        res.append((b, gs + [NONE] * (len(e.args) - len(gs))))
    if not res and not any(s["construct"] == name for s in ctx.skipped):
        ctx.check(rule, name + " backward", False, bwd.loc, f"the backward of {short(cq)} always fails")
    return res


def cut(o, e):
    """Gradient-free regions entered on the way to an event."""
    depth = 0
    for ev in o.st.events:
        if ev is e or ev == e:
            return depth > 0
        n = ev.name.removeprefix("ext:")
        if n in CUTS:
            depth += (ev.kind == "enter") - (ev.kind == "exit")
    return False


def entry(ctx, rule, name, o, val, loc):
    """The autograd function entry that produced `val`; reports when there is none."""
    es = [e for e in o.st.events if e.kind == "apply" and (e.value == val or (e.value[0] in ("tuple", "list") and val in e.value) or (val[0] == "item" and val[1] == e.value))]
    ctx.check(rule, name + " differentiable", bool(es), loc, f"{fmt(val)} is not produced by an autograd function: no gradient reaches the data")
    if not es:
        return None
    ctx.check(rule, name + " in graph", not cut(o, es[0]), loc, "the autograd function runs where gradients are disabled")
    return es[0]


# ------------------------------------------------------------------ static quantization
def raw_of(o):
    t = o.val
    if t[0] == "call" and ref_name(t[1]).endswith("QuantizedTensor") and len(t[2]) + len(t[3]) >= 2:
        return arg(t, 0, "raw_data", arg(t, 0, "data", NONE))
    return None


def static(ctx):
    ops = registered(ctx)
    f = ctx.func(AQF + ".quantize")
    for has in (True, False):
        name = "with offset" if has else "without offset"
        src = "def driver(x, scale, offset, bits, g, qd, dd):\n    return AffineQuantizationFunction.quantize(x, StaticAffineQuantParams(scale=scale, offset=offset, num_bits=bits, granularity=g, quantized_dtype=qd, dequantize_dtype=dd))\n"
        i, outs = go(ctx, FN, src, {"offset": OFFSET if has else NONE})
        for o in outs:
            if o.kind != "return":
                continue
            raw = raw_of(o)
            if raw is None:
                continue
            e = entry(ctx, "static.graph", name, o, raw, f.loc)
            fk = kernel(raw, ops)
            if e is None or fk is None:
                continue
            ins = [strip(a) for a in e.args]
            for role, term in (("data", X), ("scale", SCALE), *([("offset", OFFSET)] if has else [])):
                ctx.check("static.graph", f"{name} {role}", term in ins, f.loc, f"the {role} does not reach the autograd function as a differentiable input")
            for b, gs in backward(ctx, o, e, "static.gradient", name) or []:
                want = {X: 0, SCALE: 1, OFFSET: 2}
                for n, (a, g) in enumerate(zip(ins, gs)):
                    if a not in want or (a == OFFSET and not has):
                        ctx.check("static.gradient", f"{name} input {n}", g == NONE, f.loc, f"input {n} gets the gradient {fmt(g)}")
                        continue
                    role = {X: "data", SCALE: "scale", OFFSET: "offset"}[a]
                    if g[0] != "item" or g[2][0] != "const":
                        ctx.check("static.gradient", f"{name} {role}", False, f.loc, f"the gradient of the {role} is {fmt(g)}")
                        continue
                    ctx.check("static.gradient", f"{name} {role}", g[2][2] % 3 == want[a], f.loc, f"the gradient of the {role} is result {fmt(g[2])} of the backward kernel")
                    k = kernel(g[1], ops)
                    if k is None or k[0] != "quantize_by_tile_backward":
                        ctx.check("static.backward", f"{name} {role}", False, f.loc, f"gradients are computed by {fmt(g[1])}")
                        continue
                    ps = ops["quantize_by_tile_backward"]["impl"].params()
                    gradp = next((p for p in ps if "grad" in p or p.startswith("dout")), ps[1])
                    ctx.check("static.backward", f"{name} {role} output gradient", k[1].get(gradp) == GRAD, f.loc, f"the output gradient passed on is {fmt(k[1].get(gradp, NONE))}")
                    for p in ps:
                        if p == gradp:
                            continue
                        wanted = fk[1]["input"] if p == ps[0] else fk[1].get(p, NONE)
                        got = k[1].get(p, NONE)
                        ctx.check("static.backward", f"{name} {role} {p}", strip(got) == strip(wanted), f.loc, f"the backward kernel gets {fmt(got)} as {p}, the forward {fmt(wanted)}")
    ctx.floor("static.backward", 10)
    ctx.floor("static.gradient", 8)


# ------------------------------------------------------------------ straight-through steps
def straight(ctx):
    fd, fq = ctx.func(AQF + ".dequantize"), ctx.func(AQF + ".quantize")
    mk = "StaticAffineQuantParams(scale=scale, offset=offset, num_bits=bits, granularity=g, quantized_dtype=qd, dequantize_dtype=dd)"
    dyn = "DynamicAffineQuantParams(num_bits=bits, granularity=g, symmetric=sym, allow_one_sided=one, quantized_dtype=qd, dequantize_dtype=dd)"
    cases = [("dequantize", f"AffineQuantizationFunction.dequantize(q, {mk})", Q, fd), ("dynamic quantize", f"AffineQuantizationFunction.quantize(x, {dyn})", X, fq)]
    for name, call, data, f in cases:
        src = f"def driver(x, q, scale, offset, bits, g, qd, dd, sym, one):\n    return {call}\n"
        i, outs = go(ctx, FN, src)
        for o in outs:
            if o.kind != "return":
                continue
            v = o.val if name == "dequantize" else raw_of(o)
            if v is None:
                continue
            e = entry(ctx, "straight.graph", name, o, v, f.loc)
            if e is None:
                continue
            ins = [strip(a) for a in e.args]
            ctx.check("straight.graph", f"{name} data", data in ins, f.loc, "the data does not reach the autograd function as a differentiable input")
            for b, gs in backward(ctx, o, e, "straight.gradient", name) or []:
                for n, (a, g) in enumerate(zip(ins, gs)):
                    if a == data:
                        ctx.check("straight.gradient", f"{name} data", g == GRAD, f.loc, f"the gradient of the data is {fmt(g)} instead of the output gradient")
                    else:
                        ctx.check("straight.gradient", f"{name} input {n}", g == NONE, f.loc, f"input {n} gets the gradient {fmt(g)}")
    ctx.floor("straight.gradient", 6)


def shape_of(t):
    """The tensor whose shape the term is."""
    while t[0] == "call" and ref_name(t[1]) in ("builtin:tuple", "builtin:list", "ext:torch.Size") and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == "attr" and t[2] == "shape":
        return t[1]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "size" and not t[2]:
        return t[1][1]
    return None


def ste(ctx):
    f = ctx.func(STE + ".ste")
    src = "def driver(fn, x, a, k):\n    return ste(fn)(x, a, k=k)\n"
    out = ("call", ("param", "fn"), (X, ("param", "a")), (("k", ("param", "k")),))
    i, outs = go(ctx, STE, src)
    n = 0
    for o in outs:
        eq, odd = None, False
        for c, v in o.st.conds:
            if not contains(c, lambda t: t == out) or c[0] == "isinstance":
                continue
            if c[0] == "cmp" and c[1] == "==" and {shape_of(c[2]), shape_of(c[3])} == {X, out}:
                eq = v
            elif not all(t[0] != "call" or t == out or (t[1][0] == "attr" and t[1][2] in ("numel", "dim", "size", "__len__")) or ref_name(t[1]) in ("builtin:len", "ext:torch.numel") for t in walk(c)):
                odd = True
        if o.kind == "raise":
            ctx.check("ste.shape", "matching shapes", eq is not True, f.loc, "fails although the shapes match")
            continue
        if o.kind != "return":
            continue
        n += 1
        if eq is None and odd:
            ctx.skip("ste.shape", "ste", "shapes are compared in a way that is not recognised")
        else:
            ctx.check("ste.shape", "differing shapes", eq is True, f.loc, "a function that changes the shape is accepted")
        ctx.check("ste.value", "ste", o.val == out, f.loc, f"returns {fmt(o.val)} instead of the function's result")
        es = [e for e in o.st.events if e.kind == "apply" and e.value == o.val]
        ctx.check("ste.gradient", "autograd", bool(es), f.loc, "the result is not attached to the input")
        fcall = [e for e in o.st.events if e.kind == "call" and e.value == out]
        hidden = bool(fcall) and cut(o, fcall[0])
        for e in es[:1]:
            ctx.check("ste.gradient", "in graph", not cut(o, e), f.loc, "the autograd function runs where gradients are disabled")
            for b, gs in backward(ctx, o, e, "ste.gradient", "ste") or []:
                for k, (a, g) in enumerate(zip(e.args, gs)):
                    if a == X:
                        ctx.check("ste.gradient", "input", g == GRAD, f.loc, f"the gradient of the input is {fmt(g)} instead of the output gradient")
                    elif a == out:
                        ctx.check("ste.gradient", "output", g == NONE or hidden, f.loc, "the gradient also flows through the wrapped function")
                    else:
                        ctx.check("ste.gradient", f"input {k}", g == NONE, f.loc, f"input {k} gets the gradient {fmt(g)}")
    ctx.check("ste.value", "reached", n > 0, f.loc, "never returns")
    m = ctx.p.modules[STE]
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "round_ste" for t in st.targets):
            v = st.value
            ok = isinstance(v, ast.Call) and len(v.args) == 1 and ctx.p.resolve_expr(m, v.args[0])[-1] == "torch.round"
            ctx.check("ste.round", "round_ste", ok, f"{m.rel}:{st.lineno}", f"is {ast.unparse(v)}")


def scaled(ctx):
    q = LQO + ".scalar_multiply"
    if q not in ctx.p.funcs:
        ctx.skip("scalar.gradient", q, "no kernel for the multiplication by a scalar")
        return
    f = ctx.func(q)
    i, outs = go(ctx, LQO, "def driver(x, other):\n    return scalar_multiply(x, other)\n")
    other = ("param", "other")
    for o in outs:
        if o.kind != "return":
            continue
        es = [e for e in o.st.events if e.kind == "apply" and any(is_raw(a, X) for a in e.args)]
        if not es:
            ctx.check("scalar.gradient", "multiply", False, f.loc, "the gradient of the data is not multiplied by the scalar")
            continue
        e = es[0]
        ctx.check("scalar.value", "multiply", is_raw(e.value, X), f.loc, f"the raw data becomes {fmt(e.value)}")
        for b, gs in backward(ctx, o, e, "scalar.gradient", "multiply") or []:
            for n, (a, g) in enumerate(zip(e.args, gs)):
                if is_raw(a, X):
                    ok = g in (("bin", "*", GRAD, other), ("bin", "*", other, GRAD)) or (g[0] == "call" and ref_name(g[1]) in ("ext:torch.mul",) and set(g[2]) == {GRAD, other}) or g in (("call", ("attr", GRAD, "mul"), (other,), ()),)
                    ctx.check("scalar.gradient", "data", ok, f.loc, f"the gradient is {fmt(g)} instead of the output gradient times the scalar")
                else:
                    ctx.check("scalar.gradient", f"input {n}", g == NONE, f.loc, f"input {n} gets the gradient {fmt(g)}")


# ------------------------------------------------------------------ staying in the graph
def conversions(ctx):
    for fn, a, extra in (("ensure_tensor", "x", ""), ("tensor_or_none", "x", ", dt, dev"), ("tensor_or_none", "None", ", dt, dev")):
        q = "fastforward.common." + fn
        if q not in ctx.p.funcs:
            continue
        f = ctx.func(q)
        i, outs = go(ctx, "fastforward.common", f"def driver(x, dt, dev):\n    return {fn}({a}{extra})\n")
        for o in outs:
            if o.kind != "return":
                continue
            want = X if a == "x" else NONE
            ctx.check("conversion", f"{fn} {a}", strip(o.val) == want and not any(e.kind == "enter" and e.name.removeprefix("ext:") in CUTS for e in o.st.events), f.loc, f"a tensor becomes {fmt(o.val)}, outside the graph" if a == "x" else f"None becomes {fmt(o.val)}")
    ctx.floor("conversion", 2)


def detaches(t):
    for x in walk(t):
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("detach", "detach_", "clone_detached"):
            return True
        if x[0] == "attr" and x[2] == "data" and x[1][0] != "param":
            return True
        if x[0] == "call" and ref_name(x[1]) in ("ext:torch.Tensor._make_subclass", "ext:torch.Tensor.detach", "ext:torch.detach"):
            return True
    return False


def graph(ctx):
    """Accessors and constructors on the way keep the tensor in the graph."""
    QT = "fastforward.quantized_tensor.QuantizedTensor"
    for n in ("__new__", "raw_data", "int_repr", "dequantize"):
        f = ctx.p.find_method(QT, n)
        if f is None:
            continue
        for o in normals(run(ctx, f, inline=inline_same_module())):
            ctx.check("graph.tensor", n, not detaches(o.val), f.loc, f"{fmt(o.val)} is cut from the graph")
    att = ctx.p.find_method("fastforward.quantization.function.QuantizationContext", "attach")
    for o in normals(run(ctx, att, inline=inline_same_module())):
        ctx.check("graph.tensor", "attach", not detaches(o.val), att.loc, f"{fmt(o.val)} is cut from the graph")
    ctx.floor("graph.tensor", 4)
    for q in ("fastforward.nn.linear_quantizer.LinearQuantizer", "fastforward.nn.dynamic_linear_quantizer.DynamicLinearQuantizer", "fastforward.nn.quantizer.Quantizer"):
        for n in ("quantize", "forward", "__call__", "quantization_parameters"):
            f = ctx.p.find_method(q, n)
            if f is None:
                continue
            i = Interp(ctx.p, inline=inline_pkg("fastforward.nn.quantizer", "fastforward.nn.linear_quantizer", "fastforward.nn.dynamic_linear_quantizer"), types={SELF: q}, merge=False)
            bad = set()
            for o in i.run(f):
                if o.kind == "return" and (detaches(o.val) or any(e.kind == "call" and (any(detaches(a) for a in e.args) or any(detaches(v) for _, v in e.kwargs)) for e in o.st.events)):
                    bad.add("a parameter or the data is detached")
                if any(e.kind == "enter" and e.name.removeprefix("ext:") in CUTS for e in o.st.events):
                    bad.add("runs where gradients are disabled")
            ctx.check("graph.quantizer", f"{short(q)}.{n}", not bad, f.loc, "; ".join(sorted(bad)))
    ctx.floor("graph.quantizer", 6)
    trainable(ctx)


def trainable(ctx):
    """What a linear quantizer learns: scale always, offset exactly when asymmetric."""
    cq = "fastforward.nn.linear_quantizer.LinearQuantizer"
    init = ctx.p.find_method(cq, "__init__")
    for sym in (True, False):
        for one in (True, False):
            src = f"def driver(bits, g):\n    return LinearQuantizer(bits, granularity=g, symmetric={sym}, allow_one_sided={one})\n"
            i, outs = go(ctx, cq.rsplit(".", 1)[0], src, ctors=lambda q: q.startswith("fastforward."))
            name = f"{'symmetric' if sym else 'asymmetric'}{' one-sided' if one else ''}"
            for o in outs:
                if o.kind != "return":
                    continue
                fs = fields(o.st, o.val)
                isp = lambda t: t is not None and t[0] == "call" and ref_name(t[1]).rsplit(".", 1)[-1] in ("UninitializedParameter", "Parameter") and dict(t[3]).get("requires_grad", TRUE) != const(False)
                ctx.check("trainable", f"{name} scale", isp(fs.get("scale")), init.loc, f"the scale is {fmt(fs.get('scale', NONE))}, not a trainable parameter")
                if not sym:
                    reg = [e for e in events(o, "call") if e.name.endswith(".register_parameter") and evarg(e, 0, "name") == const("offset")]
                    off = evarg(reg[-1], 1, "param") if reg else fs.get("offset")
                    ctx.check("trainable", f"{name} offset", isp(off), init.loc, f"the offset is {fmt(off or NONE)}, not a trainable parameter")
                else:
                    ctx.check("trainable", f"{name} offset", not isp(fs.get("offset")), init.loc, "the offset of a symmetric quantizer is a trainable parameter")
    ctx.floor("trainable", 6)


def cuts(ctx):
    """No function between the public entry points and the kernels is decorated with no_grad."""
    for mod in (FN, STATIC, DYNAMIC, "fastforward.quantization.affine._autograd", "fastforward.nn.linear_quantizer", "fastforward.nn.dynamic_linear_quantizer", "fastforward.quantization.function"):
        m = ctx.p.modules.get(mod)
        if m is None:
            continue
        for q, f in ctx.p.funcs.items():
            if f.module is not m:
                continue
            bad = [ast.unparse(d) for d in f.node.decorator_list if any(c.rsplit(".", 1)[-1] == ast.unparse(d).split("(")[0].rsplit(".", 1)[-1] for c in CUTS)]
            setter = f.name in ("quantization_range", "reset_parameters", "_initialize_parameters", "backward")
            ctx.check("graph.decorators", q, not bad or setter, f.loc, f"gradients are disabled by {', '.join(bad)}")
    ctx.floor("graph.decorators", 20)


def arities(ctx):
    """Autograd functions not reached above: as many gradients as inputs on every path."""
    n = 0
    for cq, c in ctx.p.classes.items():
        if not any(b[-1] == AF for b in (ctx.p.resolve_expr(c.module, x) for x in c.node.bases) if b):
            continue
        n += 1
        fwd, bwd = ctx.p.find_method(cq, "forward"), ctx.p.find_method(cq, "backward")
        if fwd is None or bwd is None:
            ctx.skip("arity.static", cq, "forward or backward not found")
            continue
        setup = "setup_context" in c.methods
        want = len(fwd.params()) - (0 if setup else 1)
        if fwd.node.args.vararg:
            ctx.skip("arity.static", cq, "variable number of inputs")
            continue
        for o in normals(run(ctx, bwd, inline=inline_same_module())):
            v = o.val
            k = len(v) - 1 if v[0] in ("tuple", "list") else 1
            if any(x[0] == "star" for x in v[1:] if isinstance(x, tuple)):
                continue
            ctx.check("arity.static", short(cq), k >= want and (v[0] != "tuple" or all(x == NONE for x in v[1 + want:])), bwd.loc, f"returns {k} gradients for {want} inputs")
    ctx.floor("arity.static", 3)
