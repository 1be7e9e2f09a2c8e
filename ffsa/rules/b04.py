"""Life cycle of quantized tensors.  Copying, detaching, moving, pickling and re-attaching are
interpreted with the context and parameter helpers inlined; every result must combine the
tensor's own (copied, moved, ...) raw data with its own context, whose parameters went through
the same operation, parameter by parameter.  The generated quantization functions are followed
from the signatures of the two implementations to the arguments these receive."""
from __future__ import annotations

import ast

from .common import *

ASSUMPTIONS = ["torch.clone/detach/to/contiguous and copy.deepcopy behave as documented", "parameter types are dataclasses"]
QT = "fastforward.quantized_tensor.QuantizedTensor"
QC = "fastforward.quantization.function.QuantizationContext"
QP = "fastforward.quantization.function.QuantizationParameters"
FM = "fastforward.quantization.function"
SELF = ("param", "self")
OWN = ("attr", SELF, "_quantization_context")
MODS = (FM, "fastforward.common", "fastforward.dataclasses")
EXPORT = ("attr", ("flag", "export_mode"), "value")


def check(ctx):
    own = own_context(ctx)
    lifecycle(ctx, own)
    copies(ctx, own)
    context(ctx)
    implicit(ctx)


def reduce(t):
    """Element of a comprehension -> the comprehension's element expression."""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(reduce(x) for x in t)
    if t[0] in ("key", "val", "elem") and len(t) == 2 and isinstance(t[1], tuple):
        src = t[1]
        if src and src[0] == "call" and src[1][0] == "attr" and src[1][2] in ("items", "keys", "values") and not src[2]:
            src = src[1][1]
        if src and src[0] == "comp" and all(not f for _, f in src[3]):
            if src[1] == "dict":
                return src[2][2] if t[0] == "val" else src[2][1]
            return src[2]
    if t[0] == "call" and len(t) == 4 and t[1] == ("builtin", "getattr") and len(t[2]) == 2 and t[2][1][0] == "const":
        return ("attr", t[2][0], t[2][1][2])
    return t


def own_context(ctx):
    """The attribute the constructor stores the context in, and what `raw_data` reads."""
    p = ctx.p
    init = ctx.func(QT + ".__init__")
    cp = next((x for x in init.params() if "context" in x), init.params()[-1])
    name = None
    bad = []
    for o in normals(run(ctx, init, inline=inline_same_module())):
        hit = [k for k, v in o.st.heap.items() if k[0] == SELF and v == ("param", cp)]
        if not hit:
            bad.append("the constructor does not keep the quantization context")
        else:
            name = hit[0][1]
    new = ctx.func(QT + ".__new__")
    for o in normals(run(ctx, new, inline=inline_same_module())):
        if not (o.val[0] == "call" and o.val[1] == ("attr", ("param", "data"), "as_subclass")):
            bad.append("a new quantized tensor is not backed by the given raw data")
    ctx.check("constructor-keeps-data-and-context", short(QT), not bad and name, init.loc, "; ".join(sorted(set(bad))))
    own = ("attr", SELF, name or "_quantization_context")
    for n, want, msg in (("raw_data", lambda v: is_raw(v, SELF), "raw_data is not the tensor's own data"),
                         ("quant_args", lambda v: v == ("attr", own, "quantization_params"), "quant_args() are not the tensor's own parameters"),
                         ("quantization_context", lambda v: v == own, "not the tensor's own context"),
                         ("quant_func", lambda v: v == ("attr", own, "quantization_fn"), "not the tensor's own quantization function"),
                         ("int_repr", lambda v: is_raw(v, SELF), "int_repr() is not the raw data")):
        f = p.find_method(QT, n)
        if f is None:
            continue
        bad = [o for o in normals(run(ctx, f, inline=inline_same_module())) if not want(o.val)]
        ctx.check("accessor", short(f.qual), not bad, f.loc, msg)
    return own


def is_raw(t, base):
    """Raw data view of `base` (self, super(), raw_data, as_subclass(Tensor))."""
    if t == base or t[0] == "super":
        return True
    if t == ("attr", base, "raw_data") or t == ("call", ("attr", base, "int_repr"), (), ()):
        return True
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("as_subclass", "detach", "data") and is_raw(t[1][1], base):
        return t[1][2] != "as_subclass" or t[2] == (("ext", "torch.Tensor"),)
    return False


def data_op(t, base=SELF):
    """(operation, call) applied to the raw data, ('', None) when it is the raw data itself."""
    if is_raw(t, base) and not (t[0] == "call" and t[1][2] == "detach"):
        return "", None
    if t[0] == "call" and t[1][0] == "attr" and is_raw(t[1][1], base):
        return t[1][2], t
    n = ref_name(t[1]) if t[0] == "call" else ""
    if n.startswith("ext:") and t[2] and is_raw(t[2][0], base):
        return n.rsplit(".", 1)[-1], ("call", t[1], t[2][1:], t[3])
    return None, None


def rewrap(v):
    """(data, context) of a term that builds a quantized tensor."""
    if v[0] == "call":
        if v[1] == ("class", QT) or v[1] == ("call", ("builtin", "type"), (SELF,), ()) or v[1] == ("attr", SELF, "__class__"):
            return arg(v, 0, "data"), arg(v, 1, "quantization_context")
        if v[1][0] == "attr" and v[1][2] == "attach":
            return arg(v, 0, "data"), v[1][1]
        if ref_name(v[1]) == "func:fastforward.quantized_tensor._rebuild_quantized_tensor":
            return arg(v, 0, "data"), arg(v, 1, "quantization_context")
    return None


def params_op(t, own, st):
    """Operation applied to the context's parameters: ('', None) own context unchanged,
    (op, call) when every tensor parameter goes through it, (None, why) otherwise."""
    P = ("attr", own, "quantization_params")
    if t == own:
        return "", None
    if t[0] == "call" and ref_name(t[1]) in ("ext:copy.deepcopy", "ext:copy.copy") and t[2] and t[2][0] == own:
        return ref_name(t[1])[4:], t
    ps = None
    if t[0] == "call" and ref_name(t[1]) == "ext:dataclasses.replace" and t[2][:1] == (own,):
        if {k for k, _ in t[3]} != {"quantization_params"}:
            return None, "another part of the context than its parameters changes"
        ps = dict(t[3])["quantization_params"]
    elif t[0] == "call" and (t[1] == ("class", QC) or t[1] == ("call", ("builtin", "type"), (own,), ())):
        if arg(t, 0, "quantization_fn") != ("attr", own, "quantization_fn"):
            return None, "the quantization function changes"
        ps = arg(t, 1, "quantization_params")
    if ps is None:
        return None, "the result's context is not derived from the tensor's own"
    if ps == P:
        return "", None
    made = ps[0] == "call" and (ps[1] == ("call", ("builtin", "type"), (P,), ()) or ps[1] == ("attr", P, "__class__") or ref_name(ps[1]) == "ext:dataclasses.replace" and ps[2] == (P,))
    kw = dict(ps[3]).get("**") if made else None
    if kw is None or kw[0] != "comp" or kw[1] != "dict":
        return "?", None
    kw = reduce(kw)
    pair = kw[2]
    if any(f for _, f in kw[3]):
        return None, "some parameters are left out"
    src = [x for x in walk(pair[1]) if x[0] == "elem"]
    if not (pair[1][0] == "attr" and pair[1][2] == "name" or pair[1][0] in ("elem", "key")):
        return None, "parameters are renamed"
    g = ("call", ("builtin", "getattr"), (P, pair[1]), ())
    if pair[2] == g:
        return "same", None
    n = ref_name(pair[2][1]) if pair[2][0] == "call" else ""
    if pair[2][0] == "call" and pair[2][1] == ("attr", g, pair[2][1][2] if pair[2][1][0] == "attr" else ""):
        return pair[2][1][2], pair[2]
    if pair[2][0] == "call" and pair[2][2][:1] == (g,) and n.startswith("ext:"):
        return n.rsplit(".", 1)[-1], ("call", pair[2][1], pair[2][2][1:], pair[2][3])
    return None, "parameters are exchanged or computed with"


def is_tensor_path(st, own):
    """What the path assumes about the generic parameter being a tensor."""
    for c, b in st.conds:
        c = reduce(c)
        if c[0] == "isinstance" and mentions(c[1], own) and mentions(c[2], ("ext", "torch.Tensor")):
            return b
    return None


def types(own):
    return {SELF: QT, own: QC, ("attr", own, "quantization_params"): QP}


def lifecycle(ctx, own):
    p = ctx.p
    n = 0
    for name, want, copying in (("clone", "clone", True), ("detach", "detach", True), ("to", "to", True), ("cpu", "to", True), ("cuda", "to", True), ("contiguous", "contiguous", False)):
        f = p.find_method(QT, name)
        if f is None:
            ctx.check("lifecycle", f"quantized_tensor.QuantizedTensor.{name}", False, p.cls(QT).loc, f"{name}() is not provided for quantized tensors")
            continue
        bad = []
        outs = run(ctx, f, inline=inline_same_module(*MODS), models=flag_models(p), max_depth=10, types=types(own), merge=False, keep=lambda e: False)
        good = 0
        for o in normals(outs):
            v = o.val
            if v == SELF:
                if name == "contiguous" and (any(c[0] == "cmp" and c[1] in ("is", "==") and b and any(data_op(x)[0] == "contiguous" or data_op(x)[0] == "data_ptr" for x in c[2:4]) for c, b in o.st.conds) or any(c[0] == "call" and c[1][0] == "attr" and c[1][2] == "is_contiguous" and b for c, b in o.st.conds)):
                    good += 1
                    continue
                if name in ("clone", "detach", "contiguous"):
                    bad.append("returns the tensor itself")
                continue
            if deq(v, own):
                if o.st.holds(EXPORT) is True or name in ("to", "cpu", "cuda") and any(c[0] == "cmp" and c[1] == "is" and c[3] == NONE and not b for c, b in o.st.conds):
                    continue
                bad.append("the result is dequantized")
                continue
            w = rewrap(v)
            if w is None:
                bad.append("the result is not a quantized tensor")
                continue
            d, c = w
            if d is None or c is None:
                bad.append("the result lacks its data or its quantization context")
                continue
            op, call = data_op(d)
            if op is None and name not in ("cpu", "cuda"):
                bad.append("the data of the result is not derived from the tensor's own raw data")
                continue
            if op != want:
                bad.append(f"the raw data is not passed through {want}()")
            pop, pc = params_op(c, own, o.st)
            if pop is None:
                bad.append(pc)
                continue
            if pop == "?":
                ctx.skip("lifecycle", name, "context construction not recognised")
                continue
            isT = is_tensor_path(o.st, own)
            if pop == "same" and isT is False:
                good += 1
                continue
            if pop == want and isT is False:
                bad.append("the operation is applied to parameters that are not tensors")
                continue
            if pop in ("", "same") and name == "contiguous":
                good += 1
                continue
            if pop != want:
                bad.append(f"a tensor parameter does not go through {want}()")
                continue
            if want == "to" and call is not None and pc is not None:
                if arg(call, 0, "device") != arg(pc, 0, "device"):
                    bad.append("the parameters are moved to another device than the data")
            good += 1
        if not good and not bad:
            ctx.skip("lifecycle", name, "no path recognised")
        ctx.check("lifecycle", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))
        n += 1


def deq(v, own):
    """A dequantization of the tensor (possibly cast / moved afterwards)."""
    for x in walk(v):
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "dequantize":
            return True
    return False


def copies(ctx, own):
    p = ctx.p
    f = p.find_method(QT, "__deepcopy__")
    bad = []
    if f is None:
        bad, loc = ["deepcopy loses the quantization context"], p.cls(QT).loc
    else:
        loc = f.loc
        memo = ("param", f.params()[1])
        for o in normals(run(ctx, f, inline=inline_same_module(*MODS), types=types(own), merge=False)):
            w = rewrap(o.val)
            if w is None or None in w:
                bad.append("the copy is not a quantized tensor")
                continue
            d, c = w
            op, call = data_op(d)
            if not (op == "deepcopy" or op == "clone" or d[0] == "call" and ref_name(d[1]) == "ext:copy.deepcopy" and is_raw(d[2][0], SELF)):
                bad.append("the copy shares its raw data with the original")
            elif op != "clone" and memo not in d[2] + tuple(v for _, v in d[3]):
                bad.append("the raw data is copied without the memo")
            if not (c[0] == "call" and ref_name(c[1]) == "ext:copy.deepcopy" and c[2][:1] == (own,)):
                pop, _ = params_op(c, own, o.st)
                if pop not in ("clone", "deepcopy"):
                    bad.append("the copy shares quantization parameters with the original")
            elif memo not in c[2] + tuple(v for _, v in c[3]):
                bad.append("the context is copied without the memo, so objects shared within the copied structure are split")
    ctx.check("deepcopy-independent", "quantized_tensor.QuantizedTensor.__deepcopy__", not bad, loc, "; ".join(sorted(set(bad))))
    bad = []
    f = p.find_method(QT, "__reduce_ex__") or p.find_method(QT, "__reduce__")
    if f is None:
        bad, loc = ["pickling loses the quantization context"], p.cls(QT).loc
    else:
        loc = f.loc
        for o in normals(run(ctx, f, inline=inline_same_module(*MODS), types=types(own))):
            v = o.val
            if not (v[0] == "tuple" and len(v) >= 3 and v[2][0] == "tuple"):
                bad.append("unexpected reduce value")
                continue
            fn, args = v[1], v[2][1:]
            if fn[0] not in ("func", "class"):
                bad.append("unexpected rebuild function")
                continue
            if fn[0] == "func":
                res = normals(run(ctx, p.funcs[fn[1]], inline=no_inline, args=dict(zip(p.funcs[fn[1]].params(), args))))
                vals = [r.val for r in res]
            else:
                vals = [("call", fn, tuple(args), ())]
            for r in vals:
                w = rewrap(r)
                if w is None or None in w:
                    bad.append("unpickling does not give a quantized tensor")
                    continue
                if not is_raw(w[0], SELF):
                    bad.append("the pickled data is not the raw data of the tensor")
                if w[1] != own:
                    bad.append("the pickled context is not the tensor's own")
    ctx.check("pickle-round-trip", "quantized_tensor.QuantizedTensor.__reduce_ex__", not bad, loc, "; ".join(sorted(set(bad))))
    # re-attach helper
    f = ctx.func("fastforward.quantized_tensor.apply_and_reattach")
    bad, n = [], 0
    F, Q = ("param", "func"), ("param", "quantized")

    def reattached(v, q, st):
        if any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "dequantize" for x in walk(v)) and st.holds(EXPORT) is True:
            return True
        w = rewrap(v)
        if w is None or None in w:
            return False
        d, c = w
        return c in (("attr", q, own[2]), ("attr", q, "quantization_context")) and d[0] == "call" and d[1] == F and len(d[2]) == 1 and is_raw(d[2][0], q)

    for o in normals(run(ctx, f, inline=inline_same_module(*MODS), models=flag_models(p), types={Q: QT, ("attr", Q, own[2]): QC})):
        n += 1
        if o.val[0] in ("closure", "partial"):
            q = ("param", "later")
            if o.val[0] == "closure":
                for r in call_term(ctx, o.val, [q], o.st, inline=inline_same_module(*MODS), models=flag_models(p), types={q: QT, ("attr", q, own[2]): QC}):
                    if r.st.holds(("cmp", "is", q, NONE)) is True:
                        continue
                    if r.kind != "value" or not reattached(r.val, q, r.st):
                        bad.append("the decorated function does not apply the function to the raw data and keep the context")
        elif not reattached(o.val, Q, o.st):
            bad.append("the function's result is not wrapped with the tensor's own context")
    ctx.check("reattach-own-context", short(f.qual), not bad and n, f.loc, "; ".join(sorted(set(bad))))


def context(ctx):
    """QuantizationContext.attach / with_changes, QuantizationParameters.with_changes."""
    p = ctx.p
    f = ctx.func(QC + ".attach")
    d = ("param", f.params()[1])
    bad, n = [], 0
    for o in normals(run(ctx, f, inline=inline_same_module(), models=flag_models(p))):
        exp = o.st.holds(EXPORT)
        if o.val[0] == "call" and o.val[1] == ("class", QT):
            n += 1
            if arg(o.val, 0, "data") != d or arg(o.val, 1, "quantization_context") != SELF:
                bad.append("attach does not combine the given data with this context")
        elif o.val[0] == "call" and o.val[1] == ("attr", ("attr", SELF, "quantization_fn"), "dequantize"):
            if exp is not True:
                bad.append("data is dequantized outside export mode")
            if (arg(o.val, 0, "data"), arg(o.val, 1, "params")) != (d, ("attr", SELF, "quantization_params")):
                bad.append("dequantized with other data or parameters")
        else:
            bad.append("attach does not return a quantized tensor")
    ctx.check("attach-own-context", short(f.qual), not bad and n, f.loc, "; ".join(sorted(set(bad))))
    frozen = lambda c: any(isinstance(x, ast.keyword) and x.arg == "frozen" and getattr(x.value, "value", False) is True for x in ast.walk(ast.Module(body=[ast.Expr(y) for y in c.node.decorator_list], type_ignores=[])))
    for cq in (QC,):
        ctx.check("context-immutable", short(cq), frozen(p.cls(cq)), p.cls(cq).loc, "the context is shared between tensors and must be a frozen dataclass")
    for cq in (QP, QC):
        f = p.find_method(cq, "with_changes")
        if f is None:
            continue
        bad = []
        for o in run(ctx, f, inline=inline_same_module(), types={("attr", SELF, "quantization_params"): QP}, merge=False):
            if any(k[0] in (SELF, ("attr", SELF, "quantization_params")) and not (isinstance(k[1], str) and k[1].startswith("@")) for k in o.st.heap):
                bad.append("the original is changed in place")
            if o.kind != "return":
                continue
            v, ch = o.val, ("**", ("param", "changes"))
            if cq == QP:
                if not (v[0] == "call" and ref_name(v[1]) == "ext:dataclasses.replace" and v[2] == (SELF,) and v[3] == (ch,)):
                    bad.append("the result is not a copy with exactly the given changes")
                continue
            P = ("attr", SELF, "quantization_params")
            kw = {}
            if v[0] == "call" and ref_name(v[1]) == "ext:dataclasses.replace" and v[2] == (SELF,):
                for k, x in v[3]:
                    if k == "**":
                        if x[0] == "dict":
                            kw.update({a[1][2]: a[2] for a in x[1:] if a[0] == "pair" and a[1][0] == "const"})
                        elif x[0] == "fresh":
                            for (ob, l), y in o.st.heap.items():
                                if ob == x and isinstance(l, tuple) and l[0] == "item" and l[1][0] == "const":
                                    kw[l[1][2]] = y
                    else:
                        kw[k] = x
            elif v[0] == "call" and v[1] in (("class", QC), ("call", ("builtin", "type"), (SELF,), ())):
                kw = {"quantization_fn": arg(v, 0, "quantization_fn"), "quantization_params": arg(v, 1, "quantization_params")}
            ps = kw.get("quantization_params")
            if ps is None or not mentions(ps, P) or not mentions(ps, ("param", "changes")):
                bad.append("the parameter changes are not applied to the context's own parameters")
            fn, given = kw.get("quantization_fn"), ("param", "quantization_fn")
            isnone = o.st.holds(("cmp", "is", given, NONE))
            if isnone is False and fn != given:
                bad.append("the given quantization function is ignored")
            if isnone is True and fn not in (None, ("attr", SELF, "quantization_fn")):
                bad.append("the quantization function changes although none is given")
        ctx.check("with-changes", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))


def implicit(ctx):
    """Generated quantization functions hand each implementation exactly its own parameters."""
    p = ctx.p
    cq = FM + "._ImplicitQuantizationFunction"
    if cq not in p.classes:
        ctx.skip("implementation-arguments", cq, "class not found")
        return
    P, D = ("param", "params"), ("param", "data")
    for name, src in (("quantize", "quantize_params"), ("dequantize", "dequantize_params")):
        f = p.find_method(cq, name)
        bad = []
        cls = ("param", f.params()[0])
        impls = set()
        for o in normals(run(ctx, f, inline=inline_same_module())):
            v = o.val
            if name == "quantize":
                w = (arg(v, 0, "data"), arg(v, 1, "quantization_context")) if v[0] == "call" and v[1] == ("class", QT) else None
                if w is None and v[0] == "call" and v[1][0] == "attr" and v[1][2] == "attach":
                    w = (arg(v, 0, "data"), v[1][1])
                if w is None or None in w:
                    bad.append("the result is not a quantized tensor")
                    continue
                c = w[1]
                if not (c[0] == "call" and c[1] == ("class", QC) and arg(c, 0, "quantization_fn") == cls and arg(c, 1, "quantization_params") == P):
                    bad.append("the result's context does not hold this function and the given parameters")
                v = w[0]
            if not (v[0] == "call" and v[1][0] == "attr" and v[1][1] == cls):
                bad.append("the implementation is not called")
                continue
            impls.add(v[1][2])
            if v[2] != (D,) or v[3] != (("**", ("call", ("attr", P, src), (), ())),):
                bad.append(f"{name} does not receive the data and its own parameters")
        ctx.check("implementation-arguments", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))
        mk = ctx.func(FM + ".create_quantization_function")
        # the class body stores the right implementation under the attribute used above
        ok, seen = True, False
        for n in ast.walk(mk.node):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value in impls:
                        seen = True
                        ok &= any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(v)) and not any(isinstance(x, ast.Name) and x.id == ("dequantize" if name == "quantize" else "quantize") for x in ast.walk(v))
        if seen:
            ctx.check("implementation-stored", f"{short(mk.qual)} {name}", ok, mk.loc, f"the {name} implementation is stored under another role")
        else:
            ctx.skip("implementation-stored", name, "class creation not recognised")
    mk = ctx.func(FM + "._make_quantization_parameters_type")
    bad, n = [], 0
    for o in normals(run(ctx, mk, inline=lambda f, i: False, merge=True, keep=lambda e: e.kind == "call")):
        v = o.val
        if not (v[0] == "call" and ref_name(v[1]) == "ext:dataclasses.make_dataclass"):
            continue
        ns = arg(v, None, "namespace")
        if ns is None or ns[0] != "dict":
            continue
        got = {a[1][2]: a[2] for a in ns[1:] if a[0] == "pair" and a[1][0] == "const"}
        for role in ("quantize", "dequantize"):
            c = got.get(role + "_params")
            if c is None or c[0] != "closure":
                continue
            n += 1
            me = ("param", "me")
            for r in call_term(ctx, c, [me], o.st):
                comp = r.val
                if comp[0] != "comp" or comp[2][0] != "pair" or any(fl for _, fl in comp[3]):
                    bad.append(f"{role}_params() does not list every parameter of the implementation")
                    continue
                its = comp[3]
                k, x = comp[2][1], comp[2][2]
                if not (x[0] == "call" and x[1] == ("builtin", "getattr") and x[2] == (me, k)):
                    bad.append(f"{role}_params() does not pair each name with its own value")
                if not mentions(its, ("param", role)) or mentions(its, ("param", "dequantize" if role == "quantize" else "quantize")):
                    bad.append(f"{role}_params() lists the parameters of the other implementation")
    if n:
        ctx.check("implementation-arguments", short(mk.qual), not bad, mk.loc, "; ".join(sorted(set(bad))))
    else:
        ctx.skip("implementation-arguments", short(mk.qual), "parameter type creation not recognised")
