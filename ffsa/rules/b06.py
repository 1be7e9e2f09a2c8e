"""Quantized modules.  Each quantized counterpart of a torch module is interpreted and its single
call into the functional interface compared with the call the torch base class makes (read from
the installed torch sources): same operator, every setting under its own parameter, operands passed
through their quantizers.  The conversion of models is decided on the paths of quantize_model."""
from __future__ import annotations

import ast
import os

from .b05 import table_ops
from .common import *

ASSUMPTIONS = ["the installed torch module classes define the behaviour of the float modules"]
QM = "fastforward.nn.quantized_module.QuantizedModule"
QZ = "fastforward.nn.quantizer.Quantizer"
STUB = "fastforward.nn.quantizer.QuantizerStub"
SELF = ("param", "self")
TORCH = "/opt/venv/lib/python3.12/site-packages/torch"
IGNORED = {"inplace", "training"}


def check(ctx):
    modules(ctx)
    conversion(ctx)
    missing(ctx)
    one_module(ctx)
    module_map(ctx)
    iterators(ctx)
    metaclass(ctx)


# ------------------------------------------------------------------ counterparts
def torch_base(p, cq):
    for b in p.mro(cq):
        for e in p.classes[b].bases if b in p.classes else ():
            if e is not None and e[0] == "ext" and e[1].startswith("torch.nn.") and e[1] != "torch.nn.Module":
                return e[1].rsplit(".", 1)[1]
    return None


def torch_forward(name):
    """(operator, {position or keyword: attribute}, attributes read) of a torch module's forward, or None."""
    d = os.path.join(TORCH, "nn/modules")
    if not os.path.isdir(d):
        return None
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py"):
            continue
        with open(os.path.join(d, fn), encoding="utf-8") as fp:
            text = fp.read()
        if f"class {name}(" not in text:
            continue
        for c in ast.parse(text).body:
            if isinstance(c, ast.ClassDef) and c.name == name:
                ms = {m.name: m for m in c.body if isinstance(m, ast.FunctionDef)}
                todo, seen = ["forward"], []
                while todo:
                    m = todo.pop()
                    if m not in ms or m in seen:
                        continue
                    seen.append(m)
                    for x in ast.walk(ms[m]):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
                            todo.append(x.func.attr)
                calls, attrs = [], set()
                for m in seen:
                    env = {a.arg: None for a in ms[m].args.args}
                    for x in ast.walk(ms[m]):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr not in ms:
                            attrs.add(x.attr)
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "F" and x.func.attr != "pad":
                            calls.append(x)
                if not calls:
                    return None
                simple = max(calls, key=lambda k: sum(src(a) is not None for a in list(k.args) + [w.value for w in k.keywords]))
                args = {i: src(a) for i, a in enumerate(simple.args)}
                args.update({w.arg: src(w.value) for w in simple.keywords})
                return simple.func.attr, args, attrs
    return None


def src(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
        return e.attr
    return None


def own_init(ctx, cq):
    """Quantizers a class declares: {name: ('stub', kwargs) | ('none',)} with problems."""
    p = ctx.p
    f = p.find_method(cq, "__init_quantization__")
    out, bad = {}, []
    if f is None or f.cls.qual == QM:
        return out, bad, f
    names = set()
    for o in normals(run(ctx, f, inline=inline_same_module(), types={SELF: cq})):
        sup = False
        for e in o.st.events:
            if e.kind == "call" and e.name.endswith("__init_quantization__") or e.kind == "super":
                sup = True
            if e.kind == "call" and "__init_quantization__" in e.name:
                sup = True
            if e.kind == "setattr" and e.obj == SELF:
                v = e.value
                if v[0] == "call" and v[1] == ("class", STUB):
                    out.setdefault(e.name, []).append(v)
                    if not sup:
                        bad.append(f"{e.name} is assigned before the base class is initialised")
            if e.kind == "call" and e.name.endswith("register_quantizer") and e.args:
                nm = e.args[0] if e.args[0][0] == "const" else e.args[1]
                val = e.args[1] if e.args[0][0] == "const" else e.args[2]
                if nm[0] == "const":
                    out.setdefault(nm[2], []).append(val)
        if not sup:
            bad.append("the base class is not initialised")
    return out, bad, f


def all_init(ctx, cq):
    """Quantizers declared by a class and its bases."""
    out, bad = {}, []
    for b in ctx.p.mro(cq):
        if b in ctx.p.classes and "__init_quantization__" in ctx.p.classes[b].methods and b != QM:
            o, bd, _ = own_init(ctx, b)
            for k, v in o.items():
                out.setdefault(k, v)
            bad += bd
    return out, bad


def modules(ctx):
    p = ctx.p
    table = table_ops(ctx)
    n = 0
    for cq in sorted(p.subclasses(QM, strict=True)):
        c = p.classes[cq]
        if not c.module.name.startswith("fastforward.nn."):
            continue
        con = short(cq)
        decl, bad = all_init(ctx, cq)
        # tags agree with the role
        for k, vs in decl.items():
            for v in vs:
                if v[0] == "call" and v[1] == ("class", STUB):
                    kw = dict(v[3])
                    on = {x for x, t in kw.items() if t == TRUE}
                    if k in ("input_quantizer", "weight_quantizer", "bias_quantizer", "output_quantizer") and on != {k}:
                        bad.append(f"{k} is tagged as {sorted(on)}")
                    sh = kw.get("shape")
                    if sh is not None and sh != NONE and sh != ("attr", ("attr", SELF, k.removesuffix("_quantizer")), "shape"):
                        bad.append(f"{k} records another tensor's shape")
        if decl:
            ctx.check("quantizers-declared", con, not bad, c.loc, "; ".join(sorted(set(bad))))
        f = p.find_method(cq, "forward")
        base = torch_base(p, cq)
        if f is None or base is None or f.cls is None:
            continue
        tf = torch_forward(base)
        if tf is None:
            ctx.skip("module-computes-operator", con, f"torch.nn.{base}.forward is not a single functional call")
            continue
        n += 1
        forward(ctx, con, cq, f, tf, decl, table)
    ctx.floor("module-computes-operator", 4)


def forward(ctx, con, cq, f, tf, decl, table):
    op, targs, attrs = tf
    first = f.params()[1]
    bad = []
    outs = normals(run(ctx, f, inline=inline_same_module("fastforward.nn"), types={SELF: cq}, merge=False))
    read = set()
    for o in outs:
        v = o.val
        wrapped = None
        if v[0] == "call" and v[1] == ("attr", SELF, "output_quantizer") and v[2]:
            wrapped, v = v[1], v[2][0]
        if v[0] != "call":
            bad.append("the result is not an operator call")
            continue
        name = ref_name(v[1]).rsplit(".", 1)[-1]
        if name != op:
            bad.append(f"computes {name} instead of {op}")
            continue
        names = table.get(name)
        if names is None:
            continue
        got = dict(zip(names, v[2]))
        got.update(dict(v[3]))
        want = {(names[k] if isinstance(k, int) else k): a for k, a in targs.items()}
        conds = [(c, b) for c, b in o.st.conds]
        for c, _ in conds:
            read |= {x[2] for x in walk(c) if x[0] == "attr" and x[1] == SELF}
        read |= {x[2] for x in walk(v) if x[0] == "attr" and x[1] == SELF}
        pad = any(x[0] == "call" and ref_name(x[1]).endswith("functional.pad") for x in walk(v))
        nonzero = any(mentions(c, ("attr", SELF, "padding_mode")) and (b is False if c[1] == "==" else True) for c, b in conds if c[0] == "cmp")
        if "padding_mode" in attrs and nonzero and not pad:
            bad.append("a padding mode other than zeros is ignored")
        for par, a in want.items():
            if a is None or a in IGNORED:
                continue
            t = got.get(par)
            is_in = a not in attrs
            srct = ("param", first) if is_in else ("attr", SELF, a)
            if t is None:
                if not any(c == ("cmp", "is", srct, NONE) and b for c, b in conds):
                    bad.append(f"'{par}' is not passed")
                continue
            q = None
            while t[0] == "call" and t[1][0] == "attr" and t[1][1] == SELF and t[1][2] in decl and len(t[2]) == 1:
                if q is not None:
                    bad.append(f"'{par}' is quantized twice")
                q, t = t[1][2], t[2][0]
            none = any(c == ("cmp", "is", srct, NONE) and b for c, b in conds)
            if par == "padding" and pad and nonzero:
                pass  # padded beforehand
            elif is_in and pad:
                if not mentions(t, srct):
                    bad.append("the input is not passed")
            elif t != srct and not (none and t == NONE):
                bad.append(f"'{par}' is not the module's own {a}")
            role = "input_quantizer" if is_in else a + "_quantizer"
            if q is not None and q != role:
                bad.append(f"'{par}' goes through {q}")
            if q is None and role in decl and not none:
                # allowed when the quantizer is absent
                if not any(c == ("cmp", "is", ("attr", SELF, role), NONE) and b for c, b in conds):
                    bad.append(f"'{par}' does not go through {role}")
        oq = got.get("output_quantizer")
        if "output_quantizer" in decl and wrapped is None and oq != ("attr", SELF, "output_quantizer"):
            bad.append("the result does not go through the output quantizer")
        if oq is not None and wrapped is not None:
            bad.append("the output quantizer is applied twice")
    for a in attrs - read - IGNORED:
        if a not in {x for x in targs.values()} and not a.startswith("_"):
            bad.append(f"the setting '{a}' of the float module is ignored")
    ctx.check("module-computes-operator", con, outs and not bad, f.loc, "; ".join(sorted(set(bad))) or "no result")


# ------------------------------------------------------------------ conversion
def conversion(ctx):
    p = ctx.p
    f = p.func("fastforward.nn.quantized_module.quantize_model")
    P = {n: ("param", n) for n in f.all_params()}
    M = P["model"]
    helpers = {"fastforward.nn.quantized_module._check_quantizable", "fastforward.nn.quantized_module._quantize_module", "fastforward.nn.quantized_module._missing_modules", "fastforward.nn.quantized_module.quantized_module_map"}
    bad, n = [], 0
    checker = _raiser(ctx)
    conv = _mutator(ctx)
    for o in run(ctx, f, inline=lambda g, *a: g.module.name == f.module.name and g.qual not in checker | conv and g.cls is None and g.name != "quantized_module_map", types={}, merge=False):
        if o.kind != "return":
            continue
        n += 1
        if o.val != M:
            bad.append("the model is not returned")
        evs = [e for e in o.st.events if e.kind == "call"]
        ck = [i for i, e in enumerate(evs) if e.name.startswith("func:") and e.name[5:] in checker]
        mu = [i for i, e in enumerate(evs) if e.name.startswith("func:") and e.name[5:] in conv]
        rec = [e for e in evs if e.name.endswith("quantize_children")]
        skipq = o.st.holds(P["skip_quantized_modules"])
        isq = next((b for c, b in o.st.conds if c == ("isinstance", M, ("class", QM))), None)
        if not ck:
            bad.append("modules are converted without checking that the whole model can be quantized")
        if mu and ck and min(mu) < min(ck):
            bad.append("the model is changed before it is known that all of it can be quantized")
        if not mu and not (skipq and isq):
            bad.append("a module that need not be skipped is not converted")
        if mu and skipq and isq:
            bad.append("an already quantized module is converted although these are to be skipped")
        for i in ck + mu:
            e = evs[i]
            a = list(e.args) + [v for _, v in e.kwargs]
            if M not in a[:1]:
                bad.append("another module than the given one is checked or converted")
            m = a[1] if len(a) > 1 else None
            why = map_ok(m, P, o.st)
            if why:
                bad.append(why)
        for i in ck:
            g = p.funcs[evs[i].name[5:]]
            v = evarg(evs[i], 2, "skip_quantized_modules")
            if "skip_quantized_modules" in g.all_params() and v not in (P["skip_quantized_modules"], const(skipq) if skipq is not None else None):
                bad.append("the check ignores whether quantized modules are to be skipped")
        r = o.st.holds(P["recursive"])
        last = [b for c, b in o.st.conds if c == ("isinstance", M, ("class", QM))]
        if rec and r is False:
            bad.append("children are converted although recursive is off")
        if not rec and r is not False and not (last and last[-1] is False):
            bad.append("the children of a quantized module are not converted")
        for e in rec:
            for k in ("extra_conversion", "skip_quantized_modules", "ignore_global_module_map"):
                v = dict(e.kwargs).get(k)
                if v is None and len(e.args) > 1:
                    v = {"extra_conversion": e.args[0], "skip_quantized_modules": e.args[1] if len(e.args) > 1 else None}.get(k)
                hv = o.st.holds(P[k])
                if v is None or v != P[k] and not (hv is not None and v == const(hv)) and not (k == "extra_conversion" and v == NONE and hv is False):
                    bad.append(f"children are converted with another '{k}'")
    ctx.check("conversion-complete-and-checked-first", "quantize_model", n and not bad, f.loc, "; ".join(sorted(set(bad))) or "no path")

    g = p.func(QM + ".quantize_children")
    bad, n = [], 0
    S = ("param", g.params()[0])
    for o in normals(run(ctx, g, inline=no_inline)):
        calls = [e for e in o.st.events if e.kind == "call" and e.name == "func:" + f.qual]
        quant = next((b for c, b in o.st.conds if c[0] == "isinstance" and c[2] == ("class", QZ)), None)
        loop = any(e.kind == "loop" for e in o.st.events)
        if loop and quant is not True and not calls:
            bad.append("a child is not converted")
        if calls and quant is not False:
            bad.append("quantizers are converted like modules")
        for e in calls:
            n += 1
            ch = e.args[0] if e.args else dict(e.kwargs).get("model")
            if ch is None or not any(x[0] == "call" and x[1] in (("attr", S, "named_children"), ("attr", S, "children")) for x in walk(ch)) and ch[0] not in ("val", "elem", "item"):
                bad.append("not the module's children are converted")
            for k in ("extra_conversion", "skip_quantized_modules", "ignore_global_module_map"):
                if dict(e.kwargs).get(k) != ("param", k):
                    bad.append(f"'{k}' is not passed on")
            if dict(e.kwargs).get("recursive") not in (None, TRUE):
                bad.append("grandchildren are not converted")
    ctx.check("conversion-complete-and-checked-first", "quantize_children", n and not bad, g.loc, "; ".join(sorted(set(bad))) or "nothing is converted")


def map_ok(m, P, st):
    """The conversion map: extra entries win over the global ones, which are absent if ignored."""
    if m is None:
        return "no conversion map is used"
    ign = st.holds(P["ignore_global_module_map"])
    extra = st.holds(P["extra_conversion"])
    if extra is None and st.holds(("cmp", "is", P["extra_conversion"], NONE)) is True:
        extra = False

    def order(t):
        if t == P["extra_conversion"]:
            return ["extra"]
        if t[0] == "call" and ref_name(t[1]).endswith("quantized_module_map"):
            return ["global"]
        if t[0] == "dict" or t[0] == "fresh":
            xs = t[1:] if t[0] == "dict" else st.heap.get((t, "@contents"), ())
            out = []
            for x in xs:
                out += order(x[1]) if x[0] in ("star", "dstar") else ["?"]
            return out
        if t[0] == "bin" and t[1] == "|":
            return order(t[2]) + order(t[3])
        if t[0] == "bin" and t[1] == "or":
            return order(t[2])
        if t[0] == "call" and t[1] == ("builtin", "dict"):
            return [y for a in t[2] for y in order(a)] + [y for k, a in t[3] for y in (order(a) if k == "**" else ["other"])]
        return ["?"]
    o = order(m)
    if "?" in o or "other" in o:
        return None
    want = ([] if ign else ["global"]) + (["extra"] if extra is not False else [])
    if [x for x in o if x != "extra" or extra is not False] != want:
        return "the conversion map is not the global map overridden by the extra conversions"
    return None


def _raiser(ctx):
    """Functions of the module (not the driver) that refuse unquantizable models."""
    p = ctx.p
    out = set()
    for q, f in p.funcs.items():
        if f.module.name == "fastforward.nn.quantized_module" and f.cls is None and f.name not in ("quantize_model",):
            if f.params()[:1] and any(isinstance(x, ast.Raise) for x in ast.walk(f.node)) and not any(isinstance(x, ast.Attribute) and x.attr == "__class__" and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
                out.add(q)
    return out


def _mutator(ctx):
    p = ctx.p
    return {q for q, f in p.funcs.items() if f.module.name == "fastforward.nn.quantized_module" and f.cls is None and f.name != "quantize_model" and any(isinstance(x, ast.Attribute) and x.attr == "__class__" and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node))}


def missing(ctx):
    """A model is refused exactly if some module type in it is neither mapped nor exempt."""
    p = ctx.p
    for q in sorted(_raiser(ctx)):
        f = p.funcs[q]
        ps = f.params()
        if len(ps) < 2 or f.name == "quantized_module_map":
            continue
        M, MAP = ("param", ps[0]), ("param", ps[1])
        SK = ("param", "skip_quantized_modules")
        bad, n = [], 0
        for o in run(ctx, f, inline=inline_same_module(), merge=False):
            if o.kind not in ("return", "raise", "normal"):
                continue
            loops = [e for e in o.st.events if e.kind == "loop" and contains(e.obj, lambda x: x[0] == "call" and x[1] == ("attr", M, "modules"))]
            if not loops:
                continue
            conds = list(o.st.conds)

            def known(pred):
                return next((b for c, b in conds if pred(c)), None)
            mapped = known(lambda c: c[0] == "cmp" and c[1] == "in" and c[3] == MAP)
            plain = known(lambda c: c[0] == "cmp" and c[1] in ("is", "==") and ("ext", "torch.nn.Module") in c[2:])
            quant = known(lambda c: c[0] == "call" and c[1] == ("builtin", "issubclass") and c[2][1] == ("class", QZ))
            skip = o.st.holds(SK)
            qmod = known(lambda c: c[0] == "call" and c[1] == ("builtin", "issubclass") and c[2][1] == ("class", QM))
            exempt = plain or quant or skip and qmod
            if o.kind == "raise":
                n += 1
                if mapped is not False:
                    bad.append("a model is refused although the module type is mapped")
                if exempt:
                    bad.append("a model is refused because of an exempt module")
                if not (o.val[0] == "call" and ref_name(o.val[1]).endswith("QuantizationError")):
                    bad.append("the refusal is not a QuantizationError")
            elif mapped is False and not exempt:
                bad.append("a module without quantized counterpart is accepted")
        ctx.check("unquantizable-models-refused", short(q), n and not bad, f.loc, "; ".join(sorted(set(bad))) or "nothing is refused")


def one_module(ctx):
    """Converting one module: its mapped class is set and initialised; skip markers leave it alone."""
    p = ctx.p
    for q in sorted(_mutator(ctx)):
        f = p.funcs[q]
        ps = f.params()
        M, MAP = ("param", ps[0]), ("param", ps[1])
        key = ("item", MAP, ("call", ("builtin", "type"), (M,), ()))
        bad, n = [], 0
        for o in run(ctx, f, inline=inline_same_module(), yield_raises=True, exc="explicit"):
            sets = [e for e in o.st.events if e.kind == "setattr" and e.obj == M and e.name == "__class__"]
            skip = next((b for c, b in o.st.conds if c[0] == "isinstance" and c[2] == ("class", "fastforward.nn.quantized_module.SkipQuantization") or c[0] == "cmp" and c[1] == "is" and any(contains(x, lambda y: y[0] in ("global", "name") and str(y[1]).endswith("SKIP_QUANTIZATION")) for x in c[2:])), None)
            if o.kind == "raise":
                if sets:
                    bad.append("an error leaves the module converted")
                continue
            n += 1
            if skip and sets:
                bad.append("a module marked to be skipped is converted")
            if not skip and not sets:
                bad.append("the module is not converted")
            for e in sets:
                v = e.value
                okv = v == key or v == ("item", MAP, ("attr", M, "__class__")) or v[0] == "call" and v[1] == ("attr", MAP, "get")
                if not okv:
                    bad.append("the class is not the one the map gives for the module's type")
                i = o.st.events.index(e)
                if not any(x.kind == "call" and x.name.endswith("__init_quantization__") and (x.obj == M or M in x.args[:1]) for x in o.st.events[i + 1:]):
                    bad.append("the converted module is not initialised")
        ctx.check("module-converted", short(q), n and not bad, f.loc, "; ".join(sorted(set(bad))) or "no path")


def module_map(ctx):
    """The global map gives the last recorded (and allowed) class of every module type."""
    p = ctx.p
    f = p.func("fastforward.nn.quantized_module.quantized_module_map")
    bad, n = [], 0
    for o in normals(run(ctx, f, inline=no_inline)):
        for k, v in o.st.heap.items():
            if isinstance(k[1], tuple) and k[1][0] == "item":
                n += 1
                if v[0] != "item" or v[2] != const(-1):
                    bad.append("not the class recorded last is used")
                elif not contains(v[1], lambda x: x[0] in ("val", "elem", "comp", "call")):
                    bad.append("the class is not from the recorded classes of that type")
                else:
                    flt = contains(v[1], lambda x: ref_name(x).endswith("_is_allow_listed_quantized_module") if x[0] in ("func", "global") else False) or any(c[0] == "call" and "allow" in ref_name(c[1]) and b for c, b in o.st.conds)
                    if not flt:
                        bad.append("the filter of modules is ignored")
    if n:
        ctx.check("module-map", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))
    else:
        ctx.skip("module-map", short(f.qual), "map construction not recognised")


def iterators(ctx):
    """named_quantizers yields all quantizers (stubs only on request) under their prefixed names; the quantizer state dict covers exactly those."""
    p = ctx.p
    f = p.func("fastforward.nn.quantized_module.named_quantizers")
    M = ("param", f.params()[0])
    bad, n = [], 0
    for o in normals(run(ctx, f, inline=inline_same_module(), merge=False)):
        rec = o.st.holds(("param", "recurse"))
        isq = next((b for c, b in o.st.conds if c[0] == "isinstance" and c[2] == ("class", QZ)), None)
        iss = next((b for c, b in o.st.conds if c[0] == "isinstance" and c[2] == ("class", STUB)), None)
        sk = o.st.holds(("param", "skip_stubs"))
        ys = [e for e in o.st.events if e.kind == "yield"]
        loop = [e for e in o.st.events if e.kind == "loop"]
        for e in loop:
            it = e.obj
            if it[0] != "call" or it[1][0] != "attr" or it[1][1] != M:
                continue
            if rec is True and it[1][2] != "named_modules":
                bad.append("submodules are not searched")
            if rec is False and it[1][2] not in ("named_children",):
                bad.append("submodules are searched although recurse is off")
            if it[1][2] == "named_modules":
                d = arg(it, 2, "remove_duplicate")
                if d != ("param", "remove_duplicate"):
                    bad.append("the handling of shared modules is not passed on")
        for e in ys:
            n += 1
            v = e.value
            if isq is not True:
                bad.append("something that is not a quantizer is yielded")
            if iss and sk is not False:
                bad.append("stubs are yielded although they are to be skipped")
            if v[0] == "tuple" and len(v) == 3:
                if not mentions(v[1], ("param", "prefix")) and not any(mentions(x.obj, ("param", "prefix")) for x in loop if x.obj is not None):
                    if o.st.holds(("param", "prefix")) is not False:
                        bad.append("the prefix is not part of the name")
        if loop and not ys and isq is True and not (iss and sk is True):
            bad.append("a quantizer is left out")
    ctx.check("quantizers-enumerated", short(f.qual), n and not bad, f.loc, "; ".join(sorted(set(bad))) or "nothing is yielded")

    g = p.func("fastforward.nn.quantized_module.quantizer_state_dict")
    bad, n = [], 0
    for o in normals(run(ctx, g, inline=no_inline, merge=False)):
        for e in o.st.events:
            if e.kind == "call" and e.name == "method:.state_dict":
                n += 1
                pre = dict(e.kwargs).get("prefix")
                dst = dict(e.kwargs).get("destination")
                if dst is not None and dst != o.val:
                    bad.append("state is not collected in the returned dictionary")
                if pre is None or not contains(pre, lambda x: x[0] in ("elem", "key", "item", "idx")):
                    bad.append("the name of the quantizer is not part of the keys")
        for e in o.st.events:
            if e.kind == "loop" and e.obj[0] == "call" and ref_name(e.obj[1]).endswith("named_quantizers"):
                if e.obj[2][:1] != (("param", g.params()[0]),) and ("attr", ("param", g.params()[0]), "named_quantizers") != e.obj[1]:
                    bad.append("another module's quantizers are collected")
                if dict(e.obj[3]).get("recurse") == FALSE or FALSE in e.obj[2]:
                    bad.append("quantizers of submodules are left out")
    ctx.check("quantizers-enumerated", short(g.qual), n and not bad, g.loc, "; ".join(sorted(set(bad))) or "no state is collected")


def metaclass(ctx):
    p = ctx.p
    c = p.cls(QM)
    meta = next((k.value for k in c.node.keywords if k.arg == "metaclass"), None)
    t = p.resolve_expr(c.module, meta) if meta is not None else None
    f = p.find_method(t[-1], "__call__") if t is not None and t[-1] in p.classes else None
    bad, n = [], 0
    for o in normals(run(ctx, f, inline=no_inline)) if f is not None else ():
        n += 1
        inits = [e for e in o.st.events if e.kind == "call" and e.name.endswith("__init_quantization__")]
        if len(inits) != 1:
            bad.append("the quantization initialiser does not run exactly once after construction")
        for e in inits:
            if e.obj != o.val:
                bad.append("not the returned instance is initialised")
        if not (o.val[0] == "call" and any(x[0] == "star" for x in o.val[2]) and any(k == "**" for k, _ in o.val[3])):
            bad.append("constructor arguments are not passed on")
    ctx.check("initialised-on-construction", short(QM), n and not bad, f.loc if f else c.loc, "; ".join(sorted(set(bad))) or "no constructor hook")
