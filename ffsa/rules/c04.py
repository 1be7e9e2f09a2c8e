"""Wiring of quantization.  Every entry point is interpreted with symbolic arguments down to the
construction of the parameters and to the registered kernels; parameters are objects whose fields are
followed, so that what reaches a kernel and what a quantized tensor records is compared, field by
field, with what the caller passed."""
from __future__ import annotations

from itertools import product

from ..concrete import CInterp
from .c01 import registered
from .c03 import SIZES, dims, seq, snippet, N, S
from .common import *

ASSUMPTIONS = ["torch.autograd.Function.apply runs forward with a context and the given arguments"]
FN = "fastforward.quantization.affine.function"
AQF = FN + ".AffineQuantizationFunction"
STATIC = "fastforward.quantization.affine.static"
DYNAMIC = "fastforward.quantization.affine.dynamic"
OPS = ("torch.ops.fastforward.",)
X, Q, SCALE, OFFSET, BITS, G, QD, DD, SYM, ONE = (("param", n) for n in ("x", "q", "scale", "offset", "bits", "g", "qd", "dd", "sym", "one"))
XT = ("ext", "torch.Tensor")


def check(ctx):
    execution(ctx)
    entry_points(ctx)
    quantizers(ctx)


class WInterp(CInterp):
    """Autograd functions are entered through apply."""

    def call(self, fn, args, kws, st, f, node, as_cm=False):
        if fn[0] == "attr" and fn[2] == "apply" and fn[1][0] == "class" and not kws:
            fwd = self.p.find_method(fn[1][1], "forward")
            if fwd is not None:
                outs = self.inline_call(fwd, [("ctx", fn[1][1])] + list(args), {}, st, f, node, bound=True)
                if outs is not None:
                    return outs
        if fn[0] == "bound" or fn[0] == "func":
            pass
        return super().call(fn, args, kws, st, f, node, as_cm)


def facts():
    out = {}
    for t in (X, Q, SCALE, OFFSET):
        out[("isinstance", t, XT)] = True
    for t in (X, Q, SCALE, OFFSET, QD, DD, G, BITS, ("attr", X, "dtype"), ("attr", Q, "dtype"), ("param", "infer")):
        out[("cmp", "is", t, NONE)] = False
        if t not in (SCALE, OFFSET, X, Q, BITS):
            out[t] = True
    return out


def drive(ctx, module, src, args=None, deny=(), export=False, **kw):
    f = snippet(ctx, module, src)
    kw.setdefault("ctor_inline", lambda q: q.startswith("fastforward.") and (ctx.p.is_dataclass(q) or q.startswith("fastforward.quantization.granularity.")))
    given = dict(facts())
    given.update(kw.pop("given", {}))
    models = flag_models(ctx.p)
    kw.setdefault("inline", inline_pkg("fastforward", maxsize=60, deny=deny)); kw.setdefault("max_depth", 16)
    i = WInterp(ctx.p, merge=False, models=models, given=given.items(), **kw)
    flag = ("attr", ("flag", "export_mode"), "value")
    i.given.append((flag, export))
    outs = i.run(f, args)
    ctx.analysed.update(i.inlined)
    return outs


def strip(t):
    """A scalar turned into a tensor, or a shape copied, is the same value."""
    while t[0] == "call":
        n = ref_name(t[1])
        if n in ("func:fastforward.common.tensor_or_none", "func:fastforward.common.ensure_tensor", "ext:torch.tensor", "ext:torch.as_tensor", "ext:torch.Size", "builtin:tuple") and t[2]:
            t = t[2][0]
        elif t[1][0] == "attr" and t[1][2] == "to" and all(k in ("dtype", "device") for k, _ in t[3]):
            t = t[1][1]
        else:
            break
    return t


def kernel(t, ops):
    """(name, {parameter: argument}) of a call of a registered operator, or None."""
    if t[0] != "call":
        return None
    n = ref_name(t[1])
    n = n.split(":", 1)[-1]
    if n.endswith(".default"):
        n = n[: -len(".default")]
    for o in OPS:
        if n.startswith(o) and n[len(o) :] in ops:
            f = ops[n[len(o) :]]["impl"]
            ps = f.params()
            b = dict(zip(ps, t[2]))
            b.update(dict(t[3]))
            b["input"] = b.get(ps[0], NONE)
            return n[len(o) :], b
    return None


def tile_ok(t, data):
    """A tile size computed by the granularity for the shape of the data, or that shape."""
    t = strip(t)

    def shape(s):
        s = strip(s)
        if s[0] == "call" and s[1][0] == "attr" and s[1][2] == "size" and not s[2]:
            s = ("attr", s[1][1], "shape")
        # quantization keeps the shape
        while s[0] == "attr" and s[2] == "shape" and s[1][0] == "call" and ref_name(s[1][1]).endswith((".quantize_by_tile", ".quantize_by_tile.default")) and s[1][2]:
            s = ("attr", s[1][2][0], "shape")
        return s == ("attr", data, "shape")

    if shape(t):
        return True
    return t[0] == "call" and t[1] == ("attr", G, "tile_size") and len(t[2]) + len(t[3]) == 1 and shape(strip((list(t[2]) + [v for _, v in t[3]])[0]))


def whole_ok(o, t, data):
    """The data shape is used as tile exactly if the granularity says so."""
    t = strip(t)
    said = None
    for c, b in o.st.conds:
        if not any(x[0] == "call" and x[1] == ("attr", G, "tile_size") for x in walk(c)):
            continue
        if c[0] == "cmp" and c[1] == "==" and const("data_shape") in c[2:]:
            said = b
        if c[0] == "isinstance" and c[2] == ("builtin", "str"):
            said = b
    is_shape = t[0] == "attr" or (t[0] == "call" and t[1][0] == "attr" and t[1][2] == "size")
    return not is_shape or said is not False


def compare(ctx, rule, name, got, want, loc, what):
    """got: {parameter: term}; want: {parameter: expected term or predicate}."""
    for k, w in want.items():
        g = got.get(k)
        if g is None:
            ctx.check(rule, f"{name} {k}", w == NONE, loc, f"{what}: {k} is not passed")
            continue
        ok = w(g) if callable(w) else strip(g) == w
        ctx.check(rule, f"{name} {k}", ok, loc, f"{what}: {k} is {fmt(g)}" + ("" if callable(w) else f" instead of {fmt(w)}"))


def fields(st, obj):
    return {k[1]: v for k, v in st.heap.items() if k[0] == obj and isinstance(k[1], str)}


def variants(names):
    """All combinations of given and missing optional arguments."""
    for combo in product((False, True), repeat=len(names)):
        yield dict(zip(names, combo))


def tensor_parts(ctx, rule, name, o, loc):
    """(raw, fields of the parameters) of a quantized tensor that is returned."""
    t = o.val
    if not (t[0] == "call" and ref_name(t[1]).endswith("QuantizedTensor") and len(t[2]) + len(t[3]) >= 2):
        ctx.check(rule, name, False, loc, f"returns {fmt(t)} instead of a quantized tensor")
        return None
    raw, c = arg(t, 0, "raw_data", NONE), arg(t, 1, "quantization_context", NONE)
    fs = fields(o.st, c)
    ctx.check(rule, f"{name} function", fs.get("quantization_fn") in (("class", AQF),), loc, f"the quantization function recorded is {fmt(fs.get('quantization_fn', NONE))}")
    return raw, fields(o.st, fs.get("quantization_params", NONE))


def execution(ctx):
    ops = registered(ctx)
    f = ctx.func(AQF + ".quantize")
    fd = ctx.func(AQF + ".dequantize")
    dt = ("attr", X, "dtype")
    for v in variants(("offset", "quantized_dtype", "dequantize_dtype")):
        od, dd = (QD if v["quantized_dtype"] else dt), (DD if v["dequantize_dtype"] else dt)
        off = OFFSET if v["offset"] else NONE
        name = " ".join(k if b else f"no-{k}" for k, b in v.items())
        args = {"offset": off, "qd": QD if v["quantized_dtype"] else NONE, "dd": DD if v["dequantize_dtype"] else NONE}
        mk = "StaticAffineQuantParams(scale=scale, offset=offset, num_bits=bits, granularity=g, quantized_dtype=qd, dequantize_dtype=dd)"
        src = f"def driver(x, q, scale, offset, bits, g, qd, dd):\n    return AffineQuantizationFunction.quantize(x, {mk})\n"
        want = {"input": X, "scale": SCALE, "offset": off, "num_bits": BITS, "output_dtype": od, "tile_size": lambda t: tile_ok(t, X)}
        for o in live(ctx, "static", drive(ctx, FN, src, args)):
            parts = tensor_parts(ctx, "static.result", name, o, f.loc)
            if parts is None:
                continue
            raw, ps = parts
            called(ctx, "static.kernel", name, raw, "quantize_by_tile", want, ops, o, f.loc, X)
            compare(ctx, "static.recorded", name, ps, {"scale": SCALE, "offset": off, "num_bits": BITS, "granularity": G, "dequantize_dtype": dd}, f.loc, "the recorded parameters differ")
        # export mode: the dequantized tensor of the same quantization
        for o in live(ctx, "export", drive(ctx, FN, src, args, export=True)):
            k = kernel(o.val, ops)
            if k is None or k[0] != "dequantize_by_tile":
                ctx.check("export.kernel", name, False, f.loc, f"export mode yields {fmt(o.val)}")
                continue
            inner = k[1].get("input", NONE)
            compare(ctx, "export.dequantize", name, k[1], {"scale": SCALE, "offset": off, "output_dtype": dd, "tile_size": lambda t: tile_ok(t, X)}, f.loc, "export mode dequantizes differently")
            called(ctx, "export.kernel", name, inner, "quantize_by_tile", want, ops, o, f.loc, X)
        # dequantization with the recorded parameters
        src = f"def driver(x, q, scale, offset, bits, g, qd, dd):\n    return AffineQuantizationFunction.dequantize(q, {mk})\n"
        wantd = {"input": Q, "scale": SCALE, "offset": off, "tile_size": lambda t: tile_ok(t, Q)}
        if v["dequantize_dtype"]:
            wantd["output_dtype"] = DD
        for o in live(ctx, "dequantize", drive(ctx, FN, src, args)):
            called(ctx, "dequantize.kernel", name, o.val, "dequantize_by_tile", wantd, ops, o, fd.loc, Q)
    ctx.floor("static.kernel", 40)
    ctx.floor("static.recorded", 40)
    ctx.floor("export.kernel", 40)
    ctx.floor("dequantize.kernel", 30)
    # dynamic
    for v in variants(("quantized_dtype", "dequantize_dtype", "infer")):
        od, dd = (QD if v["quantized_dtype"] else dt), (DD if v["dequantize_dtype"] else dt)
        name = " ".join(k if b else f"no-{k}" for k, b in v.items())
        args = {"qd": QD if v["quantized_dtype"] else NONE, "dd": DD if v["dequantize_dtype"] else NONE, "infer": ("param", "infer") if v["infer"] else NONE}
        mk = "DynamicAffineQuantParams(num_bits=bits, granularity=g, symmetric=sym, allow_one_sided=one, quantized_dtype=qd, dequantize_dtype=dd, parameter_inference_fn=infer)"
        src = f"def driver(x, bits, g, sym, one, qd, dd, infer):\n    return AffineQuantizationFunction.quantize(x, {mk})\n"
        for o in live(ctx, "dynamic", drive(ctx, FN, src, args)):
            parts = tensor_parts(ctx, "dynamic.result", name, o, f.loc)
            if parts is None:
                continue
            raw, ps = parts
            if v["infer"]:
                inf = [e for e in events(o, "call") if e.obj == ("param", "infer") or e.name == "param:infer"]
                ctx.check("dynamic.inferred", f"{name} call", len(inf) == 1 and len(inf[0].args) == 2 and inf[0].args[1] == X and inf[0].args[0][0] == "new" and inf[0].args[0][1].endswith("DynamicAffineQuantParams"), f.loc, "the parameter inference function is not called once with the parameters and the data")
                if not inf:
                    continue
                sc, of = ("item", inf[0].value, const(0)), ("item", inf[0].value, const(1))
                k = {"input": X, "scale": sc, "offset": of, "num_bits": BITS, "output_dtype": od, "tile_size": lambda t: tile_ok(t, X)}
                called(ctx, "dynamic.kernel", name, raw, "quantize_by_tile", k, ops, o, f.loc, X)
            else:
                if raw[0] != "item" or raw[2] != const(0):
                    ctx.check("dynamic.kernel", name, False, f.loc, f"the raw data is {fmt(raw)}")
                    continue
                k = {"input": X, "num_bits": BITS, "symmetric": SYM, "allow_one_sided": ONE, "output_dtype": od, "tile_size": lambda t: tile_ok(t, X)}
                called(ctx, "dynamic.kernel", name, raw[1], "quantize_dynamic_by_tile", k, ops, o, f.loc, X)
                sc, of = ("item", raw[1], const(1)), ("item", raw[1], const(2))
            compare(ctx, "dynamic.recorded", name, ps, {"scale": sc, "offset": of, "num_bits": BITS, "granularity": G, "dequantize_dtype": dd}, f.loc, "the recorded parameters differ")
        outs = drive(ctx, FN, src, args, export=True)
        ctx.check("dynamic.export", name, bool(outs) and all(o.kind == "raise" for o in outs), f.loc, "dynamic quantization is accepted in export mode")
        src = f"def driver(x, bits, g, sym, one, qd, dd, infer):\n    return AffineQuantizationFunction.dequantize(x, {mk})\n"
        outs = drive(ctx, FN, src, args)
        ctx.check("dynamic.dequantize", name, bool(outs) and all(o.kind == "raise" for o in outs), fd.loc, "a tensor with dynamic parameters, which were never fixed, is dequantized")
    ctx.floor("dynamic.kernel", 30)
    ctx.floor("dynamic.recorded", 30)


def live(ctx, rule, outs):
    for o in outs:
        if o.kind == "return":
            yield o
        elif not any(c for c, b in o.st.conds if c not in facts() and not (c[0] == "attr" and c[1][0] == "flag")):
            ctx.check(rule + ".fails", "unconditional error", False, AQF, f"fails with {fmt(o.val)}")


def called(ctx, rule, name, t, op, want, ops, o, loc, data):
    k = kernel(t, ops)
    if k is None:
        ctx.check(rule, name, False, loc, f"the raw data is {fmt(t)}, not the result of the {op} kernel")
        return
    ctx.check(rule, f"{name} kernel", k[0] == op, loc, f"calls the {k[0]} kernel instead of {op}")
    if k[0] != op:
        return
    compare(ctx, rule, name, k[1], want, loc, f"the {op} kernel is called differently")
    if "tile_size" in k[1]:
        ctx.check(rule, f"{name} whole", whole_ok(o, k[1]["tile_size"], data), loc, "the whole data is used as a tile although the granularity gives a tile size")


# ------------------------------------------------------------------ entry points
SHAPE = dims(N[:3], S[:3])
ONEC = const(1)
AX = {"0": 0, "1": 1, "-1": -1, "(0, 2)": (0, 2)}


def at(vals):
    d = list(SHAPE)
    for i, v in vals.items():
        d[i] = v
    return seq(d)


def grans():
    """(granularity expression, tile size)."""
    yield "granularities.PerTensor()", seq(SHAPE)
    for a in AX:
        yield f"granularities.PerChannel({a})", at({i: ONEC for i in (AX[a] if isinstance(AX[a], tuple) else (AX[a],))})
    yield "granularities.PerBlock(1, t1, 0)", at({0: ONEC, 1: S[1]})
    yield "granularities.PerBlock((0, 1), (t0, t1))", at({0: S[0], 1: S[1]})
    yield "granularities.PerTile((t0, t1, t2))", seq(S[:3])


def tile_of(ctx, g, heap):
    """Tile sizes of a granularity object for the sample shape."""
    f = snippet(ctx, FN, "def driver(g, shape):\n    return g.tile_size(shape)\n")
    i = CInterp(ctx.p, merge=False, sizes=SIZES, heap={k: v for k, v in heap.items() if k[0][0] == "new"}, inline=inline_pkg("fastforward", maxsize=60))
    res = set()
    for o in i.run(f, {"g": g, "shape": seq(SHAPE)}):
        v = o.val if o.kind == "return" else ("raise",)
        res.add(seq(SHAPE) if v == const("data_shape") else (seq(v[1:]) if v[0] in ("tuple", "list") else v))
    return res


def entry_points(ctx):
    st = "x, scale, offset"
    opt = dict(num_bits=BITS, quantized_dtype=QD)
    static = {"scale": SCALE, "offset": OFFSET, **opt}
    dyn = {"symmetric": SYM, "allow_one_sided": ONE, **opt}
    dynkw = "num_bits=bits, symmetric=sym, allow_one_sided=one, output_dtype=qd"
    cases = []
    for g, tile in grans():
        cases.append((STATIC, f"quantize_per_granularity(x, scale, offset, {g}, bits, qd)", tile, static))
        cases.append((STATIC, f"quantize_per_granularity(input=x, scale=scale, offset=offset, granularity={g}, num_bits=bits, output_dtype=qd)", tile, static))
        cases.append((DYNAMIC, f"quantize_per_granularity(x, {g}, {dynkw})", tile, dyn))
    cases.append((STATIC, "quantize_per_tensor(x, scale, offset, bits, qd)", seq(SHAPE), static))
    cases.append((DYNAMIC, f"quantize_per_tensor(x, {dynkw})", seq(SHAPE), dyn))
    for a, v in AX.items():
        tile = at({i: ONEC for i in (v if isinstance(v, tuple) else (v,))})
        cases.append((STATIC, f"quantize_per_channel(x, scale, offset, {a}, bits, qd)", tile, static))
        cases.append((DYNAMIC, f"quantize_per_channel(x, {a}, {dynkw})", tile, dyn))
    cases.append((STATIC, "quantize_by_tile(x, scale, offset, (t0, t1, t2), bits, qd)", seq(S[:3]), static))
    cases.append((DYNAMIC, f"quantize_by_tile(x, (t0, t1, t2), {dynkw})", seq(S[:3]), dyn))
    for c, b in ((0, 1), (2, 0), (-1, 1)):
        tile = at({c: ONEC, b: S[b]})
        cases.append((STATIC, f"quantize_per_block(x, scale, offset, {c}, {b}, t{b}, bits, qd)", tile, static))
        cases.append((DYNAMIC, f"quantize_per_block(x, {c}, {b}, t{b}, {dynkw})", tile, dyn))
    for module, call, tile, want in cases:
        fname = call.split("(")[0]
        f = ctx.func(f"{module}.{fname}")
        name = f"{module.rsplit('.', 1)[1]} {call}"
        src = f"def driver(x, scale, offset, bits, qd, sym, one, t0, t1, t2):\n    return {call}\n"
        outs = drive(ctx, module, src, {"t0": S[0], "t1": S[1], "t2": S[2]}, deny=(AQF + ".quantize",), sizes=SIZES, shapes={X: SHAPE})
        n = 0
        for o in outs:
            if o.kind != "return":
                continue
            c = o.val
            if not (c[0] == "call" and ref_name(c[1]) == f"func:{AQF}.quantize"):
                ctx.check("entry.function", name, False, f.loc, f"returns {fmt(c)} instead of the quantized data")
                continue
            n += 1
            xs = [v for v in c[2] if v != ("class", AQF)]
            data, params = (xs + [v for k, v in c[3] if k == "data"])[0], ([*xs[1:]] + [v for k, v in c[3] if k == "params"])[0]
            ctx.check("entry.data", name, data == X, f.loc, f"quantizes {fmt(data)}")
            ps = fields(o.st, params)
            compare(ctx, "entry.parameters", name, ps, want, f.loc, "other parameters are used")
            tiles = tile_of(ctx, ps.get("granularity", NONE), o.st.heap)
            ctx.check("entry.tiles", name, tiles == {tile}, f.loc, f"the tiles are {', '.join(sorted(map(fmt, tiles)))} instead of {fmt(tile)}")
            cls = params[1].rsplit(".", 1)[1] if params[0] == "new" else fmt(params)
            ctx.check("entry.kind", name, cls == ("StaticAffineQuantParams" if module == STATIC else "DynamicAffineQuantParams"), f.loc, f"quantizes with {cls}")
        ctx.check("entry.reached", name, n > 0, f.loc, "never quantizes")
    ctx.floor("entry.parameters", 100)
    ctx.floor("entry.tiles", 30)
    # contexts
    for module, call, want in (
        (STATIC, "quantization_context(scale, offset, g, bits, qd, dd)", {"scale": SCALE, "offset": OFFSET, "granularity": G, "num_bits": BITS, "quantized_dtype": QD, "dequantize_dtype": DD}),
        (DYNAMIC, "quantization_context(g, bits, sym, one, qd, dd)", {"symmetric": SYM, "allow_one_sided": ONE, "granularity": G, "num_bits": BITS, "quantized_dtype": QD, "dequantize_dtype": DD}),
    ):
        f = ctx.func(f"{module}.quantization_context")
        src = f"def driver(scale, offset, g, bits, qd, dd, sym, one):\n    return {call}\n"
        for o in drive(ctx, module, src):
            if o.kind != "return":
                continue
            fs = fields(o.st, o.val)
            ctx.check("context.function", module.rsplit(".", 1)[1], fs.get("quantization_fn") == ("class", AQF), f.loc, "another quantization function is recorded")
            compare(ctx, "context.parameters", module.rsplit(".", 1)[1], fields(o.st, fs.get("quantization_params", NONE)), want, f.loc, "the context has other parameters")
    ctx.floor("context.parameters", 10)
    random(ctx)


def random(ctx):
    q = "fastforward.quantization.random.random_quantized"
    if q not in ctx.p.funcs:
        ctx.skip("entry.random", q, "not found")
        return
    f = ctx.func(q)
    src = "def driver(shape, scale, offset, bits, g, dev, qd):\n    return random_quantized(shape, scale, offset, bits, granularity=g, device=dev, storage_dtype=qd)\n"
    for o in drive(ctx, "fastforward.quantization.random", src, deny=(STATIC + ".quantize_per_granularity",)):
        calls = [e for e in events(o, "call", f"func:{STATIC}.quantize_per_granularity")]
        if o.kind != "return" or not calls:
            continue
        e = calls[0]
        got = {n: evarg(e, i, n) for i, n in enumerate(("input", "scale", "offset", "granularity", "num_bits", "output_dtype")) if evarg(e, i, n) is not None}
        widened = lambda t: t == OFFSET or (contains(t, OFFSET) and contains(t, ("call", ("ext", "torch.ones_like"), (SCALE,), ()))) or t[0] == "bin"
        compare(ctx, "entry.random", "random_quantized", got, {"scale": SCALE, "offset": widened, "granularity": G, "num_bits": BITS, "output_dtype": QD}, f.loc, "other parameters are used")
        ctx.check("entry.random", "random_quantized result", o.val == e.value or (o.val[0] == "call" and contains(o.val, e.value)), f.loc, f"returns {fmt(o.val)}")


# ------------------------------------------------------------------ quantizers
SELF = ("param", "self")


def quantizers(ctx):
    lq, dq = "fastforward.nn.linear_quantizer.LinearQuantizer", "fastforward.nn.dynamic_linear_quantizer.DynamicLinearQuantizer"
    own = lambda *ns, **kw: {**{n: ("attr", SELF, n) for n in ns}, **kw}
    spec = {
        lq: own("scale", "offset", "granularity", "num_bits", "quantized_dtype"),
        dq: own("granularity", "num_bits", "quantized_dtype", "parameter_inference_fn", "symmetric", "allow_one_sided"),
    }
    for cq, want in spec.items():
        c = ctx.p.cls(cq)
        short_ = cq.rsplit(".", 1)[1]
        for meth in ("quantize", "quantization_context"):
            m = ctx.p.find_method(cq, meth)
            i = WInterp(ctx.p, merge=False, models=flag_models(ctx.p), types={SELF: cq}, inline=inline_pkg("fastforward", maxsize=60, deny=(AQF + ".quantize",)), ctor_inline=lambda q: ctx.p.is_dataclass(q), given=facts().items())
            n = 0
            for o in i.run(m, {}):
                ctx.analysed.update(i.inlined)
                if o.kind != "return":
                    continue
                n += 1
                name = f"{short_}.{meth}"
                if meth == "quantize":
                    t = o.val
                    callee = t[1] if t[0] == "call" else NONE
                    through = callee == ("attr", ("attr", SELF, "quantization_function"), "quantize") or ref_name(callee) == f"func:{AQF}.quantize"
                    ctx.check("quantizer.call", name, through, c.loc, f"returns {fmt(t)} instead of the quantized data")
                    if not through:
                        continue
                    xs = [v for v in t[2] if v != ("class", AQF)] + [v for _, v in t[3]]
                    ctx.check("quantizer.data", name, len(xs) == 2 and xs[0] == ("param", m.params()[1]), c.loc, "quantizes something else than its input")
                    params = xs[-1]
                else:
                    fs = fields(o.st, o.val)
                    params = fs.get("quantization_params", NONE)
                    ctx.check("quantizer.call", name, fs.get("quantization_fn") in (("class", AQF), ("attr", SELF, "quantization_function")), c.loc, "another quantization function is recorded")
                compare(ctx, "quantizer.parameters", name, fields(o.st, params), want, c.loc, "the quantizer's parameters are not used")
            ctx.check("quantizer.reached", f"{short_}.{meth}", n > 0, c.loc, "never quantizes")
        # the function of the quantizer
        pf = ctx.p.find_method(cq, "quantization_function")
        for o in normals(run(ctx, pf)):
            ctx.check("quantizer.function", short_, o.val == ("class", AQF), pf.loc, f"is {fmt(o.val)}")
        # constructor
        init = ctx.p.find_method(cq, "__init__")
        ctorargs = [a for a in init.all_params() if a != "self"]
        src = f"def driver({', '.join(ctorargs)}):\n    return {short_}({', '.join(f'{a}={a}' for a in ctorargs)})\n"
        given = {("param", "granularity"): True, ("cmp", "is", ("param", "granularity"), NONE): False}
        for o in drive(ctx, cq.rsplit(".", 1)[0], src, ctor_inline=lambda q: q.startswith("fastforward."), given=given):
            if o.kind != "return":
                continue
            fs = fields(o.st, o.val)
            for a in ("num_bits", "granularity", "quantized_dtype", "parameter_inference_fn", "allow_one_sided", *(["symmetric"] if cq == dq else [])):
                if a in ctorargs:
                    ctx.check("quantizer.constructor", f"{short_} {a}", fs.get(a) == ("param", a), init.loc, f"{a} is stored as {fmt(fs.get(a, NONE))}")
        for o in drive(ctx, cq.rsplit(".", 1)[0], f"def driver(bits):\n    return {short_}(bits)\n", ctor_inline=lambda q: q.startswith("fastforward.")):
            if o.kind == "return":
                g = fields(o.st, o.val).get("granularity", NONE)
                ctx.check("quantizer.default", f"{short_} granularity", g[0] == "new" and g[1].endswith(".PerTensor"), init.loc, f"the default granularity is {fmt(g)}")
    ctx.floor("quantizer.parameters", 20)
    ctx.floor("quantizer.constructor", 8)
