"""Affine quantization formula.  The registered quantization kernels are interpreted and the value
each of them returns is brought into a canonical algebraic form (Laurent polynomials over data rows,
scale, rounded offset and powers of two; rounding and clamping as atoms) and compared with the
affine formula: quantize, dequantize, dynamic quantize and gradient. Storage types are compared
with the range of the integer grid by constant folding over the known types."""
from __future__ import annotations

from fractions import Fraction

from .. import algebra as A
from .common import *

ASSUMPTIONS = [
    "torch elementwise functions have their documented meaning; equality of formulas is over the reals",
    "the tiling maps are mutually inverse (decided by C03)",
]
OPS = "fastforward::"
TILES = "fastforward.quantization.tiled_tensor."
MANTISSA = {"bfloat16": 7, "float16": 10, "float32": 23, "float64": 52, "float8_e4m3fn": 3, "float8_e4m3fnuz": 3, "float8_e5m2": 2, "float8_e5m2fnuz": 2}
INTS = {"int8": (-128, 127, 8), "int16": (-(2**15), 2**15 - 1, 16), "int32": (-(2**31), 2**31 - 1, 32), "uint8": (0, 255, 8)}


def registered(ctx):
    """{op name: (implementation, fake implementation)} from the registration decorators."""
    out = {}
    for q, f in ctx.p.funcs.items():
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and d.args and isinstance(d.args[0], ast.Constant) and isinstance(d.args[0].value, str) and d.args[0].value.startswith(OPS):
                nm = ast.unparse(d.func)
                fake = "fake" in nm or "abstract" in nm
                out.setdefault(d.args[0].value[len(OPS):], {})["fake" if fake else "impl"] = f
    return out


def check(ctx):
    ops = registered(ctx)
    for name, fn in (("quantize_by_tile", quantize), ("dequantize_by_tile", dequantize), ("quantize_by_tile_backward", gradient), ("quantize_dynamic_by_tile", dynamic)):
        if name in ops and "impl" in ops[name]:
            fn(ctx, ops[name]["impl"])
        else:
            raise AnalysisBroken(f"no implementation registered for {OPS}{name}")
        ctx.floor(f"formula.{name}", 2)
    storage(ctx)
    fakes(ctx, ops)
    compiled(ctx, ops)


# ------------------------------------------------------------------ kernels as formulas
def interp(ctx, f):
    deny = ("tiles_to_rows", "rows_to_tiles", "parameters_for_range", "can_support_bitwidth", "wrapper", "ste")
    pol = inline_pkg("fastforward.quantization", maxsize=60, deny=deny)

    def ste_model(i, fn, args, kw, st, loc, f):
        return i.V(st, ("call", ("ext", "torch.round"), args, ()))

    return [o for o in run(ctx, f, inline=pol, functional=True, merge=False, models={"global:fastforward.quantization.ste.round_ste": ste_model}) if o.kind == "return"]


def params(f):
    return f.params()


def is_tile(t, f):
    """The tile size parameter, possibly passed through torch.Size / list / tuple."""
    while t[0] == "call" and ref_name(t[1]) in ("ext:torch.Size", "builtin:tuple", "builtin:list") and len(t[2]) == 1:
        t = t[2][0]
    return t == ("param", "tile_size") or (t == ("const", "str", "data_shape") and False)


def is_shape(t, data):
    while t[0] == "call" and ref_name(t[1]) in ("ext:torch.Size", "builtin:tuple", "builtin:list") and len(t[2]) == 1:
        t = t[2][0]
    return t == ("attr", data, "shape") or (t[0] == "call" and t[1] == ("attr", data, "size") and not t[2])


class Bad(Exception):
    pass


def harmless(t):
    """Casts between the floating types of the operands of the formula (no storage type)."""
    if t[1][2] in ("float", "double", "type_as"):
        return True
    vals = list(t[2]) + [v for k, v in t[3] if k in ("dtype", "device", "other")]
    for v in vals:
        if v[0] == "attr" and v[2] in ("dtype", "device"):
            continue
        if v in (("ext", "torch.float32"), ("ext", "torch.float64"), ("ext", "torch.float"), ("ext", "torch.double")):
            continue
        if v[0] in ("param", "call") and v != ("param", "output_dtype"):
            continue
        return False
    return True


def strip_cast(t):
    while t[0] == "call" and t[1][0] == "attr" and (t[1][2] in ("contiguous", "clone", "detach") or (t[1][2] in ("to", "float", "double") and harmless(t))):
        t = t[1][1]
    return t


STRIP = ("contiguous", "clone", "detach")


class Form:
    """Canonicalization of the terms of one kernel."""

    def __init__(self, f, storage=None):
        self.f, self.storage = f, storage

    def into_storage(self, t):
        """A cast of something else than the raw data to the raw data's (possibly integer) type."""
        if self.storage is None or any(x == self.storage for x in walk(t[1][1])):
            return False
        return any(x == self.storage for v in list(t[2]) + [v for _, v in t[3]] for x in walk(v))

    def bind(self, alg):
        def leaf(t, w):
            if t == ("param", "num_bits"):
                return A.atom(("leaf", (), t))
            if t[0] == "call":
                if ref_name(t[1]) == f"func:{TILES}tiles_to_rows":
                    if not is_tile(arg(t, 1, "tile_size", NONE), self.f):
                        raise Bad(f"rows are formed with {fmt(arg(t, 1, 'tile_size', NONE))} instead of the tile size")
                    if w:
                        raise Bad("the rows are reshaped")
                    return A.atom(("rows", strip_cast(arg(t, 0, "data", NONE))))
                if t[1][0] == "attr" and t[1][2] in ("to", "type_as", "float", "double") and harmless(t):
                    if self.into_storage(t):
                        raise Bad("a quantization parameter is cast to the storage type of the raw data")
                    return alg.ev(t[1][1], w)
            return None

        return leaf

    def value(self, t):
        a = A.Alg(strip=STRIP)
        a.leaf = self.bind(a)
        return a.ev(t)


def untile(t, f, data):
    """(rows expression, storage type) of a kernel result."""
    dtype, tiled = None, False
    while t[0] == "call":
        if t[1][0] == "attr" and t[1][2] in STRIP:
            t = t[1][1]
        elif t[1][0] == "attr" and t[1][2] == "to":
            d = arg(t, 0, "dtype")
            if d is not None and dtype is None and not (d[0] == "attr" and d[2] == "device"):
                dtype = d
            t = t[1][1]
        elif ref_name(t[1]) == f"func:{TILES}rows_to_tiles":
            if not is_tile(arg(t, 2, "tile_size", NONE), f):
                raise Bad("the result is tiled with another tile size")
            if not is_shape(arg(t, 1, "data_size", NONE), data):
                raise Bad("the result does not have the shape of the data")
            t, tiled = arg(t, 0, "tiled_data", NONE), True
        else:
            break
    if not tiled:
        raise Bad("the result is not laid out like the data")
    return t, dtype


def P(name, *w):
    return A.atom(("leaf", w, ("param", name)))


def grid():
    p = A.power(A.num(2), A.sub(P("num_bits"), A.ONE))
    return A.scale(p, Fraction(-1)), A.sub(p, A.ONE)


def offset_none(o, t=("param", "offset")):
    return o.st.holds(("cmp", "is", t, NONE))


def report(ctx, rule, f, o, fn):
    key = f"{short(f.qual)} ({o})"
    try:
        ok, msg = fn()
    except Bad as e:
        ok, msg = False, str(e)
    except A.Need as e:
        ctx.skip(rule, key, f"depends on {e.lit[0]}")
        return
    ctx.check(rule, key, ok, f.loc, msg)


def variant(o):
    n = offset_none(o)
    return "without offset" if n else "with offset" if n is False else "any offset"


def rounded_offset(o):
    n = offset_none(o)
    if n:
        return A.ZERO
    return A.atom(("round", P("offset", "flat", "col")))


def differs(got, want):
    return f"computes {A.show(got)} instead of {A.show(want)}"


def quantize(ctx, f):
    outs = interp(ctx, f)
    seen = {}
    for o in outs:
        seen.setdefault((o.val, offset_none(o)), o)
    for o in seen.values():
        def go(o=o):
            t, dtype = untile(o.val, f, ("param", "data"))
            got = Form(f).value(t)
            lo, hi = grid()
            x = A.sub(A.mul(A.atom(("rows", ("param", "data"))), A.inv(P("scale", "flat", "col"))), rounded_offset(o))
            want = A.atom(("clamp", A.atom(("round", x)), lo, hi))
            return got == want, differs(got, want)

        report(ctx, "formula.quantize_by_tile", f, variant(o), go)
    stored(ctx, f, outs, lambda o: o.val)


def dequantize(ctx, f):
    outs = interp(ctx, f)
    seen = {}
    for o in outs:
        seen.setdefault((o.val, offset_none(o), truthy(o, ("param", "output_dtype"))), o)
    for o in seen.values():
        def go(o=o):
            t, dtype = untile(o.val, f, ("param", "data"))
            want = A.mul(A.add(A.atom(("rows", ("param", "data"))), rounded_offset(o)), P("scale", "flat", "col"))
            got = Form(f, ("param", "data")).value(t)
            if got != want:
                return False, differs(got, want)
            given = truthy(o, ("param", "output_dtype"))
            if given is not False:
                return dtype == ("param", "output_dtype"), "the requested output type is not applied"
            return True, ""

        report(ctx, "formula.dequantize_by_tile", f, variant(o) + ", " + ("typed" if truthy(o, ("param", "output_dtype")) else "untyped"), go)


def truthy(o, t):
    v = o.st.holds(t)
    if v is None:
        n = o.st.holds(("cmp", "is", t, NONE))
        v = None if n is None else not n
    return v


def stored(ctx, f, outs, pick):
    """Every returned value is cast to a type the storage test accepted for this bitwidth."""
    ok, why = True, ""
    for o in outs:
        try:
            _, dtype = untile(pick(o), f, ("param", "data"))
        except Bad:
            continue
        if dtype is None:
            # stored in the computation type; still has to be tested
            dtype = None
        tested = False
        for c, b in o.st.conds:
            if b and c[0] == "call" and c[1][0] in ("func", "global") and any(x == ("param", "num_bits") for x in walk(c)):
                if dtype is None or any(a == dtype for a in list(c[2]) + [v for _, v in c[3]]):
                    tested = True
        if not tested:
            ok, why = False, "a path stores the grid in a type that was not tested for the bitwidth"
    ctx.check("storage.tested", short(f.qual), ok, f.loc, why)
    ctx.floor("storage.tested", 2)


# ------------------------------------------------------------------ dynamic
def row_extreme(t):
    """('min'|'max', rows term) of a per-row reduction."""
    if t[0] == "attr" and t[2] in ("values", "min", "max") and t[1][0] == "call":
        c, pick = t[1], t[2]
    elif t[0] == "item" and t[2][0] == "const" and t[1][0] == "call":
        c, pick = t[1], t[2][2]
    else:
        c, pick = t, None
    if c[0] != "call":
        return None
    n, a, kw = A.Alg().op(c)
    if n in ("aminmax",) and a:
        kind = {"min": "min", "max": "max", 0: "min", 1: "max"}.get(pick)
        dim = kw.get("dim", a[1] if len(a) > 1 else None)
    elif n in ("min", "max") and pick in ("values", 0) and (len(a) == 2 or "dim" in kw):
        kind, dim = n, kw.get("dim", a[1] if len(a) > 1 else None)
    elif n in ("amin", "amax") and pick is None:
        kind, dim = n[1:], kw.get("dim", a[1] if len(a) > 1 else None)
    else:
        return None
    if kind is None or dim is None or dim[0] != "const" or dim[2] not in (1, -1):
        return None
    return kind, a[0]


def dynamic(ctx, f):
    rule = "formula.quantize_dynamic_by_tile"
    outs = interp(ctx, f)
    pfr = "fastforward.quantization.affine.range.parameters_for_range"
    seen = {}
    form = Form(f)
    for o in outs:
        calls = {c for c in calls_in(o.val) if c[1][0] == "func" and c[1][1] == pfr}
        off = None
        if len(calls) == 1:
            off = o.st.holds(("cmp", "is", ("item", next(iter(calls)), const(1)), NONE))
        seen.setdefault((o.val, off), (o, calls, off))
    for o, calls, off in seen.values():
        key = "without offset" if off else "with offset"

        def go(o=o, calls=calls, off=off):
            if o.val[0] not in ("tuple", "list") or len(o.val) != 4:
                return False, "does not return data, scale and offset"
            if len(calls) != 1:
                return False, "the parameters do not come from one range computation"
            c = next(iter(calls))
            rows = A.atom(("rows", ("param", "data")))
            for i, n in ((0, "min"), (1, "max")):
                v = arg(c, i, f"{n}_range", NONE)
                e = row_extreme(strip_cast(v))
                if e is None or e[0] != n or form.value(e[1]) != rows:
                    return False, f"the {n} of the range is not the row-wise {n} of the data"
            for i, n in ((2, "num_bits"), (3, "symmetric"), (4, "allow_one_sided")):
                if form.value(arg(c, i, n, NONE)) != P(n):
                    return False, f"{n} is not passed to the range computation"
            s, off_t = ("item", c, const(0)), ("item", c, const(1))
            t, dtype = untile(o.val[1], f, ("param", "data"))
            sc = A.atom(("leaf", ("col",), s))
            of = A.ZERO if off else A.atom(("round", A.atom(("leaf", ("col",), off_t))))
            lo, hi = grid()
            want = A.atom(("clamp", A.atom(("round", A.sub(A.mul(rows, A.inv(sc)), of))), lo, hi))
            got = form.value(t)
            if got != want:
                return False, differs(got, want)
            if form.value(o.val[2]) != A.atom(("leaf", (), s)):
                return False, "returns another scale than the one used"
            raw = A.atom(("leaf", (), off_t))
            if form.value(o.val[3]) not in ((A.ZERO,) if off else (A.atom(("round", raw)), raw)):
                return False, "returns another offset than the one used"
            return True, ""

        report(ctx, rule, f, key, go)
    stored(ctx, f, outs, lambda o: o.val[1] if o.val[0] in ("tuple", "list") else o.val)


# ------------------------------------------------------------------ gradient
def row_sum(t, form):
    """Elementwise term whose per-row sum `t` is (row-constant factors moved inside)."""
    if t[0] == "call":
        n, a, kw = A.Alg().op(t)
        if n in ("reshape", "view", "view_as", "reshape_as", "to", "contiguous", "flatten", "squeeze") and a:
            return row_sum(a[0], form)
        if n == "sum" and a:
            dim = kw.get("dim", a[1] if len(a) > 1 else None)
            if dim is not None and dim[0] == "const" and dim[2] in (1, -1) and kw.get("keepdim", FALSE) == FALSE:
                return a[0]
            if dim is not None and dim[0] in ("tuple", "list") and [x[2] for x in dim[1:]] in ([1], [-1]):
                return a[0]
        if n in ("mul", "multiply") and len(a) == 2:
            for x, y in (a, a[::-1]):
                try:
                    s = row_sum(x, form)
                except Bad:
                    continue
                return ("bin", "*", s, ("item", y, ("tuple", ("slice", NONE, NONE, NONE), NONE)))
    if t[0] == "bin" and t[1] == "*":
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            try:
                s = row_sum(x, form)
            except Bad:
                continue
            return ("bin", "*", s, ("item", y, ("tuple", ("slice", NONE, NONE, NONE), NONE)))
    raise Bad("a parameter gradient is not the sum over the elements of its tile")


def gradient(ctx, f):
    rule = "formula.quantize_by_tile_backward"
    outs = interp(ctx, f)
    form = Form(f)
    lo, hi = grid()
    for o in {(x.val, offset_none(x)): x for x in outs}.values():
        none = offset_none(o)
        R, G = A.atom(("rows", ("param", "data"))), A.atom(("rows", ("param", "output_grad")))
        s, off = P("scale", "flat", "col"), rounded_offset(o)
        x = A.sub(A.mul(R, A.inv(s)), off)
        q = A.atom(("round", x))
        below, bpol = A.literal("lt", A.sub(q, lo))
        above, apol = A.literal("gt", A.sub(q, hi))
        excl = (((below, bpol), (above, apol)),)
        if o.val[0] not in ("tuple", "list") or len(o.val) != 4:
            ctx.check(rule, f"{short(f.qual)} results", False, f.loc, "does not return the gradients of data, scale and offset")
            continue

        def want(kind):
            def w(alg):
                lt = alg._lit("lt", A.sub(q, lo))
                gt = False if lt else alg._lit("gt", A.sub(q, hi))
                if kind == "data":
                    return A.ZERO if lt or gt else G
                if kind == "scale":
                    v = A.add(lo, off) if lt else A.add(hi, off) if gt else A.sub(q, x)
                    return A.mul(v, G)
                return A.mul(s, G) if lt or gt else A.ZERO

            return w

        for i, kind in enumerate(("data", "scale", "offset")):
            if kind == "offset" and none:
                continue

            def go(i=i, kind=kind):
                t = o.val[1 + i]
                e = untile(t, f, ("param", "data"))[0] if kind == "data" else row_sum(t, form)
                def got(alg):
                    alg.leaf = form.bind(alg)
                    return alg.ev(e)

                for v, (g, w) in A.cases([got, want(kind)], strip=STRIP, exclusive=excl):
                    if g != w:
                        where = "below the grid" if v.get(below) == bpol else "above the grid" if v.get(above) == apol else "on the grid"
                        return False, f"the {kind} gradient of elements {where} is {A.show(g)} instead of {A.show(w)}"
                return True, ""

            report(ctx, rule, f, f"{kind}, {variant(o)}", go)


# ------------------------------------------------------------------ storage types
def storage(ctx):
    """Which types accept which bitwidth: constant folding over the known types."""
    rule = "storage.type"
    fs = [f for f in ctx.p.funcs.values() if f.name == "can_support_bitwidth"]
    if not fs:
        ctx.skip(rule, "storage test", "not found")
        return
    f = fs[0]
    ps = params(f)
    D, B = ("param", ps[0]), ("param", ps[1])
    outs = [o for o in run(ctx, f, merge=False, inline=inline_same_module(), distinct=False) if o.kind == "return"]

    def facts(name, b):
        isint = name in INTS

        def fold(t):
            """Boolean or number of a term, or None."""
            if t == B:
                return b
            if t[0] == "const":
                return t[2]
            if t[0] == "attr":
                if t[1] == D:
                    return {"is_complex": False, "is_floating_point": not isint, "is_signed": not name.startswith("u"), "itemsize": None}.get(t[2])
                if t[1][0] == "call" and ref_name(t[1][1]) in ("ext:torch.finfo", "ext:torch.iinfo"):
                    if isint:
                        return {"min": INTS[name][0], "max": INTS[name][1], "bits": INTS[name][2], "dtype": name}.get(t[2])
                    return name if t[2] == "dtype" else None
            if t[0] == "cmp":
                l, r = fold(t[2]), fold(t[3])
                if t[1] == "==" and D in (t[2], t[3]):
                    other = t[3] if t[2] == D else t[2]
                    return other == ("ext", f"torch.{name}") if other[0] == "ext" else None
                if t[1] == "in" and t[3][0] in ("tuple", "list", "set"):
                    if l is None:
                        return any(x == ("ext", f"torch.{name}") for x in t[3][1:]) if t[2] == D else None
                    return any(fold(x) == l for x in t[3][1:])
                if l is None or r is None:
                    return None
                return {"==": l == r, "<": l < r, "<=": l <= r, "is": l is r}.get(t[1]) if isinstance(l, str) == isinstance(r, str) else False
            if t[0] == "not":
                v = fold(t[1])
                return None if v is None else not v
            if t[0] == "un" and t[1] == "-":
                v = fold(t[2])
                return None if v is None else -v
            if t[0] == "bin":
                l, r = fold(t[2]), fold(t[3])
                if l is None or r is None or isinstance(l, str):
                    return None
                try:
                    return {"+": lambda: l + r, "-": lambda: l - r, "*": lambda: l * r, "/": lambda: l / r, "**": lambda: l**r, "//": lambda: l // r, "<<": lambda: l << int(r)}[t[1]]()
                except (KeyError, ZeroDivisionError):
                    return None
            if t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("int", "float", "abs", "bool") and len(t[2]) == 1:
                v = fold(t[2][0])
                return None if v is None else abs(v) if t[1][1] == "abs" else v
            return None

        res = set()
        for o in outs:
            vs = [(fold(c), k) for c, k in o.st.conds]
            if any(v is not None and bool(v) != k for v, k in vs):
                continue
            if any(v is None for v, k in vs):
                return None
            res.add(fold(o.val))
        return next(iter(res)) if len(res) == 1 else None

    for name in list(MANTISSA) + list(INTS):
        bad, unknown = None, False
        for b in range(1, 60):
            v = facts(name, b)
            if v is None:
                unknown = True
                continue
            if name in INTS:
                exact = INTS[name][0] <= -(2 ** (b - 1)) and 2 ** (b - 1) - 1 <= INTS[name][1]
                if bool(v) != exact:
                    bad = b
            elif v and b > MANTISSA[name] + 2 or not v and b <= MANTISSA[name] + 1:
                bad = b
        if bad is None and unknown:
            ctx.skip(rule, name, "not decided by constant folding")
            continue
        ctx.check(rule, f"{name}", bad is None, f.loc, f"a {bad} bit grid is {'accepted' if bad and name in INTS and bad > INTS[name][2] else 'judged wrongly'} for storage in {name}")


# ------------------------------------------------------------------ shape functions and wrapper
def fakes(ctx, ops):
    """Shape implementations used for tracing: same parameters and result structure as the kernel."""
    rule = "fake.result"
    for name, d in sorted(ops.items()):
        if "fake" not in d or "impl" not in d:
            continue
        f, g = d["fake"], d["impl"]
        ctx.check("fake.parameters", name, params(f)[1:] == params(g)[1:], f.loc, "takes other parameters than the kernel")
        x = ("param", params(f)[0])
        for o in {o.val: o for o in normals(run(ctx, f, inline=inline_same_module()))}.values():
            parts = list(o.val[1:]) if o.val[0] in ("tuple", "list") else [o.val]
            want = {"quantize_by_tile": 1, "dequantize_by_tile": 1, "quantize_by_tile_backward": 3, "quantize_dynamic_by_tile": 3}.get(name, len(parts))
            ok = len(parts) == want
            msg = f"returns {len(parts)} tensors"
            if ok:
                first = parts[0]
                n, a, kw = A.Alg().op(first) if first[0] == "call" else (None, [], {})
                shaped = n in ("empty_like", "zeros_like", "new_empty", "empty", "ones_like", "full_like", "rand_like") and bool(a) and (a[0] == x or is_shape(a[0], x) or (n == "new_empty" and len(a) > 1 and is_shape(a[1], x)))
                dt = kw.get("dtype")
                wants = ("param", "output_dtype") in [("param", q) for q in params(f)]
                ok = shaped and (not wants or (dt is not None and mentions(dt, ("param", "output_dtype"))))
                msg = "the result does not have the shape of the data and the requested type"
            ctx.check(rule, name, ok, f.loc, msg)
    ctx.floor(rule, 4)


def compiled(ctx, ops):
    """Wrappers around the kernels call them with the same arguments and return their result."""
    rule = "wrapper"
    decs = set()
    for d in ops.values():
        for n in d["impl"].node.decorator_list if "impl" in d else ():
            r = ctx.p.resolve_expr(d["impl"].module, n) if not isinstance(n, ast.Call) else None
            if r is not None and r[-1] in ctx.p.funcs:
                decs.add(r[-1])
    for q in sorted(decs):
        f = ctx.p.funcs[q]
        ret = normals(run(ctx, f, inline=no_inline))
        for o in ret:
            c = o.val
            while c[0] == "call" and c[2] and c[1][0] != "closure":  # functools.wraps(f)(wrapper)
                c = c[2][-1]
            if c[0] != "closure":
                ctx.skip(rule, short(q), "result is not a local function")
                continue
            fn, n = ("param", params(f)[0]), 0
            for r in normals(call_outs(ctx, c, o.st)):
                n += 1
                v = r.val
                star = v[0] == "call" and mentions(v[1], fn) and any(a[0] == "star" for a in v[2]) and any(k == "**" for k, _ in v[3])
                ctx.check(rule, f"{short(q)} path {n}", star, f.loc, "does not forward its arguments to the kernel and return its result")


def call_outs(ctx, c, st):
    i = Interp(ctx.p, inline=inline_same_module())
    df = next(iter(ctx.p.funcs.values()))
    i.entry, i.stack, i.param_types = df, [], {}
    outs = i.call(c, [("star", ("param", "args"))], [("**", ("param", "kwargs"))], st, df, df.node)
    return [Out("return" if o.kind == "value" else o.kind, o.st, o.val) for o in outs]
