"""GGUF files.  The packers, the row permutation and the reshapes around them are interpreted to terms
and unfolded to element layouts (which code and scale lands in which byte, by which formula), compared
with the block formats; extraction, naming, packing and writing are interpreted for an arbitrary
parameter or tensor."""
from __future__ import annotations

import ast
import itertools
import re

from ..layout import Layout, T, Unknown, leaves, value
from .common import *
from .g01 import FALSE, NONE, TRUE, fact, fun, meth, norm, paths, unwrap
from .h01 import dictionary, par
from .h03 import from_ctx, name_of, subs

ASSUMPTIONS = ["the gguf package writes raw tensors verbatim and llama.cpp reads Q4_0 and Q8_0 blocks as documented"]
GG = "fastforward.export.stages.gguf"
PK = f"{GG}._packing"
EXT = f"{GG}._extract"
ST = f"{GG}.gguf_export_stages"
AR = f"{GG}._arch"
NM = f"{GG}._naming"
FMT = f"{GG}.adapter.GgufQuantFormat"
ADA = f"{GG}.adapter.ArchAdapter"
TENS = f"{EXT}.ExtractedTensor"
NEED = ("_require_adapter", "_require_config", "_require_quant_format")


def check(ctx):
    formats(ctx)
    validation(ctx)
    weight_names(ctx)
    extraction(ctx)
    permutation(ctx)
    rope(ctx)
    transforms(ctx)
    naming(ctx)
    name_maps(ctx)
    blocks(ctx)
    writing(ctx)
    float_types(ctx)
    casting(ctx)
    metadata(ctx)
    vocabulary(ctx)


SPEC = {
    # name -> bits, block size, symmetric, file type, codes
    "Q4_0": (4, 32, True, 2, range(-8, 8)),
    "Q8_0": (8, 32, True, 7, range(-128, 128)),
}


def instances(ctx, cls):
    """Module-level constants that are instances of a data class: (module, name, fields as AST, loc)."""
    c = ctx.p.classes.get(cls)
    names = [st.target.id for st in c.node.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)] if c else []
    for m in ctx.p.modules.values():
        if not m.name.startswith(GG):
            continue
        for st in m.tree.body:
            v = st.value if isinstance(st, (ast.Assign, ast.AnnAssign)) else None
            if isinstance(v, ast.Call) and ctx.p.resolve_expr(m, v.func) == ("class", cls):
                tgt = st.targets[0] if isinstance(st, ast.Assign) else st.target
                got = dict(zip(names, v.args))
                got.update({k.arg: k.value for k in v.keywords if k.arg})
                yield m, getattr(tgt, "id", "?"), got, f"{m.path}:{st.lineno}"


def literal(e):
    try:
        return ast.literal_eval(e)
    except (ValueError, TypeError, AttributeError, SyntaxError):
        return None


def formats(ctx):
    rule = "block.format"
    for m, name, got, loc in instances(ctx, FMT):
        kind = literal(got.get("name"))
        if kind not in SPEC:
            ctx.skip(rule, name, f"the block format {kind} is not known")
            continue
        bits, size, sym, ft, _ = SPEC[kind]
        for k, want in (("num_bits", bits), ("block_size", size), ("symmetric", sym), ("file_type", ft)):
            v = literal(got.get(k))
            if v is None:
                ctx.skip(rule, f"{kind} {k}", "not a literal")
            else:
                ctx.check(rule, f"{kind} {k}", v == want, loc, f"{k} of {kind} is {v} instead of {want}")
        fn = ctx.p.resolve_expr(m, got["pack_fn"]) if "pack_fn" in got else None
        f = ctx.p.funcs.get(fn[1]) if fn and fn[0] == "func" else None
        if f is None:
            ctx.skip(rule, f"{kind} packing", "the packing function was not found")
            continue
        packing(ctx, kind, f)
    ctx.floor(rule, 8)


def leaf(n, *i):
    return ("leaf", n) + i


def code_tensor(name, shape, dtype):
    return T(shape, [leaf(name, *i) for i in itertools.product(*map(range, shape))], dtype)


def feasible_on(L, o):
    """Whether the conditions of a path hold for the known values (those that cannot be evaluated are ignored)."""
    for c, b in o.st.conds:
        c, b = norm(c, b)
        try:
            if c[0] == "cmp" and c[1] in ("==", "<", "<=", "in"):
                x, y = L.ev(c[2]), L.ev(c[3])
                if isinstance(x, T) or isinstance(y, T):
                    continue
                v = {"==": lambda: x == y, "<": lambda: x < y, "<=": lambda: x <= y, "in": lambda: x in y}[c[1]]()
            elif c[0] == "cmp" and c[1] == "is" and c[3] == NONE:
                v = L.ev(c[2]) is None
            else:
                v = bool(L.ev(c))
        except Unknown:
            continue
        if v != b:
            return False
    return True


def packing(ctx, kind, f):
    rule = "block.bytes"
    bits, size, _, _, rng = SPEC[kind]
    C, S = par(f, 0), par(f, 1)
    outs = normals(list(paths(ctx, f, inline=inline_pkg(GG))))
    for dtype in ("int8", "float32"):
        L = Layout({C: code_tensor("code", (2, size), dtype), S: code_tensor("scale", (2,), "float32")})
        for o in outs:
            if not feasible_on(L, o):
                continue
            con = f"{kind} {dtype} codes"
            try:
                t = L.ev(o.val)
            except Unknown as e:
                ctx.skip(rule, con, f"the layout was not recognised: {e}")
                continue
            width = 2 + size * bits // 8
            if not isinstance(t, T) or t.shape != (2, width) or t.dtype != "uint8":
                ctx.check(rule, con, False, f.loc, f"a block of {kind} takes {t.shape[-1] if isinstance(t, T) and t.shape else '?'} values of {getattr(t, 'dtype', '?')} instead of {width} bytes")
                continue
            bad = None
            for b in range(2):
                for k in range(2):
                    e = t.at((b, k))
                    if e != ("byte", k, ("to", "float16", leaf("scale", b))):
                        bad = bad or f"byte {k} of a block is not byte {k} of its scale as half float"
                for k in range(width - 2):
                    e = t.at((b, 2 + k))
                    mine = [leaf("code", b, k), leaf("code", b, k + size // 2)] if bits == 4 else [leaf("code", b, k)]
                    if not leaves(e) <= set(mine):
                        bad = bad or f"byte {2 + k} of a block holds {sorted(x[1:] for x in leaves(e))} instead of {sorted(x[1:] for x in mine)}"
                        continue
                    try:
                        for vs in itertools.product(rng, repeat=len(mine)):
                            got = value(e, dict(zip(mine, vs)))
                            want = ((vs[0] + 8) | ((vs[1] + 8) << 4)) if bits == 4 else max(-127, vs[0]) & 255
                            if got != want:
                                bad = bad or f"byte {2 + k} of a block is {got} for codes {vs} instead of {want}"
                                break
                    except Unknown as u:
                        bad = ("?", str(u))
                    if bad or b:
                        break
            if isinstance(bad, tuple):
                ctx.skip(rule, con, f"the formula was not recognised: {bad[1]}")
            else:
                ctx.check(rule, con, bad is None, f.loc, str(bad))
    ctx.floor(rule, 1)


# ------------------------------------------------------------------------------- validation
def excluded(o, assign):
    """Whether the conditions of a path exclude an assignment of truth values to terms."""
    def ev(c):
        for t, v in assign.items():
            if c == t:
                return v
        if c == TRUE or c == FALSE:
            return c == TRUE
        if c[0] in ("not",) or c[0] == "un" and c[1] == "not":
            v = ev(c[-1])
            return None if v is None else not v
        if c[0] in ("and", "or"):
            vs = [ev(x) for x in c[1:]]
            if (c[0] == "or") in vs:
                return c[0] == "or"
            return None if None in vs else c[0] == "and"
        if c[0] == "cmp" and c[1] in ("==", "is") or c[0] == "bin" and c[1] == "^":
            x, y = ev(c[2]), ev(c[3])
            return None if x is None or y is None else (x == y) == (c[0] == "cmp")
        if c[0] == "call" and c[1] == ("builtin", "bool") and len(c[2]) == 1:
            return ev(c[2][0])
        return None

    return any(ev(c) is not None and ev(c) != b for c, b in o.st.conds)


def flat_conds(o):
    for c, b in o.st.conds:
        c, b = norm(c, b)
        if c[0] == "and" and b or c[0] == "or" and not b:
            for x in c[1:]:
                yield norm(x, b)
        else:
            yield c, b


def zero_test(c, OFF):
    """Truth value of a condition that says the offset is zero everywhere, or None."""
    c, pos = norm(c, True)
    if c[0] == "call" and c[1][0] == "builtin" and c[1][1] == "bool" and len(c[2]) == 1:
        r = zero_test(c[2][0], OFF)
        return r if r in (None, "weak") else r == pos
    name, args = None, ()
    if c[0] == "call" and c[1][0] == "attr":
        name, args = c[1][2], (c[1][1],) + c[2]
    elif c[0] == "call" and (ref_name(c[1]) or "").startswith("ext:torch."):
        name, args = c[1][1].rsplit(".", 1)[-1], c[2]
    if name == "item" and args:
        r = zero_test(args[0], OFF)
        return r if r in (None, "weak") else r == pos
    if name in ("any", "all", "count_nonzero") and args:
        x, eq = args[0], None
        x, p = norm(x, True)
        if x[0] == "cmp" and x[1] == "==" and x[2] == OFF and x[3][0] == "const" and x[3][2] == 0:
            eq = p
        elif x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("ne", "eq") and x[1][1] == OFF and x[2] and x[2][0][0] == "const" and x[2][0][2] == 0:
            eq = (x[1][2] == "eq") == p
        elif x == OFF or x[0] == "call" and within_off(x, OFF) and (meth(x, "abs") == OFF or ref_name(x[1]) in ("ext:torch.abs", "builtin:abs")):
            eq = False
        if name == "all" and eq is True:
            return pos
        if name in ("any", "count_nonzero") and eq is False:
            return not pos
        if eq is not None:
            return "weak"
    if c[0] == "cmp" and c[1] in ("==", "<", "<="):
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if b[0] == "const" and b[2] == 0 and a != OFF:
                r = zero_test(a, OFF)
                if r is False:  # a is truthy when some offset is not zero
                    if c[1] == "==":
                        return pos
                    if c[1] == "<" and a == c[3]:
                        return not pos
    return None


def within_off(x, OFF):
    return any(y == OFF for y in subs(x))


def validation(ctx):
    rule = "quantizer.accepted"
    f = fun(ctx, rule, f"{EXT}._validate_quantizer")
    if f is None:
        return
    Q, F = par(f, 0), par(f, 1)
    G = ("attr", Q, "granularity")
    OFF = ("attr", Q, "offset")
    BS = ("attr", F, "block_size")
    n = 0
    for o in paths(ctx, f, inline=inline_pkg(GG)):
        if o.kind != "return":
            ctx.check(rule, "error", "ExportError" in fmt(o.val), f.loc, f"an unsuitable quantizer fails with {fmt(o.val)[:60]}")
            continue
        n += 1
        cs = list(flat_conds(o))

        def eq(a, b):
            return any(v and c[0] == "cmp" and c[1] == "==" and {c[2], c[3]} == {a, b} for c, v in cs)

        ctx.check(rule, "bits", eq(("attr", Q, "num_bits"), ("attr", F, "num_bits")), f.loc, "a quantizer of another number of bits is accepted")
        ctx.check(rule, "granularity", any(v and c[0] == "isinstance" and c[1] == G and c[2][0] == "class" and c[2][1].endswith(".PerBlock") for c, v in cs), f.loc, "a quantizer whose granularity is not per block is accepted")
        fields = {a: ("attr", G, a) for a in ("block_dims", "block_sizes", "per_channel_dims")}
        for what, dims, szs, chans in (("block dims", (0,), (32,), (0,)), ("dims", (0,), (32,), (1,)), ("channel dims", (1,), (32,), ()), ("two block dims", (0, 1), (32, 32), ()), ("larger blocks", (1,), (64,), (0,)), ("smaller blocks", (1,), (16,), (0,)), ("the format's blocks", (1,), (32,), (0,))):
            env = {fields["block_dims"]: dims, fields["block_sizes"]: szs, fields["per_channel_dims"]: chans, BS: 32}
            out, unknown = False, False
            for c, v in o.st.conds:
                c, v = norm(c, v)
                if not any(y in env for y in subs(c)):
                    continue
                try:
                    out = out or bool(text(c, env)) != v
                except Unknown:
                    unknown = True
            if what.startswith("the"):
                continue
            if not out and unknown:
                ctx.skip(rule, what, "the comparison was not recognised")
            else:
                ctx.check(rule, what, out, f.loc, f"blocks of {szs} along dimension {dims} with channels {chans} are accepted")
        SQ, SF = ("attr", Q, "symmetric"), ("attr", F, "symmetric")
        for q, s in ((True, False), (False, True)):
            ctx.check(rule, f"symmetric {q}/{s}", excluded(o, {SQ: q, SF: s}), f.loc, f"a {'symmetric' if q else 'asymmetric'} quantizer is accepted for a format that is {'symmetric' if s else 'asymmetric'}")
        if not excluded(o, {SF: True, SQ: True}):
            if any(v and c == ("cmp", "is", OFF, NONE) for c, v in cs):
                ctx.check(rule, "offset", True, f.loc, "")
                continue
            tests = [(zero_test(c, OFF), v) for c, v in cs if within_off(c, OFF) and c != ("cmp", "is", OFF, NONE)]
            if any(r is None for r, _ in tests):
                ctx.skip(rule, "offset", "the test of the offset was not recognised")
            else:
                ctx.check(rule, "offset", any(r is v for r, v in tests), f.loc, "a quantizer with an offset is accepted although the format stores none")
    ctx.floor(rule, 8)


# ------------------------------------------------------------------------------- strings
def text(t, env):
    """Value of a string term for known strings."""
    if t in env:
        return env[t]
    k = t[0]
    if k == "const":
        return t[2]
    if k == "fstr":
        return "".join(str(text(x[1] if x[0] == "fval" else x, env)) for x in t[1:])
    if k == "bin" and t[1] in ("+", "%", "|", "&", "-", "//", "*"):
        a, b = text(t[2], env), text(t[3], env)
        try:
            return {"+": lambda: a + b, "%": lambda: a % b, "|": lambda: a | b, "&": lambda: a & b, "-": lambda: a - b, "//": lambda: a // b, "*": lambda: a * b}[t[1]]()
        except (TypeError, ValueError, ZeroDivisionError):
            raise Unknown("operation") from None
    if k in ("tuple", "list", "set"):
        return {"tuple": tuple, "list": list, "set": set}[k](text(x, env) for x in t[1:])
    if k in ("and", "or"):
        r = None
        for x in t[1:]:
            r = text(x, env)
            if bool(r) == (k == "or"):
                break
        return r
    if k == "call" and t[1][0] == "builtin" and t[1][1] in ("set", "tuple", "list", "sorted", "frozenset", "bool", "max", "min", "any", "all") and len(t[2]) == 1 and not t[3]:
        import builtins
        try:
            return getattr(builtins, t[1][1])(text(t[2][0], env))
        except (TypeError, ValueError):
            raise Unknown("operation") from None
    if k == "slice":
        return slice(*(text(x, env) for x in t[1:]))
    if k == "item":
        try:
            return text(t[1], env)[text(t[2], env)]
        except (IndexError, TypeError, KeyError):
            raise Unknown("item") from None
    if k == "un" and t[1] == "-":
        return -text(t[2], env)
    if k == "not" or k == "un" and t[1] == "not":
        return not text(t[-1], env)
    if k == "nonempty":
        return bool(text(t[1], env))
    if k == "cmp":
        x, y = text(t[2], env), text(t[3], env)
        return {"==": lambda: x == y, "in": lambda: x in y, "<": lambda: x < y, "<=": lambda: x <= y, "is": lambda: x is y}[t[1]]()
    if k == "call" and t[1][0] == "attr":
        r = text(t[1][1], env)
        args = [text(x, env) for x in t[2]]
        kw = {n: text(v, env) for n, v in t[3]}
        if isinstance(r, str) and t[1][2] in ("rsplit", "split", "rpartition", "partition", "removesuffix", "removeprefix", "replace", "endswith", "startswith", "join", "format", "find", "rfind", "strip", "rstrip", "lstrip", "count", "index", "rindex"):
            try:
                return getattr(r, t[1][2])(*args, **kw)
            except (ValueError, TypeError, IndexError):
                raise Unknown("string") from None
    if k == "call" and t[1] == ("builtin", "len") and len(t[2]) == 1:
        return len(text(t[2][0], env))
    if k == "call" and t[1] == ("builtin", "str") and len(t[2]) == 1:
        return str(text(t[2][0], env))
    raise Unknown(str(k))


def weight_names(ctx):
    rule = "weight.name"
    f = fun(ctx, rule, f"{EXT}._build_quantizer_map")
    if f is None:
        return
    cases = [("a.b.weight_quantizer", "a.b.weight"), ("weight_quantizer", "weight"), ("weight_quantizer.weight_quantizer", "weight_quantizer.weight"), ("x_quantizer.l.weight_quantizer", "x_quantizer.l.weight")]
    outs = list(paths(ctx, f, inline=inline_pkg(GG), loop_iters=(1,)))
    for full, want in cases:
        kept = None
        for o in normals(outs):
            loops = [e for e in o.st.events if e.kind == "loop"]
            it = loops[0].obj if loops else (o.val[3][0][0] if o.val[0] == "comp" else None)
            if it is None:
                continue
            el = ("elem", unwrap(it))
            mod = ("attr", el, "module")
            env = {("attr", el, "full_name"): full}
            ok = True
            for c, b in o.st.conds:
                c, b = norm(c, b)
                try:
                    ok = ok and bool(text(c, env)) == b
                except Unknown:
                    if c[0] == "isinstance" and c[1] == mod:
                        ok = ok and b
                    elif c == ("attr", mod, "has_uninitialized_params"):
                        ok = ok and not b
            if not ok:
                continue
            put = [(e.args[0], e.value) for e in o.st.events if e.kind == "setitem" and e.obj == o.val]
            if o.val[0] == "comp" and o.val[1] == "dict":
                put = [(o.val[2][1], o.val[2][2])]
            ctx.check(rule, f"{full} kept", bool(put), f.loc, "an initialized weight quantizer is left out")
            for k, v in put:
                try:
                    got = text(k, env)
                except Unknown:
                    ctx.skip(rule, full, f"the name {fmt(k)[:60]} was not recognised")
                    continue
                kept = got
                ctx.check(rule, full, got == want, f.loc, f"the quantizer {full} is filed under {got} instead of {want}")
                ctx.check(rule, f"{full} quantizer", v == mod, f.loc, f"the name of a weight is given {fmt(v)[:60]} instead of its quantizer")
        if kept is None:
            ctx.skip(rule, full, "no name was found")
    for o in normals(outs):
        for e in o.st.events:
            if e.kind == "call" and name_of(e) == "find_quantizers" and len(e.args) > 1:
                ctx.check("weight.query", "tag", e.args[1] == const("**/[quantizer:parameter/weight]"), e.loc, f"weight quantizers are looked up with {fmt(e.args[1])[:60]}")
    for o in normals(outs):
        if o.val[0] == "comp":
            continue
        for e in [e for e in o.st.events if e.kind == "loop"]:
            mod = ("attr", ("elem", unwrap(e.obj)), "module")
            if any(x.kind == "setitem" and x.obj == o.val for x in o.st.events):
                continue
            why = any(c[0] == "isinstance" and c[1] == mod and not b or c == ("attr", mod, "has_uninitialized_params") and b for c, b in (norm(*x) for x in o.st.conds))
            ctx.check(rule, "left out", why, f.loc, "a weight quantizer is left out that is a linear quantizer with parameters")
    ctx.floor(rule, 8)


# ------------------------------------------------------------------------------- extraction
KEEPVAL = {"detach", "cpu", "contiguous", "clone", "float", "data"}


def bare(t, also=()):
    """A tensor without the steps that keep its values (in the precision of the export)."""
    while True:
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in KEEPVAL | set(also):
            t = t[1][1]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] == "to" and all(x[0] in ("ext", "const") and ("float32" in str(x[1:]) or "cpu" in str(x[1:])) for x in t[2]) and t[2]:
            t = t[1][1]
        elif t[0] == "attr" and t[2] == "data":
            t = t[1]
        else:
            return t


def built(o, t):
    """Fields of an extracted tensor, following copies with replaced fields; (base, fields)."""
    if t[0] == "call" and t[1] == ("class", TENS):
        names = ["hf_name", "kind", "rows", "cols", "int_codes", "scales", "float_data", "gguf_name"]
        d = dict(zip(names, t[2]))
        d.update(dict(t[3]))
        return None, d
    if t[0] == "call" and ref_name(t[1]) in ("ext:dataclasses.replace", "ext:copy.replace") and t[2]:
        base, d = built(o, t[2][0])
        return base, {**d, **dict(t[3])}
    return t, {}


def extraction(ctx):
    rule = "tensor.extract"
    f = fun(ctx, rule, f"{EXT}.extract_module_tensors")
    if f is None:
        return
    deny = ("_build_quantizer_map", "_validate_quantizer")
    M, ADP, CFG, F = ("param", "model"), ("param", "adapter"), ("param", "config"), ("param", "quant_format")
    outs = list(paths(ctx, f, inline=inline_pkg(GG, deny=deny), loop_iters=(1, 2)))
    seen = set()
    for o, second in [(o, k) for o in normals(outs) for k in (False, True)]:
        loops = [e for e in o.st.events if e.kind == "loop" and any(meth(x, "named_parameters") is not None for x in subs(e.obj))]
        if not loops:
            if not any(e.kind == "call" and e.name == "method:.named_parameters" for e in o.st.events):
                ctx.skip(rule, "loop", "no loop over the parameters was found")
            continue
        src = unwrap(loops[0].obj)
        if meth(src, "named_parameters") is None:
            ctx.skip(rule, "loop", f"the loop runs over {fmt(src)[:80]}")
            continue
        ctx.check(rule, "model", meth(src, "named_parameters") == M, loops[0].loc, f"the parameters of {fmt(src)[:60]} are exported")
        rec = arg(src, 1, "recurse")
        ctx.check(rule, "recurse", rec in (None, TRUE), loops[0].loc, "parameters of nested modules are not exported")
        el = ("elem", src, const(1)) if second else ("elem", src)
        N, P = ("item", el, const(0)), ("item", el, const(1))
        if second and not any(N in subs(x) for e in o.st.events for x in (e.args, (e.value,)) if isinstance(x, tuple) and x and isinstance(x[0], tuple)):
            continue
        adds = [e for e in o.st.events if e.kind == "call" and e.name == "method:.append" and e.obj == o.val and any(x in (N, P) for x in subs(e.args))]
        cs = {norm(c, b) for c, b in o.st.conds}

        def called(attr, args):
            return ("call", ("attr", ADP, attr), args, ())

        unmapped = any(b and c == ("cmp", "is", called("name_map", (N,)), NONE) for c, b in cs)
        lazy = any(b and c[0] == "isinstance" and c[1] == P and "Uninitialized" in fmt(c[2]) for c, b in cs)
        tied = any(b and c[0] == "call" and c[1] == ("attr", ADP, "is_tied") and c[2][:1] == (N,) for c, b in cs)
        for e in o.st.events:
            if e.kind == "call" and e.name == "method:.is_tied":
                ctx.check(rule, "tied", evarg(e, 0, "hf_name") in (("item", ("elem", src), const(0)), ("item", ("elem", src, const(1)), const(0))) and evarg(e, 1, "config") == CFG, e.loc, "whether a parameter is tied is asked for another one")
        if any(not b and c[0] == "cmp" and c[1] == "==" and any(x[0] == "bin" and x[1] == "%" for x in c[2:]) for c, b in cs):
            continue
        if not adds:
            ctx.check(rule, "dropped", unmapped or lazy or tied, f.loc, f"a parameter with a name in the file is dropped when {'; '.join(('' if b else 'not ') + fmt(c)[:50] for c, b in cs)[:160]}")
            continue
        ctx.check(rule, "once", len(adds) == 1 and not (unmapped or tied), adds[0].loc, "a parameter is exported twice, or although it is tied or has no name")
        base, d = built(o, adds[0].args[0])
        if base is not None or not d:
            ctx.skip(rule, "tensor", f"{fmt(adds[0].args[0])[:60]} was not recognised")
            continue
        ctx.check(rule, "name", d.get("hf_name") == N, adds[0].loc, f"a tensor is named {fmt(d.get('hf_name', NONE))[:60]}")
        kind = d.get("kind", NONE)
        maps = [e for e in o.st.events if e.kind == "call" and name_of(e) == "_build_quantizer_map"]
        look = [t for c, _ in o.st.conds for t in subs(c) if meth(t, "get") is not None and t[2][:1] == (N,) or t[0] == "item" and t[2] == N and any(t[1] == e.value for e in maps)]
        has = None
        for c, b in cs:
            if c[0] == "cmp" and c[1] == "is" and c[3] == NONE and c[2] in look:
                has = not b
            elif c[0] == "cmp" and c[1] == "in" and c[2] == N and any(c[3] == e.value for e in maps):
                has = b
            elif c in look:
                has = b
        if has is None:
            ctx.skip(rule, "quantizer", "the look-up of the quantizer was not recognised")
            continue
        for e in maps:
            ctx.check(rule, "quantizers", evarg(e, 0, "model") == M, e.loc, "the quantizers of another model are used")
        seen.add(has)
        if not has:
            ctx.check(rule, "kind", kind == const("float"), adds[0].loc, f"a parameter without quantizer is exported as {fmt(kind)[:40]}")
            fd = d.get("float_data", NONE)
            ctx.check(rule, "float data", bare(fd) == P, adds[0].loc, f"a float tensor holds {fmt(fd)[:80]}")
            r = d.get("rows", NONE)
            ctx.check(rule, "float rows", r[0] == "item" and r[2] == const(0) and r[1][0] == "attr" and r[1][2] == "shape" and bare(r[1][1]) == P or r[0] == "call" and r[1][0] == "attr" and r[1][2] == "size" and r[2] == (const(0),) and bare(r[1][1]) == P or r[0] == "call" and r[1] == ("builtin", "len") and bare(r[2][0]) == P, adds[0].loc, f"the rows of a float tensor are {fmt(r)[:60]}")
            continue
        ctx.check(rule, "kind", kind == const("quantized"), adds[0].loc, f"a quantized parameter is exported as {fmt(kind)[:40]}")
        codes = bare(d.get("int_codes", NONE), ("reshape", "view", "to", "int", "char"))
        q = None
        if codes[0] == "call" and codes[1][0] in ("attr", "bound") and (meth(codes, "int_repr") is not None):
            q = meth(codes, "int_repr")
        elif codes[0] == "attr" and codes[2] in ("raw_data", "_raw_data"):
            q = codes[1]
        if q is None:
            ctx.check(rule, "codes", codes[0] != "attr" and not (codes[0] == "call" and codes[1] in look), adds[0].loc, f"the codes are {fmt(codes)[:80]} instead of the integer representation")
            if codes[0] == "call" and meth(codes, "dequantize") is not None:
                ctx.check(rule, "codes", False, adds[0].loc, "the codes are the dequantized values")
            elif codes[0] == "call":
                ctx.skip(rule, "codes", f"the codes {fmt(codes)[:60]} were not recognised")
            continue
        quant = q[1] if q[0] == "call" else NONE
        if quant[0] == "attr" and quant[2] in ("__call__", "quantize", "forward"):
            quant = quant[1]
        ctx.check(rule, "codes", q[0] == "call" and quant in look, adds[0].loc, f"the codes are made by {fmt(quant)[:60]} instead of the quantizer of the parameter")
        ctx.check(rule, "codes of", q[0] == "call" and bool(q[2]) and bare(q[2][0]) == P, adds[0].loc, f"the codes are those of {fmt(q[2][0])[:60] if q[0] == 'call' and q[2] else '?'} instead of the parameter")
        sc = bare(d.get("scales", NONE), ("reshape", "view"))
        ctx.check(rule, "scales", sc[0] == "attr" and sc[2] == "scale" and sc[1] in look, adds[0].loc, f"the scales are {fmt(sc)[:80]} instead of those of the quantizer of the parameter")
        for k, i in (("rows", 0), ("cols", 1)):
            r = d.get(k, NONE)
            ctx.check(rule, k, r[0] == "item" and r[2] == const(i) and r[1][0] == "attr" and r[1][2] == "shape" and bare(r[1][1]) == P or r[0] == "call" and r[1][0] == "attr" and r[1][2] == "size" and r[2] == (const(i),) and bare(r[1][1]) == P, adds[0].loc, f"{k} of a quantized tensor are {fmt(r)[:60]}")
        val = [k for k, e in enumerate(o.st.events) if e.kind == "call" and name_of(e) == "_validate_quantizer" and evarg(e, 0, "quantizer") in look]
        ok = bool(val) and val[0] < o.st.events.index(adds[0])
        ctx.check(rule, "validated", ok, adds[0].loc, "a quantizer is exported without being validated")
        if ok:
            e = o.st.events[val[0]]
            ctx.check(rule, "validated quantizer", evarg(e, 1, "quant_format") == F, e.loc, "another quantizer or format is validated")
    if seen != {True, False}:
        ctx.skip(rule, "kinds", "not both quantized and float parameters were found")
    ctx.floor(rule, 12)


# ------------------------------------------------------------------------------- rope
def permutation(ctx):
    rule = "rope.rows"
    f = fun(ctx, rule, f"{AR}._rope_permute_row_index")
    if f is None:
        return
    R, H = par(f, 0), par(f, 1)
    outs = list(paths(ctx, f, inline=inline_pkg(GG)))
    for rows, heads in ((8, 2), (12, 2), (12, 3), (6, 1), (24, 4), (4, 1), (16, 1)):
        L = Layout({R: rows, H: heads})
        half = rows // heads // 2
        want = [h * 2 * half + k * half + j for h in range(heads) for j in range(half) for k in range(2)]
        con = f"{rows} rows {heads} heads"
        for o in outs:
            if not feasible_on(L, o):
                continue
            if o.kind != "return":
                ctx.check(rule, con, False, f.loc, f"{rows} rows of {heads} heads are refused")
                continue
            try:
                t = L.ev(o.val)
            except Unknown as e:
                ctx.skip(rule, con, f"the permutation was not recognised: {e}")
                continue
            ctx.check(rule, con, isinstance(t, T) and t.shape == (rows,) and t.data == want, f.loc, f"{rows} rows of {heads} heads are reordered to {getattr(t, 'data', t)} instead of {want}")
    for rows, heads in ((6, 2), (9, 3), (10, 4)):
        L = Layout({R: rows, H: heads})
        n = [o for o in outs if o.kind == "return" and feasible_on(L, o)]
        ctx.check(rule, f"{rows} rows {heads} heads refused", not n, f.loc, f"{rows} rows of {heads} heads are accepted")
    ctx.floor(rule, 8)


def pattern_of(ctx, t):
    """Regular expression a matching call uses, and the subject and method."""
    if t[0] != "call":
        return None
    if t[1][0] == "attr" and t[1][2] in ("match", "fullmatch", "search"):
        g = t[1][1]
        if g[0] == "global":
            mod, n = g[1].rsplit(".", 1)
            m = ctx.p.modules.get(mod)
            e = m.env.get(n) if m else None
            if e and e[0] == "expr" and isinstance(e[1], ast.Call) and e[1].args and isinstance(e[1].args[0], ast.Constant):
                return e[1].args[0].value, t[2][0], t[1][2]
        if g[0] == "call" and ref_name(g[1]) == "ext:re.compile" and g[2] and g[2][0][0] == "const":
            return g[2][0][2], t[2][0], t[1][2]
    n = ref_name(t[1])
    if n in ("ext:re.match", "ext:re.fullmatch", "ext:re.search") and len(t[2]) >= 2 and t[2][0][0] == "const":
        return t[2][0][2], t[2][1], n.rsplit(".", 1)[1]
    return None


def rope(ctx):
    rule = "rope.tensor"
    f = fun(ctx, rule, f"{AR}.llama_rope_permute")
    if f is None:
        return
    X, CFG, F = par(f, 0), par(f, 1), par(f, 2)
    KIND = ("attr", X, "kind")
    HF = ("attr", X, "hf_name")
    heads = ("attr", CFG, "num_attention_heads")
    kv = ("call", ("builtin", "getattr"), (CFG, const("num_key_value_heads"), heads), ())
    outs = list(paths(ctx, f, inline=inline_pkg(GG, deny=("_rope_permute_row_index",))))
    names = {"q": "model.layers.11.self_attn.q_proj.weight", "k": "model.layers.0.self_attn.k_proj.weight", "v": "model.layers.1.self_attn.v_proj.weight", "norm": "model.layers.1.self_attn.q_norm.weight", "mlp": "model.layers.1.mlp.up_proj.weight", "vision": "vision.layers.1.self_attn.q_proj.weight", "lora": "model.layers.1.self_attn.q_proj.weight.lora"}
    bs, rows, cols = 4, 4, 8
    for what, name in names.items():
        L = Layout({KIND: "quantized", HF: name, ("attr", X, "rows"): rows, ("attr", X, "cols"): cols, ("attr", F, "block_size"): bs, ("attr", X, "int_codes"): code_tensor("code", (rows, cols), "int8"), ("attr", X, "scales"): code_tensor("scale", (rows, cols // bs), "float32")})
        hits = 0
        for o in outs:
            if not feasible_on(L, o) or o.kind != "return":
                continue
            ok, unknown = True, False
            for c, b in o.st.conds:
                c, b = norm(c, b)
                if c[0] == "cmp" and c[1] == "is" and c[3] == NONE:
                    c, b = c[2], not b
                pt = pattern_of(ctx, c)
                if pt is not None and pt[1] == HF:
                    ok = ok and bool(getattr(re, pt[2])(pt[0], name)) == b
                elif c[0] == "call" and any(x == HF for x in subs(c)):
                    unknown = True
            if not ok:
                continue
            if unknown:
                ctx.skip(rule, what, "the selection of tensors was not recognised")
                continue
            hits += 1
            idx = [e for e in o.st.events if e.kind == "call" and name_of(e) == "_rope_permute_row_index"]
            if what not in ("q", "k"):
                ctx.check(rule, what, o.val == X and not idx, f.loc, f"the tensor {name} is changed")
                continue
            if len(idx) != 1:
                ctx.check(rule, what, False, f.loc, f"the rows of {name} are not permuted")
                continue
            e = idx[0]
            n = evarg(e, 1, "n_head")
            ctx.check(rule, f"{what} rows", evarg(e, 0, "n_rows") == ("attr", X, "rows"), e.loc, "another number of rows is permuted")
            if what == "q":
                ctx.check(rule, "q heads", n == heads, e.loc, f"the rows of a query projection are permuted for {fmt(n)[:60]} heads")
            else:
                has = fact(o, lambda c: c[0] == "call" and c[1] == ("builtin", "hasattr") and c[2][:2] == (CFG, const("num_key_value_heads")))
                if n[0] == "call" and n[1] == ("builtin", "getattr") or n[0] == "attr":
                    good = n == kv or n == heads and has is False or n == ("attr", CFG, "num_key_value_heads") and has is True
                    default = n == heads and fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and "num_key_value_heads" in fmt(c[2])) is True
                    ctx.check(rule, "k heads", good or default, e.loc, f"the rows of a key projection are permuted for {fmt(n)[:80]} heads")
                else:
                    ctx.skip(rule, "k heads", f"{fmt(n)[:60]} was not recognised")
            base, d = built(o, o.val)
            if base != X:
                ctx.skip(rule, f"{what} result", f"{fmt(o.val)[:60]} was not recognised")
                continue
            ctx.check(rule, f"{what} fields", set(d) <= {"int_codes", "scales"}, f.loc, f"the permutation changes {sorted(set(d) - {'int_codes', 'scales'})}")
            perm = [2, 0, 3, 1]
            L2 = Layout({**L.known, e.value: T((rows,), perm, "int64")})
            for k, width in (("int_codes", cols), ("scales", cols // bs)):
                if k not in d:
                    ctx.check(rule, f"{what} {k}", False, f.loc, f"the {k} of a permuted tensor stay in the old order")
                    continue
                try:
                    t = L2.ev(d[k])
                except Unknown as u:
                    ctx.skip(rule, f"{what} {k}", f"the permuted {k} were not recognised: {u}")
                    continue
                src = L.known[("attr", X, k)]
                want = [src.at((r, j)) for r in perm for j in range(width)]
                ctx.check(rule, f"{what} {k}", isinstance(t, T) and t.data == want, f.loc, f"row r of the permuted {k} is not row index[r]")
        if not hits:
            ctx.check(rule, f"{what} path", what not in ("q", "k"), f.loc, f"no path handles {name}")
    for o in normals(outs):
        if fact(o, lambda c: c == ("cmp", "==", KIND, const("quantized"))) is False:
            ctx.check(rule, "float", o.val == X, f.loc, "a float tensor is changed")
    ctx.floor(rule, 10)


# ------------------------------------------------------------------------------- stages
def need(t, C, key):
    """Whether a term is the entry of the context, read directly or through its checking helper."""
    helper = {"arch_adapter": "_require_adapter", "model_config": "_require_config", "quant_format": "_require_quant_format"}[key]
    while t[0] == "call" and ref_name(t[1]) == "ext:typing.cast" and len(t[2]) == 2:
        t = t[2][1]
    return from_ctx(t, C, key) or t[0] == "call" and t[1][0] == "func" and t[1][1].endswith("." + helper) and t[2] == (C,)


def stage(ctx, rule, name):
    f = fun(ctx, rule, f"{ST}.{name}")
    if f is None:
        return None, None, None
    return f, ("item", par(f, 0), const(0)), par(f, 2)


def transforms(ctx):
    rule = "stage.transforms"
    f, TS, C = stage(ctx, rule, "stage_apply_target_transforms")
    if f is None:
        return
    for o in normals(paths(ctx, f, inline=inline_same_module(deny=NEED), loop_iters=(1, 2))):
        loops = [e for e in o.st.events if e.kind == "loop" and unwrap(e.obj) == TS]
        adds = [e for e in o.st.events if e.kind == "call" and e.name == "method:.append" and e.obj == o.val]
        if not loops or o.val[0] != "fresh":
            ctx.skip(rule, "result", "the loop over the tensors was not recognised")
            continue
        el = [("elem", TS), ("elem", TS, const(1))]
        ctx.check(rule, "each once", 1 <= len(adds) <= 2, f.loc, f"{len(adds)} tensors are kept")
        for k, e in enumerate(adds[:2]):
            t, chain = e.args[0], []
            while t[0] == "call" and t[1][0] == "elem":
                chain.append(t[1])
                ok = len(t[2]) == 3 and need(t[2][1], C, "model_config") and need(t[2][2], C, "quant_format")
                ctx.check(rule, "arguments", ok, f.loc, "a transform is not given tensor, config and format")
                if not t[2]:
                    break
                t = t[2][0]
            ctx.check(rule, "tensor", t == el[k], f.loc, f"the transforms are applied to {fmt(t)[:60]} instead of the tensor")
            chain.reverse()
            src = unwrap(chain[0][1]) if chain else None
            if chain and src[0] == "call" and src[1][0] == "builtin" and src[1][1] in ("reversed", "sorted"):
                ctx.check(rule, "order", False, f.loc, "the transforms are not applied in their order")
                continue
            if chain:
                ctx.check(rule, "source", src[0] == "attr" and src[2] == "transforms" and need(src[1], C, "arch_adapter"), f.loc, f"the transforms are {fmt(src)[:60]}")
            want = [("elem", chain[0][1]), ("elem", chain[0][1], const(1))][: len(chain)] if chain else []
            ctx.check(rule, "order", chain == want, f.loc, "a transform is applied twice or out of order")
            ran = [x for x in o.st.events if x.kind == "loop" and unwrap(x.obj) != TS]
            if ran and not chain:
                ctx.check(rule, "applied", False, f.loc, "a transform is not applied")
        for e in o.st.events:
            if e.kind == "loop" and part(e.obj):
                ctx.check(rule, "all", False, e.loc, f"only {fmt(e.obj)[:60]} is looked at")
            elif e.kind == "loop" and unwrap(e.obj)[0] == "call" and unwrap(e.obj)[1] in (("builtin", "reversed"), ("builtin", "sorted")):
                ctx.check(rule, "order", False, e.loc, "the transforms or tensors are not taken in their order")
    ctx.floor(rule, 4)


def part(it):
    it = unwrap(it)
    return it[0] == "item" and it[2][0] == "slice" and any(b[0] == "const" and b not in (NONE, const(0)) for b in it[2][1:3])


def naming(ctx):
    rule = "stage.names"
    f, TS, C = stage(ctx, rule, "stage_map_tensor_names")
    if f is None:
        return
    guarded, found = True, 0
    for o in normals(paths(ctx, f, inline=inline_same_module(deny=NEED), loop_iters=(1, 2))):
        if o.val[0] != "fresh":
            ctx.skip(rule, "result", "the list was not recognised")
            continue
        adds = [e for e in o.st.events if e.kind == "call" and e.name == "method:.append" and e.obj == o.val]
        els = [("elem", TS), ("elem", TS, const(1))]
        maps = {}
        for e in o.st.events:
            if e.kind == "call" and e.name == "method:.name_map":
                for k, x in enumerate(els):
                    if e.args[:1] == (("attr", x, "hf_name"),):
                        maps[k] = e.value
                        ctx.check(rule, "map", need(e.obj, C, "arch_adapter"), e.loc, "another adapter names the tensors")
        for k, x in enumerate(els):
            mine = [e for e in adds if built(o, e.args[0])[0] == x or e.args[0] == x]
            if k not in maps:
                continue
            none = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[2] == maps[k] and c[3] == NONE)
            truthy = fact(o, lambda c: c == maps[k])
            if not mine:
                ctx.check(rule, "dropped", none is True or truthy is False, f.loc, "a tensor that has a name is dropped")
                continue
            ctx.check(rule, "once", len(mine) == 1 and none is not True, mine[0].loc, "a tensor is kept twice, or without a name")
            base, d = built(o, mine[0].args[0])
            if not d:
                d = {e.name: e.value for e in o.st.events if e.kind == "setattr" and e.obj == x}
            ctx.check(rule, "name", d.get("gguf_name") == maps[k], mine[0].loc, f"a tensor is named {fmt(d.get('gguf_name', NONE))[:60]}")
            ctx.check(rule, "content", set(d) <= {"gguf_name"}, mine[0].loc, f"naming changes {sorted(set(d) - {'gguf_name'})}")
        if len(adds) == 2 and len(maps) == 2:
            found += 1
            about = [c for c, b in (norm(*x) for x in o.st.conds) if c[0] == "cmp" and c[1] in ("in", "==", "<") and (any(y == maps[1] for y in subs(c)) or any(y == o.val for y in subs(c)))]
            put = [e for e in o.st.events if (e.kind == "setitem" and e.args[0] == maps[0] or e.kind == "call" and e.name in ("method:.add", "method:.append", "method:.setdefault") and e.args[:1] == (maps[0],))]
            guarded = guarded and bool(about) and (bool(put) or any(y == maps[0] for c in about for y in subs(c)) or any(y == o.val for c in about for y in subs(c)))
    g = ctx.p.funcs.get(f"{ST}.stage_pack_gguf_blocks")
    if found and not guarded and g is not None:
        later = False
        for o in normals(paths(ctx, g, inline=inline_same_module(deny=NEED), loop_iters=(1,))):
            later = later or any(c[0] == "cmp" and c[1] == "in" and c[2][0] == "attr" and c[2][2] == "gguf_name" and not b for c, b in (norm(*x) for x in o.st.conds))
        guarded = later
    if found:
        ctx.check(rule, "collision", guarded, f.loc, "two parameters that map to the same name are both accepted, and one of them is lost")
    else:
        ctx.skip(rule, "collision", "no path with two tensors was found")
    ctx.floor(rule, 5)


def blocks(ctx):
    rule = "stage.blocks"
    f, TS, C = stage(ctx, rule, "stage_pack_gguf_blocks")
    if f is None:
        return
    X = ("elem", TS)
    KIND, NAME = ("attr", X, "kind"), ("attr", X, "gguf_name")
    kinds = set()
    for o in normals(paths(ctx, f, inline=inline_same_module(deny=NEED), loop_iters=(1,))):
        q = fact(o, lambda c: c == ("cmp", "==", KIND, const("quantized")))
        if q is None:
            k = fact(o, lambda c: c == ("cmp", "==", KIND, const("float")))
            q = None if k is None else not k
        if q is None:
            ctx.skip(rule, "kind", "the kind of tensor was not recognised")
            continue
        kinds.add(q)
        res = dictionary(o, o.val)
        sets = [e for e in o.st.events if e.kind == "setitem" and e.args[0] == NAME]
        if res is None or const("quantized") not in res or const("float") not in res:
            ctx.skip(rule, "result", f"{fmt(o.val)[:60]} was not recognised")
            continue
        ctx.check(rule, "stored", len(sets) == 1, f.loc, "a tensor is not stored once under its name")
        if len(sets) != 1:
            continue
        e = sets[0]
        ctx.check(rule, "table", e.obj == res[const("quantized" if q else "float")], e.loc, f"a {'quantized' if q else 'float'} tensor is stored among the others")
        if not q:
            ctx.check(rule, "float", bare(e.value) == ("attr", X, "float_data"), e.loc, f"a float tensor is stored as {fmt(e.value)[:60]}")
            continue
        packs = [x for x in o.st.events if x.kind == "call" and x.name == "method:.pack_fn"]
        if len(packs) != 1 or not need(packs[0].obj, C, "quant_format"):
            ctx.skip(rule, "packing", "the call of the packing function was not recognised")
            continue
        bs = ("attr", packs[0].obj, "block_size")
        L = Layout({bs: 4, ("attr", X, "rows"): 2, ("attr", X, "cols"): 8, ("attr", X, "int_codes"): code_tensor("code", (2, 8), "int8"), ("attr", X, "scales"): code_tensor("scale", (2, 2), "float32"), packs[0].value: code_tensor("byte", (4, 3), "uint8")})
        for k, (key, pn, shape) in enumerate((("int_codes", "int_codes", (4, 4)), ("scales", "scales", (4,)))):
            a = evarg(packs[0], k, pn)
            try:
                t = L.ev(a)
            except Unknown as u:
                ctx.skip(rule, key, f"{fmt(a)[:60]} was not recognised: {u}")
                continue
            ctx.check(rule, key, isinstance(t, T) and t.shape == shape and t.data == L.known[("attr", X, key)].data, packs[0].loc, f"the packing function is given {key} of shape {getattr(t, 'shape', '?')} (or in another order) instead of one row per block")
        try:
            t = L.ev(e.value)
            ctx.check(rule, "bytes", isinstance(t, T) and t.shape == (2, 6) and t.data == L.known[packs[0].value].data, e.loc, f"the bytes of a tensor of 2 rows are stored in shape {getattr(t, 'shape', '?')}")
        except Unknown as u:
            ctx.skip(rule, "bytes", f"{fmt(e.value)[:60]} was not recognised: {u}")
    if kinds != {True, False}:
        ctx.skip(rule, "kinds", "not both kinds of tensors were found")
    ctx.floor(rule, 5)


def enum_of(t):
    """Key with which a member of the tensor type enumeration is looked up."""
    if t[0] == "item" and fmt(t[1]).endswith("GGMLQuantizationType"):
        return t[2]
    if t[0] == "call" and t[1] == ("builtin", "getattr") and len(t[2]) >= 2 and fmt(t[2][0]).endswith("GGMLQuantizationType"):
        return t[2][1]
    return None


def writing(ctx):
    rule = "stage.write"
    f, PKD, C = stage(ctx, rule, "stage_write_gguf")
    if f is None:
        return
    deny = NEED + ("_resolve_float_type", "_cast_float")
    mode = set()
    for exc in ("explicit", "calls"):
        for o in paths(ctx, f, inline=inline_same_module(deny=deny), loop_iters=(1,), exc=exc):
            mk = [k for k, e in enumerate(o.st.events) if e.kind == "call" and name_of(e) == "GGUFWriter"]
            if not mk:
                continue
            w = o.st.events[mk[0]].value
            closed = [e for e in o.st.events if e.kind == "call" and e.obj == w and name_of(e) == "close"]
            kept = [e for e in o.st.events if e.kind == "call" and e.obj == w]
            if o.kind != "return" and any(name_of(e) == "write_tensors_to_file" for e in kept):
                continue  # closing itself may fail
            if kept or o.kind == "return":
                managed = any(e.kind == "enter" and any(x == w for x in subs(e.obj)) for e in o.st.events)
                ctx.check("stage.closed", "return" if o.kind == "return" else "error", bool(closed) or managed, f.loc, "the writer is not closed " + ("" if o.kind == "return" else "when writing fails"))
    for o in normals(paths(ctx, f, inline=inline_same_module(deny=deny), loop_iters=(1,))):
        mk = [e for e in o.st.events if e.kind == "call" and name_of(e) == "GGUFWriter"]
        if len(mk) != 1:
            ctx.skip(rule, "writer", "the writer was not recognised")
            continue
        w = mk[0].value
        arch = evarg(mk[0], 1, "arch")
        ctx.check(rule, "architecture", arch is not None and arch[0] == "attr" and arch[2] == "gguf_arch" and need(arch[1], C, "arch_adapter"), mk[0].loc, f"the architecture is {fmt(arch or NONE)[:60]}")
        path = evarg(mk[0], 0, "path") or NONE
        while path[0] == "call" and path[1] == ("builtin", "str"):
            path = path[2][0]
        ctx.check(rule, "path", path == o.val and within_key(path, C, "output_dir") and within_key(path, C, "model_name") and ".gguf" in fmt(path), mk[0].loc, f"the file is written to {fmt(path)[:80]} and {fmt(o.val)[:60]} is returned")
        order = []
        for k, e in enumerate(o.st.events):
            if e.kind != "call":
                continue
            n = name_of(e)
            if e.obj == w:
                order.append((n, k, e))
            elif n in ("write_metadata", "write_vocab"):
                order.append((n, k, e))
        names = [n for n, _, _ in order]
        want = ["write_header_to_file", "write_kv_data_to_file", "write_tensors_to_file"]
        ctx.check(rule, "order", [n for n in names if n in want] == want, f.loc, f"the parts of the file are written as {[n for n in names if n.startswith('write_')]}")
        first = next((k for n, k, _ in order if n in want), None)
        late = [n for n, k, _ in order if n not in want and n != "close" and first is not None and k > first]
        ctx.check(rule, "before header", not late, f.loc, f"{late} happens after the header is written")
        md = [e for n, _, e in order if n == "write_metadata"]
        ctx.check(rule, "metadata", len(md) == 1 and evarg(md[0], 0, "writer") == w and need(evarg(md[0], 1, "config") or NONE, C, "model_config") and need(md[0].obj or NONE, C, "arch_adapter"), f.loc, "the metadata of the architecture is not written once")
        ft = [e for n, _, e in order if n == "add_file_type"]
        ctx.check(rule, "file type", len(ft) == 1 and ft[0].args and ft[0].args[0][0] == "attr" and ft[0].args[0][2] == "file_type" and need(ft[0].args[0][1], C, "quant_format"), f.loc, "the file type is not that of the format")
        tok = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[3] == NONE and from_ctx(c[2], C, "tokenizer"))
        vocab = [e for n, _, e in order if n == "write_vocab"]
        if tok is not None:
            ctx.check(rule, "vocabulary", len(vocab) == (0 if tok else 1), f.loc, "the vocabulary is not written exactly when there is a tokenizer")
        for e in vocab:
            ctx.check(rule, "vocabulary arguments", evarg(e, 0, "writer") == w and from_ctx(evarg(e, 1, "tokenizer") or NONE, C, "tokenizer") and need(evarg(e, 2, "config") or NONE, C, "model_config") and need(evarg(e, 3, "adapter") or NONE, C, "arch_adapter"), e.loc, "the vocabulary is not written from the tokenizer, config and adapter of the export")
        loops = [e for e in o.st.events if e.kind == "loop"]
        tables = {k: ("item", PKD, const(k)) for k in ("quantized", "float")}
        for kind, D in tables.items():
            it = [e for e in loops if unwrap(e.obj) in (D, ("call", ("attr", D, "items"), (), ()), ("call", ("attr", D, "keys"), (), ()))]
            if not it:
                ctx.check(rule, f"{kind} tensors", any(D in list(subs(e.obj)) for e in loops), f.loc, f"the {kind} tensors are not written")
                if any(D in list(subs(e.obj)) for e in loops):
                    ctx.skip(rule, f"{kind} tensors", "the loop was not recognised")
                continue
            K, V = ("key", D), ("val", D)
            if unwrap(it[0].obj) == D or meth(unwrap(it[0].obj), "keys") is not None:
                K = ("elem", unwrap(it[0].obj))
                V = ("item", D, K)
            adds = [e for n, _, e in order if n == "add_tensor" and evarg(e, 0, "name") == K]
            ctx.check(rule, f"{kind} tensors", len(adds) == 1, it[0].loc, f"a {kind} tensor is not written once under its name")
            if len(adds) != 1:
                continue
            e = adds[0]
            mode.add(kind)
            data = evarg(e, 1, "tensor") or NONE
            while data[0] == "call" and data[1][0] == "attr" and data[1][2] in ("numpy", "contiguous", "detach", "cpu"):
                data = data[1][1]
            raw = evarg(e, 3, "raw_dtype")
            key = enum_of(raw) if raw is not None else None
            if raw is not None and key is None and raw[0] not in ("attr", "const"):
                ctx.skip(rule, f"{kind} type", f"{fmt(raw)[:60]} was not recognised")
            if kind == "quantized":
                ctx.check(rule, "quantized data", data == V, e.loc, f"the bytes written are {fmt(data)[:60]}")
                if key is not None or raw is None or raw[0] in ("attr", "const"):
                    ctx.check(rule, "quantized type", key is not None and key[0] == "attr" and key[2] == "name" and need(key[1], C, "quant_format"), e.loc, f"the type of the bytes is {fmt(raw or NONE)[:60]} instead of that of the format")
            else:
                ok = data[0] == "call" and ref_name(data[1]).endswith("._cast_float")
                ctx.check(rule, "float data", ok and arg(data, 0, "data") == V, e.loc, f"the data written are {fmt(data)[:60]} instead of the cast tensor")
                if ok:
                    ty = arg(data, 1, "target_type")
                    ctx.check(rule, "float type", key == ty, e.loc, f"a tensor cast to {fmt(ty or NONE)[:60]} is declared as {fmt(raw or NONE)[:60]}")
                    good = ty is not None and ty[0] == "call" and ref_name(ty[1]).endswith("._resolve_float_type")
                    if good:
                        ctx.check(rule, "float type of", arg(ty, 0, "gguf_name") == K and need(arg(ty, 1, "adapter") or NONE, C, "arch_adapter"), e.loc, "the type of another tensor is used")
                    else:
                        ctx.check(rule, "float type of", False, e.loc, f"the type of a float tensor is {fmt(ty or NONE)[:60]}")
        for e in loops:
            if part(e.obj):
                ctx.check(rule, "all", False, e.loc, f"only {fmt(e.obj)[:60]} is written")
    if mode != {"quantized", "float"}:
        ctx.skip(rule, "kinds", "not both kinds of tensors were found")
    ctx.floor(rule, 10)
    ctx.floor("stage.closed", 2)


def within_key(t, C, key):
    return any(x[0] in ("item", "call") and from_ctx(x, C, key) for x in subs(t))


def float_types(ctx):
    rule = "float.type"
    f = fun(ctx, rule, f"{ST}._resolve_float_type")
    if f is None:
        return
    N, ADP = par(f, 0), par(f, 1)
    D = ("attr", ADP, "float_type_overrides")
    for o in normals(paths(ctx, f, inline=inline_pkg(GG), loop_iters=(0, 1, 2))):
        hits, un = [], False
        for c, b in o.st.conds:
            c, b = norm(c, b)
            if c[0] == "cmp" and c[1] == "is" and c[3] == NONE:
                c, b = c[2], not b
            if c[0] == "nonempty":
                continue
            rn = ref_name(c[1]) if c[0] == "call" else ""
            if rn in ("ext:re.fullmatch", "ext:re.match", "ext:re.search") or c[0] == "call" and c[1][0] == "attr" and c[1][2] in ("fullmatch", "match", "search"):
                full = rn.endswith("fullmatch") or c[1][-1] == "fullmatch"
                ctx.check(rule, "match", full, f.loc, "a pattern applies to names of which it matches only a part")
                pat = c[2][0] if rn else c[1][1]
                if not rn and pat[0] == "call" and pat[2]:
                    pat = pat[2][0]
                sub = c[2][1] if rn else c[2][0]
                ctx.check(rule, "subject", sub == N, f.loc, f"patterns are matched against {fmt(sub)[:60]}")
                if b:
                    hits.append(pat)
            else:
                un = True
        if un:
            ctx.skip(rule, "conditions", "the choice of the type was not recognised")
            continue
        if not hits:
            ctx.check(rule, "default", o.val == ("attr", ADP, "float_type"), f.loc, f"a name without override gets {fmt(o.val)[:60]}")
        else:
            k = hits[0]
            want = [("item", D, k)]
            if k[0] == "key":
                want.append(("val",) + k[1:])
            ctx.check(rule, "first", o.val in want, f.loc, f"a name that matches gets {fmt(o.val)[:80]} instead of the type of the first pattern that matches")
    ctx.floor(rule, 3)


def table(ctx, mod, name):
    m = ctx.p.modules.get(mod)
    e = m.env.get(name) if m else None
    return (m, e[1]) if e and e[0] == "expr" else (m, None)


TYPES = {"F32": "float32", "F16": "float16", "BF16": "bfloat16", "F64": "float64"}


def casting(ctx):
    rule = "float.cast"
    f = fun(ctx, rule, f"{ST}._cast_float")
    if f is None:
        return
    D, TY = par(f, 0), par(f, 1)
    outs = list(paths(ctx, f, inline=inline_pkg(GG)))

    def known(t):
        """Value of a table, a set or a name."""
        if t[0] == "global":
            mod, n = t[1].rsplit(".", 1)
            m, e = table(ctx, mod, n)
            return eval_ast(m, e) if e is not None else None
        if t[0] == "const" and t[1] in ("frozenset", "set", "tuple"):
            return set(t[2])
        if t[0] in ("set", "tuple", "list") and all(x[0] == "const" for x in t[1:]):
            return {x[2] for x in t[1:]}
        if t[0] == "dict" and all(x[0] == "pair" and x[1][0] == "const" for x in t[1:]):
            return {x[1][2]: x[2] for x in t[1:]}
        return None

    def eval_ast(m, e):
        if isinstance(e, ast.Dict):
            return {literal(k): ctx.p.resolve_expr(m, v) for k, v in zip(e.keys, e.values)}
        if isinstance(e, (ast.Set, ast.Tuple, ast.List)):
            return {literal(x) for x in e.elts}
        if isinstance(e, ast.Call) and e.args and not e.keywords:
            return eval_ast(m, e.args[0])
        return None

    for name, want in list(TYPES.items()) + [("Q4_0", None)]:
        for o in outs:
            ok, un = True, False
            for c, b in o.st.conds:
                c, b = norm(c, b)
                if c[0] == "cmp" and c[1] == "in" and c[2] == TY and known(c[3]) is not None:
                    ok = ok and (name in known(c[3])) == b
                elif c[0] == "cmp" and c[1] == "==" and TY in c[2:] and any(x[0] == "const" for x in c[2:]):
                    ok = ok and (next(x for x in c[2:] if x[0] == "const")[2] == name) == b
                else:
                    un = True
            if not ok:
                continue
            if un:
                ctx.skip(rule, name, "the choice of the type was not recognised")
                continue
            if want is None:
                ctx.check(rule, "unknown type", o.kind != "return" and "ExportError" in fmt(o.val), f.loc, "an unknown type is accepted")
                continue
            if o.kind != "return":
                ctx.check(rule, name, False, f.loc, f"{name} is refused")
                continue
            t, viewed = o.val, False
            while t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("view", "contiguous"):
                viewed = viewed or t[1][2] == "view" and t[2] == (("ext", "torch.uint8"),)
                t = t[1][1]
            if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("to", "type") and t[1][1] == D and t[2]:
                d = t[2][0]
                if d[0] == "item" and d[2] == TY and known(d[1]) is not None:
                    d = known(d[1]).get(name, NONE)
                ctx.check(rule, name, d == ("ext", f"torch.{want}"), f.loc, f"{name} data are cast to {fmt(d)[:40]}")
                ctx.check(rule, f"{name} bytes", viewed == (name == "BF16"), f.loc, f"{name} data are {'' if viewed else 'not '}given as raw bytes")
            elif t[0] == "call" and t[1][0] == "attr" and t[1][1] == D and t[1][2] in ("float", "half", "double", "bfloat16"):
                ctx.check(rule, name, {"float": "float32", "half": "float16"}.get(t[1][2], t[1][2]).replace("double", "float64") == want, f.loc, f"{name} data are cast with {t[1][2]}")
                ctx.check(rule, f"{name} bytes", viewed == (name == "BF16"), f.loc, f"{name} data are {'' if viewed else 'not '}given as raw bytes")
            elif t == D:
                ctx.check(rule, name, False, f.loc, f"data declared as {name} are not cast")
            else:
                ctx.skip(rule, name, f"{fmt(t)[:60]} was not recognised")
    ctx.floor(rule, 5)


# ------------------------------------------------------------------------------- names
LAYER = {"input_layernorm.weight": "attn_norm.weight", "self_attn.q_proj.weight": "attn_q.weight", "self_attn.k_proj.weight": "attn_k.weight", "self_attn.v_proj.weight": "attn_v.weight", "self_attn.o_proj.weight": "attn_output.weight", "post_attention_layernorm.weight": "ffn_norm.weight", "mlp.gate_proj.weight": "ffn_gate.weight", "mlp.up_proj.weight": "ffn_up.weight", "mlp.down_proj.weight": "ffn_down.weight"}
NORMS = {"self_attn.q_norm.weight": "attn_q_norm.weight", "self_attn.k_norm.weight": "attn_k_norm.weight"}
BIASES = {"self_attn.q_proj.bias": "attn_q.bias", "self_attn.k_proj.bias": "attn_k.bias", "self_attn.v_proj.bias": "attn_v.bias"}
STATIC = {"model.embed_tokens.weight": "token_embd.weight", "model.norm.weight": "output_norm.weight", "lm_head.weight": "output.weight"}
FAMILY = {"llama": (LAYER, NORMS | BIASES), "qwen2": (LAYER | BIASES, NORMS), "qwen3": (LAYER | NORMS, BIASES)}


def merged(ctx, m, e, depth=0):
    """A dictionary display with its ** parts, as python values."""
    if depth > 6 or e is None:
        return None
    if isinstance(e, ast.Name):
        m2, x = table(ctx, m.name, e.id)
        r = ctx.p.resolve_expr(m, e)
        if x is None and r[0] == "global":
            m2, x = table(ctx, *r[1].rsplit(".", 1))
        return merged(ctx, m2, x, depth + 1)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        a, b = merged(ctx, m, e.left, depth + 1), merged(ctx, m, e.right, depth + 1)
        return None if a is None or b is None else {**a, **b}
    if not isinstance(e, ast.Dict):
        return None
    out = {}
    for k, v in zip(e.keys, e.values):
        if k is None:
            sub = merged(ctx, m, v, depth + 1)
            if sub is None:
                return None
            out.update(sub)
        else:
            kk, vv = literal(k), literal(v)
            if kk is None or vv is None:
                return None
            out[kk] = vv
    return out


def name_maps(ctx):
    rule = "name.map"
    f = fun(ctx, rule, f"{NM}._build_name_map")
    m = ctx.p.modules.get(NM)
    if f is None or m is None:
        return
    static = merged(ctx, m, ast.Name(id="_STATIC_MAP"))
    clo = None
    for o in normals(paths(ctx, f, inline=no_inline)):
        if o.val[0] == "closure":
            clo = ctx.p.funcs.get(o.val[1])
    how = None
    if clo is not None:
        # the closure: static names first, then the first pattern that matches, formatted with its group
        N = par(clo, 0)
        for o in normals(paths(ctx, clo, inline=no_inline, loop_iters=(0, 1, 2))):
            pos = []
            for c, b in o.st.conds:
                c, b = norm(c, b)
                if c[0] == "cmp" and c[1] == "is" and c[3] == NONE:
                    c, b = c[2], not b
                if c[0] == "cmp" and c[1] == "in" and c[2] == N:
                    if b:
                        ctx.check(rule, "static", o.val[0] == "item" and o.val[2] == N and o.val[1] == c[3], clo.loc, f"a static name maps to {fmt(o.val)[:60]}")
                        pos = None
                        break
                elif c[0] == "call" and c[1][0] == "attr" and c[1][2] in ("match", "fullmatch", "search"):
                    how = c[1][2]
                    ctx.check(rule, "subject", c[2][:1] == (N,), clo.loc, "patterns are matched against something else than the name")
                    if b:
                        pos.append(c)
                elif c[0] == "call" and ref_name(c[1]) in ("ext:re.match", "ext:re.fullmatch", "ext:re.search"):
                    how = c[1][1].rsplit(".", 1)[1]
                    if b:
                        pos.append(c)
            if pos is None:
                continue
            if not pos:
                ok = o.val == NONE or o.val[0] == "call" and meth(o.val, "get") is not None and o.val[2][:1] == (N,)
                ctx.check(rule, "no match", ok, clo.loc, f"a name without pattern maps to {fmt(o.val)[:60]}")
            else:
                ok = o.val[0] == "call" and meth(o.val, "format") is not None and any(x == pos[0] for x in subs(o.val))
                if not ok and o.val[0] == "fstr":
                    ctx.skip(rule, "match", "the formatting was not recognised")
                else:
                    ctx.check(rule, "match", ok, clo.loc, f"a name that matches maps to {fmt(o.val)[:80]} instead of the template of the first pattern with its own layer")
                    if ok:
                        a = o.val[2][0] if o.val[2] else NONE
                        ctx.check(rule, "layer", meth(a, "group") == pos[0] and a[2] == (const(1),) or a[0] == "item" and a[1] == pos[0] and a[2] == const(1), clo.loc, f"the layer is {fmt(a)[:60]}")
                        tmpl = meth(o.val, "format")
                        pat = pos[0][1][1] if pos[0][1][0] == "attr" else pos[0][2][0]
                        ctx.check(rule, "template", tmpl[0] == "item" and pat[0] == "item" and tmpl[1] == pat[1] and tmpl[2] != pat[2] or tmpl[0] == "val" and pat[0] == "key" and tmpl[1:] == pat[1:] or tmpl[0] == "item" and tmpl[2] == pat, clo.loc, "the template is that of another pattern")
    else:
        ctx.skip(rule, "closure", "the map was not recognised")
    adapters = {}
    for am, name, got, loc in instances(ctx, ADA):
        arch = literal(got.get("gguf_arch"))
        nm = got.get("name_map")
        adapters[arch] = (got, loc)
        if arch not in FAMILY or nm is None:
            ctx.skip(rule, name, "the architecture is not known")
            continue
        r = ctx.p.resolve_expr(am, nm)
        mm, e = (table(ctx, *r[1].rsplit(".", 1))) if r[0] == "global" else (None, None)
        if not isinstance(e, ast.Call) or len(e.args) != 1:
            ctx.skip(rule, f"{arch} patterns", "the patterns were not recognised")
            continue
        pats = merged(ctx, mm, e.args[0])
        if pats is None or static is None:
            ctx.skip(rule, f"{arch} patterns", "the patterns are not literals")
            continue

        def apply(hf):
            if hf in static:
                return static[hf]
            for p, t in pats.items():
                g = getattr(re, how or "match")(p, hf)
                if g:
                    return t.format(g.group(1)) if g.groups() else t
            return None

        want, none = FAMILY[arch]
        for hf, gg in STATIC.items():
            ctx.check(rule, f"{arch} {hf}", apply(hf) == gg, loc, f"{hf} is named {apply(hf)} instead of {gg}")
        for hf, gg in want.items():
            for n in ("0", "7", "31"):
                a = apply(f"model.layers.{n}.{hf}")
                ctx.check(rule, f"{arch} {hf}", a == f"blk.{n}.{gg}", loc, f"model.layers.{n}.{hf} is named {a} instead of blk.{n}.{gg}")
        for hf in [f"model.layers.3.{x}" for x in none] + [f"model.layers.3.{x}{s}" for x in want for s in ("_quantizer.scale", ".extra")] + [f"vision.model.layers.3.{x}" for x in want] + [f"model.layers.3.{x}".replace(".", "_", 1) for x in want] + [f"model.layers.3x{x}" for x in want] + [f"model.layers.3.{x}".replace(".", "x") for x in want] + [x.replace(".weight", "_quantizer.scale") for x in STATIC]:
            a = apply(hf)
            ctx.check(rule, f"{arch} others", a is None, loc, f"{hf} is named {a} although the architecture has no such tensor")
        tr = got.get("transforms")
        if isinstance(tr, ast.List):
            ts = [ctx.p.resolve_expr(am, x) for x in tr.elts]
            ctx.check("adapter", f"{arch} rope", (("func", f"{AR}.llama_rope_permute") in ts) == (arch == "llama"), loc, f"the transforms of {arch} are {[x[1] for x in ts]}")
    for arch in FAMILY:
        if arch not in adapters:
            ctx.skip("adapter", arch, "there is no adapter")
    g = fun(ctx, rule, f"{GG}.adapter._default_is_tied")
    if g is not None:
        N = par(g, 0)
        for o in normals(paths(ctx, g, inline=no_inline)):
            tie = fact(o, lambda c: "tie_word_embeddings" in fmt(c) and c[0] != "cmp")
            t = o.val
            if tie is False:
                ctx.check("name.tied", "untied", t == FALSE, g.loc, f"without tied embeddings {fmt(t)[:60]}")
            elif tie is True:
                ok = t == ("cmp", "==", N, const("lm_head.weight")) or t in (TRUE, FALSE) and fact(o, lambda c: c == ("cmp", "==", N, const("lm_head.weight"))) == (t == TRUE)
                ctx.check("name.tied", "tied", ok, g.loc, f"with tied embeddings the parameters for which {fmt(t)[:60]} are left out")
            else:
                parts = t[1:] if t[0] == "and" else ()
                known = len(parts) == 2 and any("tie_word_embeddings" in fmt(x) for x in parts) and ("cmp", "==", N, const("lm_head.weight")) in parts
                if not known and t != TRUE:
                    ctx.skip("name.tied", "form", f"{fmt(t)[:60]} was not recognised")
                else:
                    ctx.check("name.tied", "tied", known, g.loc, "every parameter counts as tied")
    ctx.floor(rule, 40)


# ------------------------------------------------------------------------------- metadata
META = {"add_context_length": "max_position_embeddings", "add_embedding_length": "hidden_size", "add_block_count": "num_hidden_layers", "add_feed_forward_length": "intermediate_size", "add_head_count": "num_attention_heads", "add_head_count_kv": "num_key_value_heads", "add_rope_freq_base": "rope_theta", "add_layer_norm_rms_eps": "rms_norm_eps", "add_vocab_size": "vocab_size", "add_key_length": "head_dim", "add_value_length": "head_dim"}
ALWAYS = [k for k in META if k not in ("add_key_length", "add_value_length")]


def optional(t, CFG, name):
    """Whether a term is an attribute of the config, with any default."""
    return t == ("attr", CFG, name) or t[0] == "call" and t[1] == ("builtin", "getattr") and t[2][:2] == (CFG, const(name))


def metadata(ctx):
    rule = "metadata"
    for am, name, got, loc in instances(ctx, ADA):
        arch = literal(got.get("gguf_arch"))
        r = ctx.p.resolve_expr(am, got["write_metadata"]) if "write_metadata" in got else ("?", "")
        f = ctx.p.funcs.get(r[1]) if r[0] == "func" else None
        if f is None:
            ctx.skip(rule, name, "the function that writes the metadata was not found")
            continue
        W, CFG = par(f, 0), par(f, 1)
        for o in normals(paths(ctx, f, inline=inline_pkg(GG))):
            calls = {}
            for e in o.st.events:
                if e.kind == "call" and e.obj == W:
                    calls.setdefault(name_of(e), []).append(e)
            for k in ALWAYS:
                ctx.check(rule, f"{arch} {k}", len(calls.get(k, ())) == 1, loc, f"{k} is called {len(calls.get(k, ()))} times")
            hd = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[3] == NONE and optional(c[2], CFG, "head_dim"))
            if arch == "qwen3" and hd is False:
                for k in ("add_key_length", "add_value_length"):
                    ctx.check(rule, f"{arch} {k}", len(calls.get(k, ())) == 1, loc, f"{k} is not written although the config has a head dimension")
            for k, es in calls.items():
                if k not in META:
                    continue
                for e in es:
                    v = e.args[0] if e.args else (e.kwargs[0][1] if e.kwargs else NONE)
                    ok = optional(v, CFG, META[k])
                    if k in ("add_rope_freq_base", "add_head_count_kv") and not ok:
                        none = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[3] == NONE and optional(c[2], CFG, META[k]))
                        ok = none is True or none is None and fact(o, lambda c: c[0] == "call" and c[1] == ("builtin", "hasattr")) is False
                    if not ok and v[0] not in ("attr", "const") and not (v[0] == "call" and v[1] == ("builtin", "getattr")):
                        ctx.skip(rule, f"{arch} {k}", f"{fmt(v)[:60]} was not recognised")
                        continue
                    ctx.check(rule, f"{arch} {k} value", ok, e.loc, f"{k} is given {fmt(v)[:60]} instead of {META[k]}")
                    if k == "add_head_count_kv" and v[0] == "call" and len(v[2]) == 3:
                        ctx.check(rule, f"{arch} {k} default", v[2][2] == ("attr", CFG, "num_attention_heads"), e.loc, f"without key-value heads their number is {fmt(v[2][2])[:60]}")
    ctx.floor(rule, 30)


# ------------------------------------------------------------------------------- vocabulary
def member(t):
    while t[0] == "call" and t[1] == ("builtin", "int") and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == "attr" and t[2] == "value":
        t = t[1]
    s = t[1] if t[0] in ("ext", "global") else f"{fmt(t[1])}.{t[2]}" if t[0] == "attr" else ""
    return s.rsplit(".", 1)[-1] if "TokenType" in s else None


def vocabulary(ctx):
    rule = "vocabulary"
    f = fun(ctx, rule, f"{GG}._vocab.write_vocab")
    if f is None:
        return
    W, TK, CFG = par(f, 0), par(f, 1), par(f, 2)
    V = ("call", ("attr", TK, "get_vocab"), (), ())
    added = ("call", ("attr", TK, "get_added_vocab"), (), ())
    size = ("attr", CFG, "vocab_size")
    types = set()
    for o in normals(paths(ctx, f, inline=inline_pkg(GG), loop_iters=(1,))):
        lists = [e for e in o.st.events if e.kind == "call" and e.obj == W and name_of(e) == "add_token_list"]
        kinds = [e for e in o.st.events if e.kind == "call" and e.obj == W and name_of(e) == "add_token_types"]
        ctx.check(rule, "written", len(lists) == 1 and len(kinds) == 1, f.loc, "tokens or their types are not written once")
        if len(lists) != 1 or len(kinds) != 1 or not lists[0].args or not kinds[0].args:
            continue
        TL, KL = lists[0].args[0], kinds[0].args[0]
        loops = [e for e in o.st.events if e.kind == "loop" and e.obj[0] == "call" and e.obj[1] == ("builtin", "range")]
        at = [e for e in o.st.events if e.kind == "call" and e.name == "method:.append" and e.obj == TL]
        ak = [e for e in o.st.events if e.kind == "call" and e.name == "method:.append" and e.obj == KL]
        if len(loops) != 1 or TL[0] != "fresh" or KL[0] != "fresh":
            ctx.skip(rule, "loop", "the loop over the token numbers was not recognised")
            continue
        r = loops[0].obj[2]
        ctx.check(rule, "range", r in ((size,), (const(0), size)), loops[0].loc, f"tokens are written for {fmt(loops[0].obj)[:60]}")
        I = ("elem", loops[0].obj)
        ctx.check(rule, "parallel", len(at) == 1 and len(ak) == 1, loops[0].loc, f"a token number adds {len(at)} tokens and {len(ak)} types")
        if len(at) != 1 or len(ak) != 1:
            continue
        tok, kind = at[0].args[0], member(ak[0].args[0])
        inv = None
        has = None
        for c, b in o.st.conds:
            c, b = norm(c, b)
            if c[0] == "cmp" and c[1] == "in" and c[2] == I and c[3][0] in ("comp", "fresh", "call") and any(x == V for x in subs(c[3])):
                inv, has = c[3], b
            elif c[0] == "cmp" and c[1] == "is" and c[3] == NONE and meth(c[2], "get") is not None and c[2][2][:1] == (I,):
                inv, has = meth(c[2], "get"), not b
        if inv is None:
            ctx.skip(rule, "lookup", "the look-up of a token was not recognised")
            continue
        if inv[0] == "comp":
            ok = inv[2][0] == "pair" and inv[2][1] == ("val", V) and inv[2][2] == ("key", V)
            ctx.check(rule, "inverse", ok, f.loc, f"tokens are looked up in {fmt(inv)[:80]}")
        if not has:
            ctx.check(rule, "unused", kind == "UNUSED", ak[0].loc, f"a number without token has type {kind}")
            ctx.check(rule, "padding", any(x == I for x in subs(tok)), at[0].loc, "the padding tokens of different numbers are the same")
            types.add("UNUSED")
            continue
        mine = [("item", inv, I), ("call", ("attr", inv, "get"), (I,), ())]
        ctx.check(rule, "token", tok in mine, at[0].loc, f"the token of a number is {fmt(tok)[:60]}")
        special = next((b for c, b in (norm(*x) for x in o.st.conds) if c[0] == "cmp" and c[1] == "in" and c[2] == I and c[3] != inv), None)
        user = next((b for c, b in (norm(*x) for x in o.st.conds) if c[0] == "cmp" and c[1] == "in" and c[2] in mine and c[3] == added), None)
        if special is None and user is None:
            ctx.skip(rule, "type", "the choice of the type was not recognised")
            continue
        want = "CONTROL" if special else "USER_DEFINED" if user else "NORMAL"
        types.add(want)
        if special is None and kind != "CONTROL":
            ctx.check(rule, "special first", False, ak[0].loc, f"a token that may be special has type {kind}")
            continue
        ctx.check(rule, want, kind == want, ak[0].loc, f"a token that is {'special' if special else 'added' if user else 'neither special nor added'} has type {kind}")
        for e in o.st.events:
            if e.kind == "call" and e.name == "method:.add" and e.obj[0] == "fresh":
                sp = fact(o, lambda c: "special" in fmt(c) and c[0] in ("call", "attr"))
                ctx.check(rule, "special", sp is True, e.loc, "a token that is not special counts as special")
    # files read while they exist
    for o in normals(paths(ctx, f, inline=inline_pkg(GG), loop_iters=(0,))):
        sv = [k for k, e in enumerate(o.st.events) if e.kind == "call" and name_of(e) in ("SpecialVocab", "add_to_gguf")]
        ctx.check(rule, "special vocabulary", len(sv) == 2, f.loc, "merges and special tokens are not written")
        tmp = [e for e in o.st.events if e.kind == "call" and name_of(e) == "save_pretrained"]
        if tmp and sv:
            live = 0
            for e in o.st.events[: sv[-1]]:
                live += (e.kind == "enter") - (e.kind == "exit")
            ctx.check(rule, "files", live > 0, f.loc, "the temporary directory is removed before it is read")
    for w in ("CONTROL", "USER_DEFINED", "NORMAL", "UNUSED"):
        if w not in types:
            ctx.skip(rule, f"{w} path", "no path was found")
    ctx.floor(rule, 8)
