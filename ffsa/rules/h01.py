"""Export encodings.  The schema handlers are interpreted for every kind of granularity, with and
without offsets; the numbers they write are brought into canonical algebraic form and compared with the
grid the quantizer itself uses.  Metadata is checked as a round trip (reader applied to what the writer
writes), graph passes and extraction loops for an arbitrary node."""
from __future__ import annotations

import ast
import itertools
from fractions import Fraction

from .. import algebra as A
from .common import *
from .g01 import FALSE, NONE, SELF, TRUE, api, fact, fun, meth, method, norm, paths, unwrap

ASSUMPTIONS = ["equality of formulas is over the reals; torch and ONNX operators have their documented meaning", "granularity_from_sizes gives a granularity with the given tile size (C03)"]
EX = "fastforward.export"
SCH = f"{EX}._export_schemas"
LPBQ = f"{EX}._lpbq.LPBQProcessor"
GRAN = "fastforward.quantization.granularity"
G = ("param", "@granularity")
HALF = None


def check(ctx):
    handlers(ctx)
    tables(ctx)
    block_shape(ctx)
    lpbq(ctx)
    config(ctx)
    metadata(ctx)
    graph_passes(ctx)
    annotator(ctx)
    extraction(ctx)
    copier(ctx)


def par(f, i):
    p = f.params()
    return ("param", p[i]) if i < len(p) else None


S, O, B = (A.atom(("leaf", (), x)) for x in ("scale", "offset", "bits"))


def zero_point(off):
    """QNN offset of an offset: offset - 2**(bits - 1)."""
    return A.sub(off, A.power(A.num(2), A.sub(B, A.ONE)))


LAYOUT = {"item", "tolist", "numpy", "cpu", "detach", "reshape", "view", "flatten", "ravel", "expand", "expand_as", "broadcast_to", "view_as", "squeeze", "contiguous", "clone", "float", "double", "to", "int", "long", "unsqueeze", "type", "astype"}


def field_of(t, enc):
    """Name of the field of the given parameters a term reads."""
    if t[0] == "item" and t[1] == enc and t[2][0] == "const":
        return t[2][2]
    if t[0] == "call" and meth(t, "get") == enc and t[2] and t[2][0][0] == "const":
        return t[2][0][2]
    return None


class Vals:
    """Values of one path in terms of scale, offset and number of bits of the encoding."""

    def __init__(self, o, enc, fields=None):
        self.o, self.enc, self.fields = o, enc, fields or {}
        none = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[3] == NONE and field_of(c[2], enc) == "offset")
        self.none = none is True
        self.mixed = False  # "some offset is zero" instead of "all are"
        self.off = A.ZERO if self.none else A.atom(("round", O))

    def __call__(self, t):
        a = A.Alg()
        a.leaf = lambda t, w: self.leaf(a, t, w)
        return a.ev(t)

    def leaf(self, a, t, w):
        n = field_of(t, self.enc)
        if n == "scale":
            return S
        if n == "offset":
            return A.ZERO if self.none else O
        if n == "num_bits":
            return B
        if t in self.fields:
            return self.fields[t]
        if t[0] == "elem":
            return a.ev(t[1])
        if t[0] == "item" and t[1][0] == "call" and t[2][0] == "const":
            r = ref_name(t[1][1])
            i = t[2][2]
            if r == "ext:torch.broadcast_tensors" and i < len(t[1][2]):
                return a.ev(t[1][2][i])
            if r.endswith(".quantization_range") and i in (0, 1):
                s, off, b = (arg(t[1], k, x) for k, x in enumerate(("scale", "offset", "num_bits")))
                if s is None or b is None:
                    return None
                half = A.power(A.num(2), A.sub(a.ev(b), A.ONE))
                lo, hi = A.scale(half, Fraction(-1)), A.sub(half, A.ONE)
                return A.mul(A.add((lo, hi)[i], A.ZERO if off in (None, NONE) else a.ev(off)), a.ev(s))
        if t[0] == "call":
            r = ref_name(t[1])
            if r.endswith((".ensure_tensor", ".tensor_or_none")) and t[2]:
                return a.ev(t[2][0])
            if r in ("ext:numpy.reshape", "ext:torch.reshape", "ext:torch.broadcast_to", "ext:torch.flatten", "ext:numpy.asarray", "ext:numpy.array") and t[2]:
                return a.ev(t[2][0])
            if r.endswith("._infer_offset") and t[2]:
                return A.ZERO if t[2][0] == NONE or self.none and field_of(t[2][0], self.enc) == "offset" else a.ev(("call", ("ext", "torch.round"), (t[2][0],), ()))
            if t[1][0] == "attr" and t[1][2] in LAYOUT:
                return a.ev(t[1][1])
        return None

    def sym(self, t):
        """Polarity with which a condition says that every offset is zero; None if it says something else."""
        t, b = norm(t, True)
        if t[0] == "cmp" and t[1] in ("is", "==") and t[3] in (TRUE, FALSE):
            r = self.sym(t[2])
            return None if r is None else (r == (t[3] == TRUE)) == b
        if t[0] == "call" and t[1] == ("builtin", "bool") and len(t[2]) == 1 or t[0] == "call" and t[1][0] == "attr" and t[1][2] == "item" and not t[2]:
            r = self.sym(t[2][0] if t[2] else t[1][1])
            return None if r is None else r == b
        if t[0] == "call":
            n, xs, kw = A.Alg().op(t)
            if n in ("all", "any") and len(xs) == 1:
                x, p = xs[0], n == "all"
                if x[0] == "not" or x[0] == "un" and x[1] in ("~", "not"):
                    x, q = x[-1], False
                else:
                    q = True
                zero = None
                if x[0] == "cmp" and x[1] == "==":
                    zero, (l, r) = q, x[2:]
                elif x[0] == "call" and len(A.Alg().op(x)[1]) == 2 and A.Alg().op(x)[0] in ("eq", "ne", "not_equal"):
                    m, (l, r), _ = A.Alg().op(x)
                    zero = (m == "eq") == q
                elif n == "any" and q:
                    zero, l, r = False, x, const(0)
                if zero is not None and (self(r) == A.ZERO and self(l) in (self.off, O) or self(l) == A.ZERO and self(r) in (self.off, O)):
                    if zero == p:
                        return p == b
                    self.mixed = True
        return None

    def symmetric(self):
        for c, b in self.o.st.conds:
            r = self.sym(c)
            if r is not None:
                return r == b
        return None


SCEN = {
    "per tensor": ("PerTensor", {}),
    "channel 0": ("PerChannel", {"channel_dims": (0,)}),
    "channel 1": ("PerChannel", {"channel_dims": (1,)}),
    "channels 0 and 1": ("PerChannel", {"channel_dims": (0, 1)}),
    "blocks of 1, channel 0": ("PerBlock", {"block_dims": (1,), "block_sizes": ("b",), "per_channel_dims": (0,)}),
    "blocks of 0, channel 1": ("PerBlock", {"block_dims": (0,), "block_sizes": ("b",), "per_channel_dims": (1,)}),
    "blocks of 0": ("PerBlock", {"block_dims": (0,), "block_sizes": ("b",), "per_channel_dims": ()}),
    "blocks of 1": ("PerBlock", {"block_dims": (1,), "block_sizes": ("b",), "per_channel_dims": ()}),
    "blocks of 1, channel 2": ("PerBlock", {"block_dims": (1,), "block_sizes": ("b",), "per_channel_dims": (2,)}),
    "blocks of 0, channels 1 and 2": ("PerBlock", {"block_dims": (0,), "block_sizes": ("b",), "per_channel_dims": (1, 2)}),
    "blocks of 0 and 1": ("PerBlock", {"block_dims": (0, 1), "block_sizes": ("b", "c"), "per_channel_dims": ()}),
}
FLAT = ("per tensor", "channel 0")
ONE_BLOCK = tuple(k for k, (c, a) in SCEN.items() if c == "PerBlock" and len(a["block_dims"]) == 1)
PAIRS = ("blocks of 1, channel 0", "blocks of 0, channel 1")
ACCEPT = {"LegacySchemaHandler": FLAT, "V1SchemaHandler": FLAT + PAIRS, "V2SchemaHandler": FLAT + ONE_BLOCK}
EITHER = {"LegacySchemaHandler": (), "V1SchemaHandler": (), "V2SchemaHandler": ("channel 1",)}


class Unknown(Exception):
    pass


def known(t, scen):
    """Value of a term about the granularity in a scenario."""
    cls, attrs = scen
    if t[0] == "const":
        return t[2]
    if t[0] == "attr" and t[1] == G:
        if t[2] in attrs:
            return attrs[t[2]]
        raise Unknown
    if t[0] in ("tuple", "list"):
        return tuple(known(x, scen) for x in t[1:])
    if t[0] == "item":
        try:
            return known(t[1], scen)[known(t[2], scen)]
        except (IndexError, TypeError):
            raise Unknown from None
    if t[0] == "call" and t[1] == ("builtin", "len") and len(t[2]) == 1:
        return len(known(t[2][0], scen))
    if t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("tuple", "list") and len(t[2]) == 1:
        return tuple(known(t[2][0], scen))
    if t[0] == "call" and t[1] == ("builtin", "type") and t[2] == (G,):
        return ("class", f"{GRAN}.{cls}")
    if t[0] == "class":
        return t
    raise Unknown


def truth(c, scen):
    """Truth of a condition about the granularity in a scenario; None if it is about something else."""
    c, b = norm(c, True)
    try:
        if c[0] == "isinstance" and c[1] == G:
            q = [c[2]] if c[2][0] == "class" else list(c[2][1:])
            return any(x == ("class", f"{GRAN}.{scen[0]}") or x == ("class", f"{GRAN}.Granularity") for x in q) == b
        if c[0] == "match_seq":
            v = known(c[1], scen)
            return (len(v) >= c[2][2] if c[3] == TRUE else len(v) == c[2][2]) == b
        if c[0] == "cmp" and c[1] in ("==", "is", "<", "<=", "in"):
            x, y = known(c[2], scen), known(c[3], scen)
            return {"==": lambda: x == y, "is": lambda: x == y, "<": lambda: x < y, "<=": lambda: x <= y, "in": lambda: x in y}[c[1]]() == b
        if c[0] == "nonempty":
            return bool(known(c[1], scen)) == b
        return bool(known(c, scen)) == b
    except (Unknown, TypeError):
        return None


def granularity(i, fn, args, kw, st, loc, f):
    kws = dict(kw) if not isinstance(kw, dict) else kw
    return i.V(i.emit(st, Ev("call", "@granularity", NONE, tuple(args), tuple(kws.items()), G, loc, f.qual)), G)


def dictionary(o, t, depth=0):
    """Fields of a dictionary at the end of the path, None if unknown."""
    if depth > 4 or t is None:
        return None
    out = {}
    if t[0] == "dict":
        for x in t[1:]:
            if x[0] == "pair":
                out[x[1]] = x[2]
            elif x[0] in ("dstar", "star"):
                sub = dictionary(o, x[1], depth + 1)
                if sub is None:
                    return None
                out.update(sub)
    elif t[0] == "call" and t[1] == ("builtin", "dict"):
        for x in t[2]:
            sub = dictionary(o, x, depth + 1)
            if sub is None:
                return None
            out.update(sub)
        for k, v in t[3]:
            out[const(k)] = v
    elif t[0] == "bin" and t[1] == "|":
        for x in t[2:]:
            sub = dictionary(o, x, depth + 1)
            if sub is None:
                return None
            out.update(sub)
    elif t[0] != "fresh":
        return None
    for e in o.st.events:
        if e.obj != t:
            continue
        if e.kind == "setitem":
            out[e.args[0]] = e.value
        elif e.kind == "call" and e.name == "method:.update":
            for x in e.args:
                sub = dictionary(o, x, depth + 1)
                if sub is None:
                    return None
                out.update(sub)
            out.update({const(k): v for k, v in e.kwargs})
        elif e.kind == "call" and e.name == "method:.setdefault" and len(e.args) == 2:
            out.setdefault(e.args[0], e.args[1])
        elif e.kind == "delitem":
            out.pop(e.args[0], None)
    return out


def elements(o, t, depth=0):
    """Generic element of a list (or tuple) and what it runs over; None if unknown."""
    t = unwrap(t)
    if t[0] == "comp" and len(t[3]) == 1 and not t[3][0][1]:
        return t[2], t[3][0][0]
    if t[0] == "fresh":
        adds = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "call" and e.obj == t and e.name in ("method:.append", "method:.add")]
        loops = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "loop"]
        if len(adds) == 1:
            inside = [e for k, e in loops if k < adds[0][0] and not any(x.kind == "endloop" and x.obj == e.obj for x in o.st.events[k:adds[0][0]])]
            if len(inside) == 1:
                return adds[0][1].args[0], inside[0].obj
        return None
    if t[0] == "call" and t[1] == ("builtin", "map") and len(t[2]) == 2:
        return ("call", t[2][0], (("elem", t[2][1]),), ()), t[2][1]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "tolist":
        return t[1][1], t[1][1]
    return None


def text(t, V):
    """Parts of a string: constants merged, other parts as polynomials or terms."""
    out = []

    def go(t):
        if t[0] == "const" and isinstance(t[2], str):
            if out and isinstance(out[-1], str):
                out[-1] += t[2]
            elif t[2]:
                out.append(t[2])
        elif t[0] == "fstr":
            for x in t[1:]:
                go(x)
        elif t[0] == "bin" and t[1] == "+":
            go(t[2])
            go(t[3])
        elif t[0] == "call" and t[1] in (("builtin", "str"), ("builtin", "format")) and len(t[2]) == 1:
            go(t[2][0])
        else:
            out.append(("value", V(t)))

    go(t)
    return out


def handler_paths(ctx, cls):
    """Paths of add_encoding with the granularity as a symbol."""
    f = method(ctx, "schema.accepts", f"{SCH}.{cls}", "add_encoding")
    if f is None:
        return None, []
    keep = ("generate_lpbq_encoding", "_compute_v2_block_parameter_shape", "quantization_range", "integer_minimum", "ensure_tensor")
    return f, list(paths(ctx, f, inline=inline_pkg(EX, deny=keep), models={f"func:{GRAN}.granularity_from_sizes": granularity}))


def stores(o, attrs):
    """(table, name, entry) a path stores."""
    out = []
    for e in o.st.events:
        if e.kind == "setitem" and e.obj in attrs:
            out.append((e.obj, e.args[0], e.value, e))
        elif e.kind == "call" and e.obj in attrs and e.name == "method:.append":
            out.append((e.obj, None, e.args[0], e))
        elif e.kind == "call" and e.obj in attrs and e.name == "method:.setdefault":
            out.append((e.obj, e.args[0], e.args[1], e))
    return out


def build_tables(ctx, cls):
    """Which table of the handler ends up under which key of the dictionary."""
    f = method(ctx, "schema.tables", f"{SCH}.{cls}", "build_encodings_dictionary")
    if f is None:
        return {}, None
    for o in normals(paths(ctx, f, inline=inline_pkg(EX))):
        d = dictionary(o, o.val)
        if d is None:
            ctx.skip("schema.tables", cls, f"{fmt(o.val)[:80]} was not recognised")
            return {}, f
        return {k[2]: v for k, v in d.items() if k[0] == "const"}, f
    return {}, f


def copied(t):
    """The table a copy is made of, and whether it is a copy."""
    c = False
    while True:
        if t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("list", "dict", "tuple") and len(t[2]) == 1:
            t, c = t[2][0], True
        elif t[0] == "call" and meth(t, "copy") is not None and not t[2]:
            t, c = meth(t, "copy"), True
        elif t[0] == "call" and ref_name(t[1]) in ("ext:copy.copy", "ext:copy.deepcopy") and t[2]:
            t, c = t[2][0], True
        elif t[0] in ("list", "tuple", "dict") and len(t) == 2 and t[1][0] in ("star", "dstar"):
            t, c = t[1][1], True
        elif t[0] == "comp" and len(t[3]) == 1 and not t[3][0][1] and (t[2] == ("elem", t[3][0][0]) or t[2][0] == "pair"):
            t, c = t[3][0][0], True
            if t[0] == "call" and meth(t, "items") is not None:
                t = meth(t, "items")
        else:
            return t, c


VERSIONS = {"LegacySchemaHandler": "0.6.1", "V1SchemaHandler": "1.0.0", "V2SchemaHandler": "2.0.0"}
TABLES = {"LegacySchemaHandler": ("param_encodings", "activation_encodings"), "V1SchemaHandler": ("param_encodings", "activation_encodings"), "V2SchemaHandler": ("encodings", "encodings")}


def tables(ctx):
    """Every table ends up under its key as a copy, the version is the one of the format, clear empties everything."""
    for cls in ACCEPT:
        if f"{SCH}.{cls}" not in ctx.p.classes:
            continue
        d, f = build_tables(ctx, cls)
        if not d:
            continue
        v = d.get("version", NONE)
        g = ctx.p.find_method(f"{SCH}.{cls}", "version")
        if v == ("attr", SELF, "version") and g is not None:
            v = next((o.val for o in normals(paths(ctx, g))), v)
        ctx.check("schema.version", cls, v == const(VERSIONS[cls]), f.loc, f"the dictionary names version {fmt(v)}")
        used = {}
        for k in dict.fromkeys(TABLES[cls]):
            t, c = copied(d.get(k, NONE))
            used[k] = t
            ctx.check("schema.tables", f"{cls} {k}", t[0] == "attr" and t[1] == SELF, f.loc, f"{k} are {fmt(t)[:80]}")
            ctx.check("schema.snapshot", f"{cls} {k}", c, f.loc, f"the dictionary shares {k} with the handler: it changes when the handler is cleared or used again")
        ctx.check("schema.tables", f"{cls} distinct", len(set(used.values())) == len(used), f.loc, "parameters and activations share a table")
        g = method(ctx, "schema.clear", f"{SCH}.{cls}", "clear")
        h, outs = handler_paths(ctx, cls)
        if g is None or h is None:
            continue
        touched = {e.obj for o in outs for e in o.st.events if e.obj is not None and e.obj[0] == "attr" and e.obj[1] == SELF and (e.kind == "setitem" or e.kind == "call" and e.name in ("method:.append", "method:.add", "method:.setdefault", "method:.update", "method:.extend"))} | set(used.values())
        for o in normals(paths(ctx, g, inline=inline_pkg(EX))):
            for t in sorted(touched, key=repr):
                gone = any(e.kind == "call" and e.name == "method:.clear" and e.obj == t or e.kind == "setattr" and ("attr", e.obj, e.name) == t and (e.value[0] == "fresh" or len(e.value) == 1) or e.kind == "delitem" and e.obj == t and e.args and e.args[0] == ("slice", NONE, NONE, NONE) for e in o.st.events)
                ctx.check("schema.clear", f"{cls} {t[-1]}", gone, g.loc, f"{t[-1]} survives clear")


def handlers(ctx):
    for cls in ACCEPT:
        if f"{SCH}.{cls}" not in ctx.p.classes:
            ctx.skip("schema.accepts", cls, "the class does not exist")
            continue
        d, _ = build_tables(ctx, cls)
        f, outs = handler_paths(ctx, cls)
        if f is None:
            continue
        name, enc, isp = par(f, 1), par(f, 2), par(f, 3)
        tabs = {k: copied(d[k])[0] for k in dict.fromkeys(TABLES[cls]) if k in d}
        feas = {}
        for o in outs:
            V = Vals(o, enc)
            sym = V.symmetric()
            if V.none and sym is False:
                continue  # no offset: every offset is zero
            for e in o.st.events:
                if e.name == "@granularity":
                    a, b = (unsize(evarg(e, i, x)) for i, x in enumerate(("data_size", "tile_size")))
                    ctx.check("schema.granularity", cls, field_of(a, enc) == "data_shape" and field_of(b, enc) == "tile_size", f.loc, f"the granularity is that of {fmt(a)[:60]} in tiles of {fmt(b)[:60]}")
            frac = [c for c, b in (norm(*x) for x in o.st.conds) if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "is_integer" and not b]
            if frac:
                if any(field_of(c[1][1], enc) == "num_bits" for c in frac):
                    ctx.check("schema.bits", cls, o.kind == "raise", f.loc, "a number of bits that is no integer is exported")
                continue
            if o.kind == "return":
                whole = any(b and (c[0] == "call" and c[1][0] == "attr" and c[1][2] == "is_integer" and field_of(c[1][1], enc) == "num_bits" or c[0] == "isinstance" and field_of(c[1], enc) == "num_bits" or c[0] == "cmp" and c[1] == "==" and any(field_of(x, enc) == "num_bits" for x in c[2:])) for c, b in (norm(*x) for x in o.st.conds)) or any(c[0] == "cmp" and contains(c, lambda x: x[0] == "bin" and x[1] == "%" and field_of(x[2], enc) == "num_bits") for c, _ in o.st.conds)
                asked = whole or any(contains(c, lambda x: x[0] == "call" and x[1][0] == "attr" and x[1][2] == "is_integer" and contains(x[1][1], lambda y: field_of(y, enc) == "num_bits") and not contains(x[1][1], lambda y: y == ("builtin", "int"))) for c, _ in o.st.conds)
                ctx.check("schema.bits", f"{cls} checked", asked, f.loc, "a number of bits that is no integer is exported as if it were one")
            for n, scen in SCEN.items():
                if any(truth(c, scen) not in (None, b) for c, b in o.st.conds):
                    continue
                feas.setdefault(n, []).append((o, V, sym))
        for n in SCEN:
            ps = feas.get(n, [])
            kinds = {o.kind for o, _, _ in ps}
            if n in EITHER[cls]:
                pass
            elif n in ACCEPT[cls]:
                ctx.check("schema.accepts", f"{cls} {n}", kinds == {"return"}, f.loc, f"{n} quantization is refused")
            else:
                ctx.check("schema.refuses", f"{cls} {n}", kinds == {"raise"}, f.loc, f"{n} quantization is exported although the format cannot express it")
            for o, V, sym in ps:
                if o.kind == "return":
                    stored(ctx, cls, f, o, V, sym, n, name, enc, isp, tabs)
    for r in ("schema.accepts", "schema.refuses"):
        ctx.floor(r, 5)


def unsize(t):
    while t is not None and t[0] == "call" and ref_name(t[1]) in ("ext:torch.Size", "builtin:tuple", "builtin:list") and len(t[2]) == 1:
        t = t[2][0]
    return t if t is not None else NONE


def stored(ctx, cls, f, o, V, sym, n, name, enc, isp, tabs):
    """What a path stores, and where."""
    isparam = fact(o, lambda c: c == isp)
    keys = TABLES[cls]
    want = tabs.get(keys[0] if isparam else keys[1])
    put = stores(o, set(tabs.values()))
    seen = [(c[3], b) for c, b in (norm(*x) for x in o.st.conds) if c[0] == "cmp" and c[1] == "in" and c[2] == name]
    if len(seen) != 1:
        ctx.skip("schema.first", f"{cls}", "the test for a known name was not recognised") if put and put[0][3].kind == "call" and put[0][3].name.endswith("setdefault") else ctx.check("schema.first", cls, False, f.loc, "an encoding is stored without looking whether there is one for that name")
        return
    X, had = seen[0]
    while X[0] == "call" and meth(X, "keys") is not None:
        X = meth(X, "keys")
    if had:
        ctx.check("schema.first", f"{cls} known name", not put, f.loc, "a second encoding for the same name is stored")
        return
    if len(put) != 1:
        ctx.check("schema.first", f"{cls} new name", False, f.loc, f"{len(put)} encodings are stored for a new name")
        return
    T, key, entry, ev = put[0]
    ctx.check("schema.first", f"{cls} new name", True, f.loc, "")
    ctx.check("schema.table", f"{cls} {'parameter' if isparam else 'activation'}", T == want and (key is None or key == name), f.loc, f"the encoding of {'a parameter' if isparam else 'an activation'} is stored in {fmt(T)} under {fmt(key or name)}")
    reg = X == T or any(e.kind == "call" and e.name in ("method:.add", "method:.append") and e.obj == X and e.args == (name,) or e.kind == "setitem" and e.obj == X and e.args == (name,) for e in o.st.events)
    ctx.check("schema.first", f"{cls} registered", reg, f.loc, "a stored name is not recognised when it comes again")
    {"LegacySchemaHandler": legacy, "V1SchemaHandler": version1, "V2SchemaHandler": version2}[cls](ctx, f, o, V, sym, n, entry, name, enc)


def flag(V, t, sym, yes=TRUE, no=FALSE):
    """Whether a value says that the encoding is symmetric."""
    if t in (yes, no):
        return sym is (t == yes)
    if yes == TRUE:
        return V.sym(t) is True
    return t[0] == "call" and t[1] == ("builtin", "str") and V.sym(t[2][0]) is True


def values(ctx, rule, con, f, o, V, t, want, what):
    """A list with one value per scale."""
    el = elements(o, t) if t is not None else None
    if el is None:
        if t is not None and t[0] in ("fresh", "call", "comp"):
            ctx.skip(rule, con, f"{fmt(t)[:80]} was not recognised")
        else:
            ctx.check(rule, con, False, f.loc, f"{what} are {fmt(t)[:60] if t is not None else 'missing'}")
        return
    v, src = el
    got = V(v)
    ctx.check(rule, con, got == want, f.loc, f"{what}: {A.show(got)[:100]} instead of {A.show(want)[:100]}")
    runs(ctx, rule, con, f, V, src, what)


def paired(V, t):
    """Whether a value has one entry for every scale (by construction)."""
    if t[0] == "item" and t[1][0] == "call" and ref_name(t[1][1]) == "ext:torch.broadcast_tensors":
        return any(x[0] == "call" and contains(x, lambda y: field_of(y, V.enc) == "scale") for x in t[1][2])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("expand_as", "expand", "broadcast_to"):
        return contains(t, lambda y: field_of(y, V.enc) == "scale")
    if t[0] == "call" and (t[1][0] == "attr" and t[1][2] in LAYOUT):
        return paired(V, t[1][1])
    if t[0] == "call" and ref_name(t[1]) in ("ext:torch.zeros_like", "ext:torch.full_like", "ext:torch.broadcast_to") and t[2]:
        return contains(t, lambda y: field_of(y, V.enc) == "scale")
    if t[0] == "call" and ref_name(t[1]).endswith((".ensure_tensor", ".tensor_or_none", "torch.round", "torch.tensor", "torch.as_tensor", "_infer_offset")) and t[2]:
        return any(paired(V, x) for x in t[2])
    if t[0] == "bin":
        return any(paired(V, x) for x in t[2:])
    if t[0] == "item" and t[1][0] == "call" and ref_name(t[1][1]).endswith(".quantization_range"):
        return any(paired(V, x) for x in t[1][2])
    return False


def runs(ctx, rule, con, f, V, src, what):
    srcs = list(src[2]) if src[0] == "call" and src[1] == ("builtin", "zip") else [src]
    for x in srcs:
        x = x[2][0] if x[0] == "call" and x[1] == ("builtin", "enumerate") else x
        if V(x) == A.ZERO or contains(x, lambda y: field_of(y, V.enc) in ("scale", "offset")):
            ctx.check("schema.paired", con, paired(V, x), f.loc, f"{what} have as many entries as {fmt(x)[:80]}, which need not be one per scale")


def legacy(ctx, f, o, V, sym, n, entry, name, enc):
    el = elements(o, entry)
    if el is None:
        if entry[0] == "fresh" and any(c[0] == "nonempty" and not b for c, b in o.st.conds) or entry in (("tuple",), ("list",)) or unwrap(entry)[0] == "fresh" and not contents(unwrap(entry), o.st):
            return
        ctx.skip("legacy.entry", n, f"{fmt(entry)[:80]} was not recognised")
        return
    d = dictionary(o, el[0])
    if d is None:
        ctx.skip("legacy.entry", n, f"{fmt(el[0])[:80]} was not recognised")
        return
    runs(ctx, "legacy.entry", "legacy", f, V, el[1], "entries")
    half = A.power(A.num(2), A.sub(B, A.ONE))
    want = {"bitwidth": B, "offset": zero_point(V.off), "scale": S, "min": A.mul(A.add(A.scale(half, Fraction(-1)), V.off), S), "max": A.mul(A.add(A.sub(half, A.ONE), V.off), S)}
    for k, w in want.items():
        t = d.get(const(k))
        got = V(t) if t is not None else None
        ctx.check("legacy.entry", f"{k}{' without offset' if V.none else ''}", got == w, f.loc, f"{k} is {A.show(got)[:100] if got is not None else 'missing'} instead of {A.show(w)[:100]}")
    ctx.check("legacy.entry", "dtype", d.get(const("dtype")) == const("int"), f.loc, "the type is not int")
    ctx.check("legacy.entry", "is_symmetric", const("is_symmetric") in d and flag(V, d[const("is_symmetric")], sym, const("True"), const("False")), f.loc, f"is_symmetric is {fmt(d.get(const('is_symmetric'), NONE))[:80]}")


def version1(ctx, f, o, V, sym, n, entry, name, enc):
    proc = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[3] == NONE and c[2][0] == "attr" and c[2][1] == SELF)
    if n in PAIRS and proc is False:
        ok = entry[0] == "call" and (entry[1][0] == "bound" or entry[1][0] == "attr") and str(entry[1][1] if entry[1][0] == "bound" else entry[1][2]).endswith("generate_lpbq_encoding")
        ctx.check("v1.entry", "lpbq", ok and entry[2][:1] == (name,) and len(entry[2]) + len(entry[3]) == 2, f.loc, f"the LPBQ encoding is {fmt(entry)[:100]}")
        return
    d = dictionary(o, entry)
    if d is None:
        ctx.skip("v1.entry", n, f"{fmt(entry)[:80]} was not recognised")
        return
    sfx = " without offset" if V.none else ""
    kind = {"PerTensor": "PER_TENSOR", "PerChannel": "PER_CHANNEL", "PerBlock": "PER_BLOCK"}[SCEN[n][0]]
    ctx.check("v1.entry", f"enc_type {n}", d.get(const("enc_type")) == const(kind), f.loc, f"{n} quantization is exported as {fmt(d.get(const('enc_type'), NONE))}")
    ctx.check("v1.entry", "name", d.get(const("name")) == name, f.loc, "the entry has another name")
    ctx.check("v1.entry", "dtype", d.get(const("dtype")) == const("INT"), f.loc, "the type is not INT")
    ctx.check("v1.entry", "is_sym", const("is_sym") in d and flag(V, d[const("is_sym")], sym), f.loc, f"is_sym is {fmt(d.get(const('is_sym'), NONE))[:80]}")
    t = d.get(const("bw"))
    ctx.check("v1.entry", "bw", t is not None and V(t) == B, f.loc, "bw is not the number of bits")
    values(ctx, "v1.entry", "scale", f, o, V, d.get(const("scale")), S, "scales")
    values(ctx, "v1.entry", "offset" + sfx, f, o, V, d.get(const("offset")), zero_point(V.off), "offsets")
    if SCEN[n][0] == "PerBlock":
        block_size(ctx, "v1.entry", f, d, n)
    else:
        ctx.check("v1.entry", f"block_size {n}", const("block_size") not in d, f.loc, "a block size is given without blocks")


def block_size(ctx, rule, f, d, n):
    t = d.get(const("block_size"))
    try:
        v = known(t, SCEN[n]) if t is not None else None
    except Unknown:
        v = None
    ctx.check(rule, f"block_size {n}", v == SCEN[n][1]["block_sizes"][0], f.loc, f"the block size is {fmt(t)[:80] if t is not None else 'missing'}")


def version2(ctx, f, o, V, sym, n, entry, name, enc):
    d = dictionary(o, entry)
    if d is None:
        ctx.skip("v2.entry", n, f"{fmt(entry)[:80]} was not recognised")
        return
    sfx = " without offset" if V.none else ""
    ctx.check("v2.entry", "name", d.get(const("name")) == name, f.loc, "the entry has another name")
    t = d.get(const("output_dtype"))
    if sym is None:
        ctx.check("v2.entry", "symmetric", False, f.loc, "whether all offsets are zero is not looked at")
        return
    want = [("" if sym else "u") + "int", ("value", B)]
    got = text(t, V) if t is not None else None
    ctx.check("v2.entry", "output_dtype" + (" symmetric" if sym else ""), got == want, f.loc, f"the type is {fmt(t)[:80] if t is not None else 'missing'}")
    ctx.check("v2.entry", "y_zero_point" + (" symmetric" if sym else ""), (const("y_zero_point") in d) is (not sym), f.loc, "zero points are missing although offsets are not zero" if not sym else "zero points are given although all are zero")
    cls, attrs = SCEN[n]
    ax = d.get(const("axis"))
    if cls == "PerTensor":
        ctx.check("v2.entry", "axis", ax is None, f.loc, "an axis is given for one scale")
    else:
        w = attrs["channel_dims" if cls == "PerChannel" else "block_dims"][0]
        try:
            v = known(ax, SCEN[n]) if ax is not None else None
        except Unknown:
            v = None
        ctx.check("v2.entry", f"axis {n}", v == w, f.loc, f"the axis is {fmt(ax)[:60] if ax is not None else 'missing'}")
    if cls == "PerBlock":
        block_size(ctx, "v2.entry", f, d, n)
    else:
        ctx.check("v2.entry", f"block_size {n}", const("block_size") not in d, f.loc, "a block size is given without blocks")
    for k, w in (("y_scale", S), ("y_zero_point", zero_point(V.off))):
        t = d.get(const(k))
        if t is None:
            if k == "y_scale":
                ctx.check("v2.entry", k, False, f.loc, "the scales are missing")
            continue
        if cls == "PerChannel":
            values(ctx, "v2.entry", k, f, o, V, t, w, k)
            continue
        got = V(t)
        ctx.check("v2.entry", f"{k} {cls}{sfx}", got == w, f.loc, f"{k} is {A.show(got)[:100]} instead of {A.show(w)[:100]}")
        if cls == "PerBlock":
            sh = [x for x in walk(t) if x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("reshape", "view") and x[2] and x[2] != (const(-1),) or x[0] == "call" and ref_name(x[1]) in ("ext:numpy.reshape", "ext:torch.reshape")]
            arr = [x[2][-1] for x in sh if not (x[2][-1][0] == "un" or x[2][-1] == const(-1))]
            if not arr:
                ctx.check("v2.entry", f"{k} shape", False, f.loc, f"{k} of block quantization is not laid out along the axes")
                continue
            c = arr[0]
            if c[0] == "star":
                c = c[1]
            ok = c[0] == "call" and ref_name(c[1]).endswith("_compute_v2_block_parameter_shape") and len(c[2]) == 2 and field_of(unsize(c[2][0]), enc) == "data_shape" and c[2][1] == G
            if c[0] == "call" and ref_name(c[1]).endswith("_compute_v2_block_parameter_shape"):
                ctx.check("v2.entry", f"{k} shape", ok, f.loc, f"{k} is laid out as {fmt(c)[:100]}")
            else:
                ctx.skip("v2.entry", f"{k} shape", f"{fmt(c)[:80]} was not recognised")


def block_shape(ctx):
    """Every dimension contributes its size, its number of blocks or one, in order."""
    f = fun(ctx, "v2.shape", f"{SCH}._compute_v2_block_parameter_shape")
    if f is None:
        return
    D, P = par(f, 0), par(f, 1)
    seen = 0
    for o in paths(ctx, f, inline=inline_pkg(EX), loop_iters=(1,)):
        if o.kind != "return":
            continue
        el = elements(o, unsize(o.val))
        if el is None and any(e.name == "method:.insert" and e.obj == unwrap(unsize(o.val)) for e in o.st.events):
            ctx.check("v2.shape", "order", False, f.loc, "the dimensions are not in order")
            continue
        if el is None:
            ctx.skip("v2.shape", "shape", f"{fmt(o.val)[:80]} was not recognised")
            continue
        v, src = el
        src = src[2][0] if src[0] == "call" and src[1] == ("builtin", "enumerate") else src
        back = src[0] == "call" and src[1] == ("builtin", "reversed")
        src = src[2][0] if back else src
        turned = contains(o.val, lambda x: x[0] == "slice" and x[-1] == const(-1) or x == ("builtin", "reversed")) or any(e.name == "method:.reverse" for e in o.st.events)
        ctx.check("v2.shape", "order", back == turned, f.loc, "the dimensions are not in order")
        ctx.check("v2.shape", "dimensions", src == D, f.loc, f"the shape has as many dimensions as {fmt(src)[:80]}")

        def dims(c, name):
            x = c[3]
            while x[0] == "call" and x[1][0] == "builtin" and x[1][1] in ("set", "tuple", "list", "frozenset") and len(x[2]) == 1:
                x = x[2][0]
            return c[0] == "cmp" and c[1] == "in" and x == ("attr", P, name) and c[2][0] != "const" and (c[2][0] in ("idx", "elem", "item") or True)

        chan = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and dims(c, "per_channel_dims"))
        block = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and dims(c, "block_dims"))
        if chan is None and block is None:
            ctx.skip("v2.shape", "cases", "the cases were not recognised")
            continue
        if chan and block:
            continue  # a dimension is one or the other
        seen += 1
        a = A.Alg()
        size, nb = A.atom(("leaf", (), "size")), A.atom(("leaf", (), "block size"))

        def leaf(t, w):
            if t == ("elem", D) or t[0] == "item" and t[1] == D and t[2][0] != "const":
                return size
            if t[0] == "item" and t[1] == ("attr", P, "block_sizes"):
                i = t[2]
                if i[0] == "call" and meth(i, "index") == ("attr", P, "block_dims") and len(i[2]) == 1 and i[2][0][0] != "const":
                    return nb
            return None

        a.leaf = leaf
        got = a.ev(v)
        want = size if chan else A.atom(("//", size, nb)) if block else A.ONE
        if chan is None and got == size or block is None and not chan and got == A.ONE:
            continue
        ctx.check("v2.shape", "channel" if chan else "blocks" if block else "other", got == want, f.loc, f"the dimension has length {A.show(got)[:100]} instead of {A.show(want)[:60]}")
    ctx.floor("v2.shape", 1)


CB, DB, BS = (A.atom(("leaf", (), x)) for x in ("compressed bits", "decompressed bits", "block size"))


class Group:
    """Values and shapes of the LPBQ computation on one path in one granularity scenario."""

    def __init__(self, o, qp, scen):
        self.o, self.qp, self.scen = o, qp, scen
        self.a = A.Alg()
        self.a.leaf = self.leaf
        self.top = None

    def ev(self, t):
        return self.a.ev(t)

    def dim(self, i):
        return A.atom(("leaf", (), f"size {i}"))

    def leaf(self, t, w):
        if t[0] == "attr" and t[1] == self.qp:
            return {"scale": S, "bitwidth": CB, "offset": A.ZERO, "qnn_offset": A.sub(A.ZERO, A.power(A.num(2), A.sub(CB, A.ONE)))}.get(t[2])
        if t == ("attr", SELF, "compressed_bw"):
            return CB
        if t == ("attr", SELF, "decompressed_bw"):
            return DB
        try:
            v = known(t, self.scen)
            return BS if v == "b" else A.num(v) if isinstance(v, int) and not isinstance(v, bool) else None
        except Unknown:
            pass
        if t[0] == "bin" and t[1] == "//":
            x, y = self.ev(t[2]), self.ev(t[3])
            return x if y == A.ONE else A.atom(("//", x, y))
        if t[0] == "item" and t[1] == ("attr", self.qp, "data_shape"):
            i = self.int(t[2])
            return self.dim(i) if i is not None else None
        if t[0] == "item" and t[1][0] == "attr" and t[1][2] == "shape":
            sh, i = self.shape(t[1][1]), self.int(t[2])
            if sh is not None and i is not None and -len(sh) <= i < len(sh):
                return sh[i]
            return None
        if t[0] == "call":
            n, xs, kw = self.a.op(t)
            if n in ("amax", "max") and xs:
                self.top = t if self.top is None else self.top
                return A.atom(("amax", self.ev(xs[0])))
            if n in ("new_tensor", "new_full", "full_like") and len(xs) >= 2:
                return self.ev(xs[-1])
            if ref_name(t[1]) in ("ext:torch.tensor", "ext:torch.as_tensor", "builtin:float", "builtin:int") and t[2]:
                return self.ev(t[2][0])
            if t[1][0] == "attr" and t[1][2] in LAYOUT:
                return self.ev(t[1][1])
        if t[0] == "attr" and t[2] == "values":
            return self.ev(t[1])
        return None

    def int(self, t):
        if t[0] == "const" and isinstance(t[2], int):
            return t[2]
        if t[0] == "un" and t[1] == "-":
            v = self.int(t[2])
            return None if v is None else -v
        if t[0] == "call" and t[1] == ("builtin", "len") and len(t[2]) == 1:
            x = t[2][0]
            sh = self.shape(x[1]) if x[0] == "attr" and x[2] == "shape" else None
            return len(sh) if sh is not None else None
        try:
            v = known(t, self.scen)
            return v if isinstance(v, int) else None
        except Unknown:
            return None

    def ints(self, t):
        t = unwrap(t)
        if t[0] in ("tuple", "list"):
            v = [self.int(x) for x in t[1:]]
        elif t[0] == "call" and t[1] == ("builtin", "range"):
            v = [self.int(x) for x in t[2]]
            if None in v:
                return None
            return list(range(*v))
        else:
            v = [self.int(t)]
        return None if None in v else v

    def dims(self, t):
        """Lengths a reshape asks for."""
        if t[0] in ("tuple", "list"):
            out = []
            for x in t[1:]:
                if x[0] == "star":
                    sub = self.dims(x[1])
                    if sub is None:
                        return None
                    out += sub
                else:
                    out.append(self.ev(x))
            return out
        if t[0] == "fresh":
            out = []
            for e in self.o.st.events:
                if e.obj != t or e.kind != "call":
                    continue
                sub = [self.ev(e.args[0])] if e.name == "method:.append" else self.dims(e.args[0]) if e.name == "method:.extend" else None
                if sub is None:
                    return None
                out += sub
            return out
        if t[0] == "call" and (ref_name(t[1]) == "ext:torch.Size" or t[1][0] == "builtin" and t[1][1] in ("tuple", "list")) and len(t[2]) == 1:
            return self.dims(t[2][0])
        if t[0] == "attr" and t[2] == "shape":
            return self.shape(t[1])
        return None

    def shape(self, t):
        if t[0] == "call":
            n, xs, kw = self.a.op(t)
            if n in ("reshape", "view") and len(xs) >= 2:
                return self.dims(xs[1] if len(xs) == 2 else ("tuple", *xs[1:]))
            if n in ("clamp", "round", "to", "float", "clone", "contiguous") and xs:
                return self.shape(xs[0])
        if t[0] == "bin" and t[1] in "*/":
            return self.shape(t[2])
        return None


def lpbq(ctx):
    """LPBQ encodings: only what the format can express, scales as documented, grouped along the block dimension."""
    f = method(ctx, "lpbq", LPBQ, "generate_lpbq_encoding")
    if f is None:
        return
    name, qp = par(f, 1), par(f, 2)
    outs = list(paths(ctx, f, inline=inline_pkg(EX), models={f"func:{GRAN}.granularity_from_sizes": granularity}))
    for n, scen in SCEN.items():
        fit = scen[0] == "PerBlock" and len(scen[1]["block_dims"]) == 1 == len(scen[1]["per_channel_dims"])
        if fit and n not in PAIRS:
            continue
        for o in outs:
            if any(truth(c, scen) not in (None, b) for c, b in o.st.conds):
                continue
            sym = bits = None
            for c, b in (norm(*x) for x in o.st.conds):
                if c == ("attr", qp, "is_symmetric") or c[0] == "cmp" and c[1] in ("is", "==") and c[2] == ("attr", qp, "is_symmetric") and c[3] in (TRUE, FALSE):
                    sym = b if c[0] != "cmp" or c[3] == TRUE else not b
                elif c[0] == "cmp" and c[1] == "==" and set(c[2:]) == {("attr", qp, "bitwidth"), ("attr", SELF, "compressed_bw")}:
                    bits = b
            for e in o.st.events:
                if e.name == "@granularity":
                    a, b = (unsize(evarg(e, i, x)) for i, x in enumerate(("data_size", "tile_size")))
                    ctx.check("lpbq.refuses", "granularity", a == ("attr", qp, "data_shape") and b == ("attr", qp, "tile_size"), f.loc, f"the granularity is that of {fmt(a)[:60]} in tiles of {fmt(b)[:60]}")
            if o.kind == "raise":
                ctx.check("lpbq.accepts", n, not fit or sym is False or bits is False, f.loc, f"symmetric {n} quantization with the compressed number of bits is refused")
                continue
            if o.kind != "return":
                continue
            ctx.check("lpbq.refuses", n, fit, f.loc, f"{n} quantization is encoded")
            ctx.check("lpbq.refuses", "asymmetric", sym is True, f.loc, "asymmetric quantization is encoded as symmetric")
            ctx.check("lpbq.refuses", "bits", bits is True, f.loc, "quantization with another number of bits is encoded")
            if fit:
                lpbq_entry(ctx, f, o, n, scen, name, qp)
    ctx.floor("lpbq.entry", 1)


def lpbq_entry(ctx, f, o, n, scen, name, qp):
    d = dictionary(o, o.val)
    if d is None:
        ctx.skip("lpbq.entry", n, f"{fmt(o.val)[:80]} was not recognised")
        return
    g = Group(o, qp, scen)
    for k, w in (("name", name), ("dtype", const("INT")), ("enc_type", const("LPBQ"))):
        ctx.check("lpbq.entry", k, d.get(const(k)) == w, f.loc, f"{k} is {fmt(d.get(const(k), NONE))[:60]}")
    ctx.check("lpbq.entry", "is_sym", d.get(const("is_sym")) in (TRUE, ("attr", qp, "is_symmetric")), f.loc, "the encoding is not marked symmetric")
    for k, w in (("compressed_bw", CB), ("bw", DB), ("block_size", BS)):
        t = d.get(const(k))
        ctx.check("lpbq.entry", k, t is not None and g.ev(t) == w, f.loc, f"{k} is {fmt(t)[:60] if t is not None else 'missing'}")

    def inner(k):
        t = d.get(const(k))
        if t is None:
            ctx.check("lpbq.entry", k, False, f.loc, f"{k} is missing")
            return None
        el = elements(o, t)
        if el is None:
            ctx.skip("lpbq.entry", k, f"{fmt(t)[:80]} was not recognised")
            return None
        return el[0]

    top = A.mul(A.atom(("amax", S)), A.inv(A.power(A.num(2), CB)))
    t = inner("scale")
    if t is not None:
        got = g.ev(t)
        ctx.check("lpbq.entry", "scale", got == top, f.loc, f"the scale of a channel is {A.show(got)[:100]}, not its largest scale over 2**compressed_bw")
        grouping(ctx, f, g, n, t)
    t = inner("per_block_int_scale")
    if t is not None:
        x, y, hi = ("param", "@x"), ("param", "@y"), ("bin", "**", const(2), ("attr", SELF, "compressed_bw"))
        a = A.Alg()
        a.leaf = lambda t, w: S if t == x else top if t == y else g.leaf(t, w)
        want = a.ev(("call", ("ext", "torch.clamp"), (("call", ("ext", "torch.round"), (("bin", "/", x, y),), ()), const(1), hi), ()))
        got = g.ev(t)
        ctx.check("lpbq.entry", "per_block_int_scale", got == want, f.loc, f"the integer scales are {A.show(got)[:120]} instead of {A.show(want)[:120]}")
        ctx.check("lpbq.entry", "per_block_int_scale integer", contains(t, lambda y: y[0] == "call" and y[1][0] == "attr" and (y[1][2] in ("int", "long") or y[1][2] == "to" and y[2] and y[2][0][0] == "ext" and "int" in y[2][0][1])), f.loc, "the integer scales are not integers")
    t = d.get(const("offset"))
    off = A.scale(A.power(A.num(2), A.sub(DB, A.ONE)), Fraction(-1))
    if t is None:
        ctx.check("lpbq.entry", "offset", False, f.loc, "the offsets are missing")
    elif t[0] == "bin" and t[1] == "*":
        l, k = (t[2], t[3]) if t[2][0] == "list" else (t[3], t[2])
        got = g.ev(l)
        ctx.check("lpbq.entry", "offset", got == off, f.loc, f"the offset is {A.show(got)[:80]} instead of {A.show(off)[:80]}")
        ctx.check("lpbq.entry", "offset per scale", k == ("call", ("builtin", "len"), (d.get(const("scale")),), ()) or k[0] == "call" and meth(k, "numel") is not None and g.ev(meth(k, "numel")) == top or not contains(k, lambda y: y == ("attr", qp, "scale")) and g.ev(k) == g.dim(scen[1]["per_channel_dims"][0]), f.loc, f"there are {fmt(k)[:80]} offsets, not one per scale")
    else:
        el = elements(o, t)
        if el is None:
            ctx.skip("lpbq.entry", "offset", f"{fmt(t)[:80]} was not recognised")
        else:
            got = g.ev(el[0])
            ctx.check("lpbq.entry", "offset", got == off, f.loc, f"the offset is {A.show(got)[:80]} instead of {A.show(off)[:80]}")


def grouping(ctx, f, g, n, t):
    """The largest scale is taken over the blocks of one channel."""
    m = g.top
    if m is None:
        ctx.skip("lpbq.grouping", n, "the reduction was not recognised")
        return
    _, xs, kw = g.a.op(m)
    sh = g.shape(xs[0])
    d = kw.get("dim", kw.get("axis", xs[1] if len(xs) > 1 else None))
    ax = g.ints(d) if d is not None else list(range(len(sh or ())))
    if sh is None or ax is None:
        ctx.skip("lpbq.grouping", n, f"{fmt(m)[:80]} was not recognised")
        return
    (b,), (c,) = g.scen[1]["block_dims"], g.scen[1]["per_channel_dims"]
    blocks, chans = A.atom(("//", g.dim(b), BS)), g.dim(c)
    ax = {i % len(sh) for i in ax}
    order = [x for x in sh if x != A.ONE]
    ctx.check("lpbq.grouping", f"layout {n}", order == ([chans, blocks] if c < b else [blocks, chans]), f.loc, f"for {n} the scales are laid out as {[A.show(x)[:40] for x in order]}")
    red = [x for i, x in enumerate(sh) if i in ax and x != A.ONE]
    ctx.check("lpbq.grouping", f"reduced {n}", red == [blocks], f.loc, f"for {n} the largest scale is taken over {[A.show(x)[:40] for x in red]}, not over the blocks of a channel")


def config(ctx):
    """LPBQ configurations that cannot be expressed are refused, others are not."""
    c = ctx.p.classes.get(LPBQ)
    if c is None:
        return
    fs = [g for g in (ctx.p.find_method(LPBQ, "__new__"), ctx.p.find_method(LPBQ, "__init__"), ctx.p.find_method(LPBQ, "__post_init__")) if g is not None]
    bounds = []
    for g in fs:
        for o in paths(ctx, g, inline=inline_pkg(EX)):
            if o.kind == "raise":
                bounds.append([(c, b) for c, b in (norm(*x) for x in o.st.conds)])
    if not bounds:
        ctx.skip("lpbq.config", "refusals", "no check of the configuration was recognised")
        return
    names = {"compressed_bw": ("param", "compressed_bw"), "decompressed_bw": ("param", "decompressed_bw")}

    def refused(cb, db):
        env = {("param", "compressed_bw"): cb, ("param", "decompressed_bw"): db, ("attr", SELF, "compressed_bw"): cb, ("attr", SELF, "decompressed_bw"): db}

        def val(t):
            if t in env:
                return env[t]
            if t[0] == "const":
                return t[2]
            raise Unknown

        def ok(c, b):
            if c[0] == "cmp" and c[1] in ("<", "<=", "=="):
                x, y = val(c[2]), val(c[3])
                return {"<": x < y, "<=": x <= y, "==": x == y}[c[1]] == b
            raise Unknown

        return any(all(ok(c, b) for c, b in cs) for cs in bounds)

    try:
        # a representative of every region the linear comparisons with these constants distinguish
        for (cb, db), want in {(4, 8): False, (1, 2): False, (8, 16): False, (8, 32): False, (1, 32): False, (7, 8): False, (0, 8): True, (-1, 8): True, (4, 0): True, (-2, -1): True, (8, 8): True, (5, 4): True, (9, 16): True, (4, 33): True, (9, 33): True}.items():
            ctx.check("lpbq.config", f"{cb} in {db} bits", refused(cb, db) == want, fs[0].loc, f"scales of {cb} in {db} bits are {'accepted' if want else 'refused'}")
    except Unknown:
        ctx.skip("lpbq.config", "refusals", "a condition was not recognised")
    del names


ONNX = f"{EX}.stages.onnx.onnx_export_stages"
ANN = f"{EX}.stages.annotations"
PASS = f"{EX}.stages.passes"
IMPL = "fastforward.quantization._quantizer_impl"


def operands(ctx, name):
    """Names of the operands of a custom operator, in order."""
    for q, f in ctx.p.funcs.items():
        for d in getattr(f.node, "decorator_list", ()):
            if isinstance(d, ast.Call) and d.args and isinstance(d.args[0], ast.Constant) and d.args[0].value == f"fastforward::{name}" and ast.unparse(d.func).endswith("quant_operator"):
                return list(f.params())
    return None


def members(ctx, t):
    """Names of the objects in a (module-level) collection."""
    if t[0] in ("tuple", "list", "set"):
        return {ref_name(x) for x in t[1:]}
    if t[0] == "global":
        m = ctx.p.modules.get(t[1].rpartition(".")[0])
        b = m.env.get(t[1].rpartition(".")[2]) if m else None
        if b and b[0] == "expr":
            e = b[1]
            while isinstance(e, ast.Call) and len(e.args) == 1:
                e = e.args[0]
            if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
                return {ref_name(r) if (r := ctx.p.resolve_expr(m, x)) is not None else ast.unparse(x) for x in e.elts}
    return None


def kinds_of(ctx, o, target):
    """(is quantize, is dequantize) as far as the path knows."""
    q = d = None
    for c, b in (norm(*x) for x in o.st.conds):
        if c[0] != "cmp" or c[2] != target and c[3] != target:
            continue
        ms = None
        if c[1] in ("==", "is"):
            ms = {ref_name(c[3] if c[2] == target else c[2])}
        elif c[1] == "in":
            ms = members(ctx, c[3])
        if ms is None:
            continue
        hq = any(x.endswith(".quantize_by_tile.default") for x in ms)
        hd = any(x.endswith(".dequantize_by_tile.default") for x in ms)
        if b and hq and not hd:
            q, d = True, False
        elif b and hd and not hq:
            q, d = False, True
        elif not b:
            q = False if hq else q
            d = False if hd else d
    return q, d


SHAPELESS = {"tuple", "list", "int", "float", "bool", "iter"}


def peel(t):
    """A value without the conversions that keep its content."""
    while True:
        if t[0] == "call" and t[1][0] == "builtin" and t[1][1] in SHAPELESS and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "call" and ref_name(t[1]) in ("ext:json.loads", "ext:json.dumps", "ext:torch.Size", "ext:torch.tensor", "ext:torch.as_tensor") and t[2]:
            t = t[2][0]
        elif t[0] == "call" and ref_name(t[1]) == "ext:typing.cast" and len(t[2]) == 2:
            t = t[2][1]
        elif t[0] == "call" and ref_name(t[1]).endswith((".ensure_tensor", "._parse_metadata_literal")) and t[2]:
            t = t[2][0]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in LAYOUT | {"lower", "strip"}:
            t = t[1][1]
        elif t[0] == "comp" and len(t[3]) == 1 and not t[3][0][1] and peel(t[2]) == ("elem", t[3][0][0]):
            t = t[3][0][0]
        elif t[0] == "call" and t[1] == ("builtin", "map") and len(t[2]) == 2 and t[2][0] == ("builtin", "int"):
            t = t[2][1]
        else:
            return t


def key_of(t, M):
    """The metadata key a term reads."""
    t = peel(t)
    if t[0] == "item" and t[1] == M and t[2][0] == "const":
        return t[2][2]
    if t[0] == "call" and meth(t, "get") == M and t[2] and t[2][0][0] == "const":
        return t[2][0][2]
    return None


def written(ctx):
    """What each metadata key holds: (key -> field of the specification, paths)."""
    f = method(ctx, "metadata.write", f"{ONNX}.OnnxQuantMetadataAnnotator", "_apply_quant_spec_metadata")
    if f is None:
        return None
    item, spec = par(f, 1), par(f, 2)
    out = {}
    for o in normals(paths(ctx, f, inline=inline_pkg(EX))):
        M = ("attr", item, "metadata_props")
        got = {}
        for e in o.st.events:
            if e.kind == "setitem" and e.obj == M and e.args[0][0] == "const":
                got[e.args[0][2]] = e.value
            elif e.kind == "call" and e.obj == M and e.name == "method:.update" and e.args:
                got.update({k[2]: v for k, v in (dictionary(o, e.args[0]) or {}).items() if k[0] == "const"})
        has = fact(o, lambda c: c[0] == "call" and c[1] == ("builtin", "hasattr") and c[2][:1] == (item,))
        if not got:
            ctx.check("metadata.write", "written", has is False, f.loc, "no metadata is written")
            continue
        fields = {}
        for k, v in got.items():
            p = peel(v)
            if p[0] == "attr" and p[1] == spec:
                fields[k] = p[2]
            elif p[0] != "const":
                ctx.check("metadata.write", "values", False, f.loc, f"{k} is written as {fmt(v)[:80]}")
        for k, n in fields.items():
            out.setdefault(k, n)
            ctx.check("metadata.write", f"{n}", out[k] == n, f.loc, f"{k} holds different things")
        for n in ("scale", "offset", "num_bits", "symmetric"):
            ctx.check("metadata.write", n, n in fields.values(), f.loc, f"{n} is not written")
        missing = any(c[0] == "cmp" and c[1] == "is" and c[3] == NONE and c[2] in (("attr", spec, "data_shape"), ("attr", spec, "tile_size")) and b for c, b in (norm(*x) for x in o.st.conds))
        for n in ("data_shape", "tile_size"):
            ctx.check("metadata.write", n, missing or n in fields.values(), f.loc, f"{n} is not written although it is known")
        for n in set(fields.values()):
            ctx.check("metadata.write", f"{n} once", sum(x == n for x in fields.values()) == 1, f.loc, f"{n} is written under several keys")
    return out


def spec_paths(ctx):
    """Fields of the specification of a quantize node per path, with the polarity of 'all offsets are zero'."""
    f = fun(ctx, "metadata.spec", f"{ANN}._ff_quantizer_spec")
    ops = operands(ctx, "quantize_by_tile")
    if f is None or ops is None:
        ctx.skip("metadata.spec", "operands", "the operator was not found")
        return []
    node, qp = par(f, 0), par(f, 1)
    pos = {n: ("item", ("attr", node, "args"), const(i)) for i, n in enumerate(ops)}
    off = ("item", qp, ("attr", pos["offset"], "target"))
    sca = ("item", qp, ("attr", pos["scale"], "target"))
    out = []
    for o in normals(paths(ctx, f, inline=inline_pkg(EX))):
        if o.val[0] != "call":
            ctx.skip("metadata.spec", "result", f"{fmt(o.val)[:80]} was not recognised")
            continue
        a = A.Alg()

        def leaf(t, w, a=a):
            if t == sca:
                return S
            if t == off:
                return O
            if t == pos["num_bits"]:
                return B
            if t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("int", "float") and len(t[2]) == 1:
                return a.ev(t[2][0])
            return None

        a.leaf = leaf
        v = Vals(o, NONE)
        v.__class__ = type("SpecVals", (Vals,), {"__call__": lambda self, t: a.ev(t)})
        v.off = O
        zero = None
        for c, b in o.st.conds:
            c, b = norm(c, b)
            if c[0] == "cmp" and c[1] == "==" and a.ev(c[2]) == O and a.ev(c[3]) == A.ZERO:
                zero = b
                break
            r = v.sym(c)
            if r is not None:
                zero = r == b
                break
        flds = dict(o.val[3]) | dict(zip(class_fields(ctx, o.val[1]), o.val[2]))
        tgt, _ = kinds_of(ctx, o, ("attr", node, "target"))
        ctx.check("metadata.spec", "operator", tgt is True, f.loc, "another operator is taken for quantization")
        ctx.check("metadata.spec", "scale", "scale" in flds and a.ev(flds["scale"]) == S, f.loc, f"the scale is {fmt(flds.get('scale', NONE))[:80]}")
        ctx.check("metadata.spec", "num_bits", "num_bits" in flds and a.ev(flds["num_bits"]) == B, f.loc, f"the number of bits is {fmt(flds.get('num_bits', NONE))[:80]}")
        t = flds.get("tile_size", NONE)
        ctx.check("metadata.spec", "tile_size", t == NONE or peel(t) == pos["tile_size"], f.loc, f"the tile size is {fmt(t)[:80]}")
        t = flds.get("data_shape", NONE)
        if t != NONE:
            ok = contains(t, lambda x: x == ("attr", pos["data"] if "data" in pos else pos[ops[0]], "meta")) and "tensor_meta" in repr(t)
            x = peel(t)
            while x[0] in ("call", "attr", "item", "elem"):
                if x[0] == "call" and x[1] == ("builtin", "getattr") and x[2][1] == const("shape"):
                    break
                if x[0] == "attr" and x[2] == "shape":
                    break
                x = NONE
            ctx.check("metadata.spec", "data_shape", ok and x != NONE, f.loc, f"the shape is {fmt(t)[:80]}")
        whole = [b for c, b in (norm(*x) for x in o.st.conds) if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "is_integer" and a.ev(c[1][1]) == B]
        if False in whole:
            ctx.check("metadata.spec", "whole bits", False, f.loc, "a number of bits that is no integer is annotated")
        if zero is None and any(c[0] == "isinstance" and c[1] == off and c[2] == ("ext", "torch.Tensor") and not b for c, b in (norm(*x) for x in o.st.conds)):
            continue  # parameters are tensors
        if zero is None and v.mixed:
            ctx.check("metadata.spec", "symmetric", False, f.loc, "one zero offset makes the specification symmetric")
            continue
        if zero is None:
            ctx.skip("metadata.spec", "symmetric", "the test for symmetry was not recognised")
            continue
        t = flds.get("symmetric", NONE)
        u, p = norm(t, True)
        while u[0] == "call" and u[1] == ("builtin", "bool"):
            u = u[2][0]
        said = t == TRUE if t in (TRUE, FALSE) else zero if (v.sym(u) is p or u[0] == "cmp" and u[1] == "==" and a.ev(u[2]) == O and p) else None
        ctx.check("metadata.spec", "symmetric", said is zero, f.loc, f"the specification is symmetric if {fmt(t)[:80]}")
        out.append((zero, flds, a.ev(flds["offset"]) if "offset" in flds else None, f))
    ctx.check("metadata.spec", "both cases", {z for z, *_ in out} == {True, False} or not out, f.loc, "symmetric and asymmetric quantization are not told apart")
    # complete inputs give shapes
    if out:
        ctx.check("metadata.spec", "shapes known", any(fl.get("data_shape", NONE) != NONE and fl.get("tile_size", NONE) != NONE for _, fl, _, _ in out), f.loc, "shapes are never recorded")
    return out


def class_fields(ctx, c):
    q = c[1] if c[0] == "class" else None
    return list(ctx.p.fields(q)) if q in ctx.p.classes else []


def metadata(ctx):
    """Reading the metadata that was written for a quantizer gives the parameters of the quantizer."""
    W = written(ctx)
    specs = spec_paths(ctx)
    f = fun(ctx, "metadata.read", f"{ONNX}._quant_params_from_metadata_props")
    if f is None or not W or not specs:
        return
    M = par(f, 0)
    req = {k for k, n in W.items() if n in ("scale", "offset", "num_bits", "symmetric")}
    for o in paths(ctx, f, inline=inline_pkg(EX)):
        cs = [norm(*x) for x in o.st.conds]
        absent = {c[2][2] for c, b in cs if c[0] == "cmp" and c[1] == "in" and c[3] == M and c[2][0] == "const" and not b} | {key_of(c[2], M) for c, b in cs if c[0] == "cmp" and c[1] == "is" and c[3] == NONE and b and key_of(c[2], M)}
        present = {c[2][2] for c, b in cs if c[0] == "cmp" and c[1] == "in" and c[3] == M and c[2][0] == "const" and b}
        if absent - set(W):
            ctx.check("metadata.read", "keys", False, f.loc, f"{sorted(absent - set(W))} is needed but never written")
            continue
        if absent & req:
            ctx.check("metadata.read", "incomplete", o.kind == "return" and o.val == NONE, f.loc, "incomplete metadata is taken for an encoding")
            continue
        if any(c[0] == "isinstance" and key_of(c[1], M) and (W.get(key_of(c[1], M)) == "symmetric" and c[2] == ("builtin", "str") and b or W.get(key_of(c[1], M)) in ("data_shape", "tile_size") and c[2] == ("builtin", "list") and not b) for c, b in cs):
            continue  # not what the writer writes
        sym = None
        for c, b in cs:
            k = key_of(c, M)
            if k and W.get(k) == "symmetric":
                sym = b
            elif c[0] == "cmp" and c[1] in ("==", "is") and c[3] in (TRUE, FALSE) and W.get(key_of(c[2], M)) == "symmetric":
                sym = b == (c[3] == TRUE)
        if o.kind == "raise":
            size = any(c[0] == "cmp" and sum("numel" in repr(x) or "len" in repr(x) or "shape" in repr(x) for x in c[2:]) == 2 for c, b in cs)
            ctx.check("metadata.read", "refused", size, f.loc, "complete metadata is refused")
            continue
        if o.kind != "return":
            continue
        d = dictionary(o, o.val)
        if o.val == NONE:
            ctx.check("metadata.read", "complete", False, f.loc, "complete metadata is not taken for an encoding")
            continue
        if d is None:
            ctx.skip("metadata.read", "result", f"{fmt(o.val)[:80]} was not recognised")
            continue
        d = {k[2]: v for k, v in d.items() if k[0] == "const"}
        for n in ("num_bits", "scale"):
            t = d.get(n, NONE)
            ctx.check("metadata.read", n, W.get(key_of(t, M)) == n, f.loc, f"{n} is read from {fmt(t)[:80]}")
        for n in ("data_shape", "tile_size"):
            t = d.get(n, NONE)
            known_ = not (absent & {k for k, x in W.items() if x in ("data_shape", "tile_size")})
            ctx.check("metadata.read", n, t == NONE and not known_ or W.get(key_of(t, M)) == n, f.loc, f"{n} is read from {fmt(t)[:80]}")
        for zero, flds, off, g in specs:
            if sym is not None and sym != zero or off is None:
                continue
            a = A.Alg()

            def leaf(t, w, a=a, off=off):
                k = W.get(key_of(t, M)) if t[0] in ("item", "call") else None
                if k:
                    return {"offset": off, "scale": S, "num_bits": B}.get(k)
                p = peel(t)
                return a.ev(p) if p != t else None

            a.leaf = leaf
            got = a.ev(d.get("offset", NONE))
            ok = got == O or zero and got in (A.ZERO, O)
            ctx.check("metadata.roundtrip", "offset symmetric" if zero else "offset", ok, f.loc, f"a quantizer with {'all offsets zero' if zero else 'offset o'} is read back with offset {A.show(got)[:100]}")
        del present
    for r in ("metadata.write", "metadata.read", "metadata.roundtrip", "metadata.spec"):
        ctx.floor(r, 2)


def skey(t):
    return t[0] == "const" and t[2] == "__FF_QUANTIZATION_SPEC"


def settled(o, atom):
    """Truth of each atomic fact the conditions of a path settle (as a propositional problem)."""
    names, seen = [], set()

    def find(t):
        if isinstance(t, tuple) and t and t not in seen:
            seen.add(t)
            a = atom(t) if len(t) == 4 else None
            if a is not None and a not in names:
                names.append(a)
            for x in t:
                find(x)

    def value(t, w):
        t, pos = norm(t, True)
        a = atom(t) if len(t) == 4 else None
        if a is not None:
            return w[a] == pos
        if t in (TRUE, FALSE):
            return (t == TRUE) == pos
        if t[0] == "cmp" and t[1] in ("==", "is", "!="):
            x, y = value(t[2], w), value(t[3], w)
            return None if x is None or y is None else (x == y) == pos
        if t[0] == "not":
            x = value(t[1], w)
            return None if x is None else (not x) == pos
        if t[0] in ("and", "or"):
            xs = [value(x, w) for x in t[1:]]
            if None in xs:
                return None
            return (all(xs) if t[0] == "and" else any(xs)) == pos
        return None

    for c, _ in o.st.conds:
        find(c)
    if len(names) > 8:
        return {}
    models = []
    for bits in itertools.product((True, False), repeat=len(names)):
        w = dict(zip(names, bits))
        if all(value(c, w) in (None, b) for c, b in o.st.conds):
            models.append(w)
    return {n: models[0][n] for n in names if models and len({m[n] for m in models}) == 1}


def graph_passes(ctx):
    """Quantizer nodes become annotations of their input; annotations spread over views only and never replace one."""
    # nodes
    f = fun(ctx, "passes.nodes", f"{PASS}._ff_quantization_nodes")
    if f is not None:
        g = par(f, 0)
        N = ("elem", ("attr", g, "nodes"))
        for o in normals(paths(ctx, f, inline=inline_pkg(EX), loop_iters=(1,))):
            q, d = kinds_of(ctx, o, ("attr", N, "target"))
            fn = fact(o, lambda c: c[0] == "cmp" and c[1] == "==" and ("attr", N, "op") in c[2:] and const("call_function") in c[2:])
            ys = [e for e in o.st.events if e.kind == "yield" and e.value == N] or ([1] if o.val[0] != "const" and contains(o.val, lambda x: x == N) else [])
            if q is None and d is None and fn is not False:
                if ys and not any(contains(c, lambda x: x == ("attr", N, "target")) for c, _ in o.st.conds) and not any(e.kind == "loop" and contains(e.obj, lambda x: x[0] == "comp" and x[3][0][1]) for e in o.st.events) and not contains(o.val, lambda x: x[0] == "comp" and x[3][0][1] or x == ("builtin", "filter")):
                    ctx.check("passes.nodes", "others", False, f.loc, "a node that is no quantizer is treated as one")
                    continue
                ctx.skip("passes.nodes", "nodes", "the cases were not recognised")
                continue
            quant = (q is True or d is True) and fn is not False
            ctx.check("passes.nodes", "quantizers" if quant else "others", bool(ys) == quant, f.loc, "a quantizer node is left out" if quant else "a node that is no quantizer is treated as one")
    # parameters
    f = fun(ctx, "passes.parameters", f"{PASS}._ff_quantization_parameters")
    qo, do = operands(ctx, "quantize_by_tile"), operands(ctx, "dequantize_by_tile")
    if f is not None and qo and do:
        m = par(f, 0)
        N = None
        for o in normals(paths(ctx, f, inline=inline_pkg(EX, deny=("_ff_quantization_nodes",)), loop_iters=(1,))):
            N = next((("elem", unwrap(e.obj)) for e in o.st.events if e.kind == "loop" and "_ff_quantization_nodes" in repr(e.obj)), None)
            if N is None:
                ctx.skip("passes.parameters", "nodes", "the loop over quantizer nodes was not recognised")
                continue
            q, d = kinds_of(ctx, o, ("attr", N, "target"))
            if q is not True and d is not True:
                continue
            ops = qo if q else do
            for n in ("scale", "offset"):
                P = ("item", ("attr", N, "args"), const(ops.index(n)))
                none = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[3] == NONE and c[2] == P) is True
                T = ("attr", P, "target")
                sets = [e for e in o.st.events if e.kind == "setitem" and e.args[0] == T]
                if none:
                    continue
                ok = len(sets) == 1 and sets[0].value[0] == "item" and sets[0].value[2] == T
                src = sets[0].value[1] if ok else NONE
                both = all(contains(src, lambda x, k=k: x[0] == "call" and meth(x, k) == m) for k in ("named_parameters", "named_buffers")) or contains(src, lambda x: x[0] == "call" and meth(x, "state_dict") == m)
                ctx.check("passes.parameters", f"{n} of {'quantize' if q else 'dequantize'}", ok and both, f.loc, f"the {n} of the node is not looked up under its own name among parameters and buffers")
    # annotation
    f = method(ctx, "passes.annotate", f"{PASS}.AnnotateFFQuantSpecs", "__call__")
    if f is not None:
        m = par(f, 1)
        for o in normals(paths(ctx, f, inline=inline_pkg(EX, deny=("_ff_quantization_nodes", "_ff_quantization_parameters", "_ff_quantizer_spec")), loop_iters=(1,))):
            N = next((("elem", unwrap(e.obj)) for e in o.st.events if e.kind == "loop" and "_ff_quantization_nodes" in repr(e.obj)), None)
            if N is None:
                ctx.skip("passes.annotate", "nodes", "the loop over quantizer nodes was not recognised")
                continue
            q, d = kinds_of(ctx, o, ("attr", N, "target"))
            X = ("item", ("attr", N, "args"), const(0))
            puts = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "setitem" and skey(e.args[0])]
            if fact(o, lambda c: c[0] == "nonempty" and unwrap(c[1]) == N[1]) is False:
                continue
            if q is None and d is None:
                ctx.skip("passes.annotate", "cases", "the cases were not recognised")
                continue
            if not q and not d:
                continue
            con = "quantize" if q else "dequantize"
            if q:
                ok = len(puts) == 1 and puts[0][1].obj == ("attr", X, "meta")
                ctx.check("passes.annotate", "input annotated", ok, f.loc, "the input of a quantizer is not annotated")
                if ok:
                    v = puts[0][1].value
                    ctx.check("passes.annotate", "own specification", v[0] == "call" and ref_name(v[1]).endswith("._ff_quantizer_spec") and N in (arg(v, 0, "node"),), f.loc, f"the annotation is {fmt(v)[:80]}")
            else:
                ctx.check("passes.annotate", "dequantize", not puts, f.loc, "a dequantize node annotates")
            rep = [k for k, e in enumerate(o.st.events) if e.kind == "call" and e.name == "method:.replace_all_uses_with" and e.obj == N and e.args[:1] == (X,)]
            era = [k for k, e in enumerate(o.st.events) if e.kind == "call" and e.name == "method:.erase_node" and e.obj == ("attr", m, "graph") and e.args == (N,)]
            ctx.check("passes.annotate", f"{con} uses", len(rep) == 1, f.loc, f"users of a {con} node do not get its input")
            ctx.check("passes.annotate", f"{con} erased", len(era) == 1 and (not rep or rep[0] < era[0]), f.loc, f"a {con} node is not removed (after its users)")
    # propagation
    f = method(ctx, "passes.propagate", f"{PASS}.PropagateFFQuantSpecs", "__call__")
    if f is not None:
        for o in normals(paths(ctx, f, inline=inline_pkg(EX), loop_iters=(1,))):
            puts = [e for e in o.st.events if e.kind == "setitem" and skey(e.args[0])]
            vw = [c[1][1] for c, b in (norm(*x) for x in o.st.conds) if c[0] == "attr" and c[2] == "is_view" and c[1][0] == "attr" and c[1][2] == "target" and b]
            has = settled(o, lambda c: c[3][1] if c[0] == "cmp" and c[1] == "in" and skey(c[2]) and c[3][0] == "attr" and c[3][2] == "meta" else None)
            for e in puts:
                T = e.obj[1] if e.obj[0] == "attr" and e.obj[2] == "meta" else NONE
                Sx = e.value[1][1] if e.value[0] == "item" and e.value[1][0] == "attr" and e.value[1][2] == "meta" and skey(e.value[2]) else NONE
                pair = any({T, Sx} == {n, ("item", ("attr", n, "args"), const(0))} for n in vw)
                ctx.check("passes.propagate", "views", pair, f.loc, f"an annotation spreads from {fmt(Sx)[:60]} to {fmt(T)[:60]}, which are not the input and output of a view")
                ctx.check("passes.propagate", "kept", has.get(T) is False, f.loc, "an annotation is replaced by that of another node")
                ctx.check("passes.propagate", "source", has.get(Sx) is True, f.loc, "a node without annotation is read")
            for n in vw:
                x = ("item", ("attr", n, "args"), const(0))
                if n in has and x in has and has[n] != has[x]:
                    ctx.check("passes.propagate", "forward" if has[x] else "backward", len(puts) >= 1, f.loc, "an annotation does not spread over a view")
    for r in ("passes.nodes", "passes.annotate", "passes.parameters", "passes.propagate"):
        ctx.floor(r, 1)


def annotator(ctx):
    """Every kind of item is annotated, with the specification of its own graph node first."""
    C = f"{ONNX}.OnnxQuantMetadataAnnotator"
    f = method(ctx, "annotator.items", C, "annotate")
    G_ = lambda *p: ("attr", ("attr", SELF, "_model"), "graph") if not p else ("attr", G_(), p[0])
    if f is not None:
        want = {"nodes": lambda x: x in (("elem", G_()), ("elem", G_("_nodes"))), "inputs": lambda x: x == ("elem", G_("inputs")), "outputs": lambda x: x == ("elem", G_("outputs")), "initializers": lambda x: x[0] in ("val", "elem") and contains(x, lambda y: y == G_("initializers"))}
        got = {k: set() for k in want}
        for o in normals(paths(ctx, f, inline=inline_pkg(EX, deny=("_annotate_item",)), loop_iters=(1,))):
            items = [e.args[0] for e in o.st.events if api(e, C) == "_annotate_item"]
            for k, p in want.items():
                got[k].add(any(p(unwrap(x)) for x in items))
        for k, v in got.items():
            ctx.check("annotator.items", k, v == {True}, f.loc, f"graph {k} are not annotated")
    f = method(ctx, "annotator.item", C, "_annotate_item")
    if f is not None:
        x = par(f, 1)
        for o in normals(paths(ctx, f, inline=inline_pkg(EX, deny=("_quant_spec_for_onnx_item", "_apply_quant_spec_metadata")))):
            look = [e.value for e in o.st.events if api(e, C) == "_quant_spec_for_onnx_item" and e.args == (x,)]
            put = [e for e in o.st.events if api(e, C) == "_apply_quant_spec_metadata"]
            if not look:
                ctx.skip("annotator.item", "lookup", "the lookup was not recognised")
                continue
            none = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[2] == look[0] and c[3] == NONE)
            if none:
                ctx.check("annotator.item", "unquantized", not put, f.loc, "an item without specification is annotated")
            else:
                ctx.check("annotator.item", "quantized", len(put) == 1 and put[0].args == (x, look[0]), f.loc, "an item with a specification does not get it")
    f = method(ctx, "annotator.lookup", C, "_quant_spec_for_onnx_item")
    if f is not None:
        x = par(f, 1)
        T = ("attr", SELF, "_fx_quant_specs")
        for o in normals(paths(ctx, f, inline=inline_pkg(EX), loop_iters=(1,))):
            has = {c[2]: b for c, b in (norm(*y) for y in o.st.conds) if c[0] == "cmp" and c[1] == "in" and c[3] == T}
            if any(c[0] == "cmp" and c[1] == "is" and c[3] == NONE and b and any(contains(k, lambda y: y == ("attr", c[2], "name")) for k in has) for c, b in (norm(*y) for y in o.st.conds)):
                continue  # the name of a node that is not there
            own = [k for k in has if k[0] == "attr" and k[2] == "name" and contains(k, lambda y: y == const("node")) and contains(k, lambda y: y == x)]
            if o.val == NONE:
                ctx.check("annotator.lookup", "none", not any(has.values()), f.loc, "a specification that was found is not used")
            elif o.val[0] == "item" and o.val[1] == T:
                ctx.check("annotator.lookup", "related", contains(o.val[2], lambda y: y == x) or contains(o.val[2], lambda y: y[0] == "attr" and y[2] == "_fx_node_by_target") and contains(o.val[2], lambda y: y == x), f.loc, f"the specification is that of {fmt(o.val[2])[:80]}")
                ctx.check("annotator.lookup", "present", has.get(o.val[2]) is True, f.loc, "a specification is taken that may not exist")
                node = next((c[2] for c, b in (norm(*y) for y in o.st.conds) if c[0] == "cmp" and c[1] == "is" and c[3] == NONE and not b and contains(c[2], lambda y: y == const("node")) and contains(c[2], lambda y: y == x)), None)
                if node is not None and ("attr", node, "name") not in has:
                    ctx.check("annotator.lookup", "own node first", o.val[2] == ("attr", node, "name"), f.loc, "the specification of the node itself is not looked for first")
                for k in own:
                    if has[k]:
                        ctx.check("annotator.lookup", "own node first", o.val[2] == k, f.loc, f"the specification of {fmt(o.val[2])[:60]} is preferred to that of the node itself")
            else:
                ctx.skip("annotator.lookup", "result", f"{fmt(o.val)[:80]} was not recognised")
    f = method(ctx, "annotator.specs", C, "__init__")
    if f is not None:
        fx = par(f, 2)
        N = ("elem", ("attr", ("attr", fx, "graph"), "nodes"))
        for o in normals(paths(ctx, f, inline=inline_pkg(EX), loop_iters=(1,))):
            has = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and skey(c[2]) and c[3] == ("attr", N, "meta"))
            puts = [e for e in o.st.events if e.kind == "setitem" and e.value == ("item", ("attr", N, "meta"), e.value[2] if e.value[0] == "item" else NONE)]
            if has is None:
                ctx.skip("annotator.specs", "nodes", "the test for annotated nodes was not recognised")
            elif has:
                ctx.check("annotator.specs", "annotated nodes", len(puts) == 1 and puts[0].args[0] == ("attr", N, "name"), f.loc, "the specification of an annotated node is lost")


QP, MD = "_quant_params_from_metadata_props", "_metadata_props_to_dict"


def extraction(ctx):
    """Every annotated item of a model becomes an encoding under its name; only initializers are parameters."""
    f = fun(ctx, "extract", f"{ONNX}.extract_qnn_encodings_from_onnx_proto")
    if f is None:
        return
    m, h = par(f, 0), par(f, 1)
    Gr = ("attr", m, "graph")
    H = f"{SCH}.EncodingSchemaHandler"

    def call_of(e, n):
        return e.kind == "call" and e.obj == h and (e.name.endswith("." + n))

    seen = {"initializer": set(), "input": set(), "node": set(), "output": set()}
    for o in normals(paths(ctx, f, inline=inline_pkg(EX, deny=(QP, MD, "add_encoding", "clear", "build_encodings_dictionary")), loop_iters=(1,))):
        ev = o.st.events
        adds = [(k, e) for k, e in enumerate(ev) if call_of(e, "add_encoding")]
        cl = [k for k, e in enumerate(ev) if call_of(e, "clear")]
        bu = [k for k, e in enumerate(ev) if call_of(e, "build_encodings_dictionary")]
        ctx.check("extract.fresh", "cleared first", len(cl) == 1 and all(cl[0] < k for k, _ in adds), f.loc, "encodings of an earlier model are kept")
        ctx.check("extract.fresh", "built last", len(bu) == 1 and all(k < bu[0] for k, _ in adds), f.loc, "the dictionary is built before all encodings are known")
        ctx.check("extract.fresh", "returned", bool(bu) and contains(o.val, lambda x: x == ev[bu[0]].value), f.loc, f"{fmt(o.val)[:80]} is returned")
        for k in seen:
            X = ("elem", ("attr", Gr, k))
            P = None
            for e in ev:
                if e.kind == "call" and e.name.endswith("." + QP) and contains(e.value, lambda x: x == X):
                    P = e.value
            mine = [e for _, e in adds if contains(("x", *e.args, *[v for _, v in e.kwargs]), lambda x: x == X)]
            none = None if P is None else fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and c[2] == P and c[3] == NONE)
            if k == "input":
                ini = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == ("attr", X, "name") and contains(c[3], lambda x: x == ("attr", Gr, "initializer")))
                if ini is None and mine and not any(e.kind == "loop" and contains(e.obj, lambda x: x[0] == "comp" and x[3][0][1] and contains(("x", *[c for c, _ in x[3][0][1]]), lambda y: y == ("attr", Gr, "initializer"))) for e in ev):
                    ini = True
                if ini:
                    ctx.check("extract.items", "initializers among inputs", not mine, f.loc, "an initializer that is listed as input becomes an activation")
                    continue
            if none is not False:
                ctx.check("extract.items", f"{k} without metadata", not mine, f.loc, f"{k} without metadata gets an encoding")
                continue
            names = {("attr", X, "name")} if k != "node" else {("elem", ("attr", X, "output"))}
            ok = len(mine) == 1 and evarg(mine[0], 0, "name") in names
            seen[k].add(ok)
            ctx.check("extract.items", k, ok, f.loc, f"an annotated {k} does not get an encoding under its name")
            if mine:
                ctx.check("extract.items", f"{k} parameters", all(evarg(e, 1, "encoding") == P for e in mine), f.loc, f"an annotated {k} gets other parameters")
                ctx.check("extract.items", f"{k} kind", all(evarg(e, 2, "is_param") == (TRUE if k == "initializer" else FALSE) for e in mine), f.loc, f"an annotated {k} is exported as {'activation' if k == 'initializer' else 'parameter'}")
    for k, v in seen.items():
        ctx.check("extract.items", f"{k} reached", True in v, f.loc, f"annotated {k}s are not looked at")
    f = fun(ctx, "extract.metadata", f"{ONNX}.{MD}")
    if f is not None:
        x = par(f, 0)
        M = ("attr", x, "metadata_props")
        for o in normals(paths(ctx, f, inline=inline_pkg(EX), loop_iters=(1,))):
            if fact(o, lambda c: c[0] == "call" and c[1] == ("builtin", "hasattr") and c[2] == (x, const("metadata_props"))) is False:
                continue
            if fact(o, lambda c: c[0] == "isinstance" and c[1] == M):
                ok = contains(o.val, lambda y: y == ("pair", ("call", ("builtin", "str"), (("key", M),), ()), ("call", ("builtin", "str"), (("val", M),), ())) or y == ("pair", ("key", M), ("val", M))) or copied(o.val) == (M, True)
                ctx.check("extract.metadata", "mapping", ok, f.loc, f"metadata is read as {fmt(o.val)[:80]}")
            elif all(b for c, b in (norm(*y) for y in o.st.conds) if c[0] == "call" and c[1] == ("builtin", "hasattr")):
                E = ("elem", M)
                if any(e.kind == "endloop" and e.name == "break" and unwrap(e.obj) == M for e in o.st.events):
                    ctx.check("extract.metadata", "entries", False, f.loc, "only the first metadata entry is read")
                    continue
                ps = [e for e in o.st.events if e.kind == "setitem" and strip_str(e.args[0]) == ("attr", E, "key") and strip_str(e.value) == ("attr", E, "value")]
                ok = len(ps) == 1 or contains(o.val, lambda y: y[0] == "pair" and strip_str(y[1]) == ("attr", E, "key") and strip_str(y[2]) == ("attr", E, "value"))
                ctx.check("extract.metadata", "entries", ok, f.loc, "a metadata entry is lost or changed")
    ctx.floor("extract.items", 4)
    del H


def strip_str(t):
    while t[0] == "call" and t[1] == ("builtin", "str") and len(t[2]) == 1:
        t = t[2][0]
    return t


def copier(ctx):
    """Metadata of every kind of item is copied to the item of the same name."""
    C = f"{ONNX}.OnnxIrToProtoMetadataCopier"
    f = method(ctx, "copy.items", C, "copy")
    if f is not None:
        P = ("attr", ("attr", SELF, "_proto"), "graph")
        R = ("attr", ("attr", SELF, "_ir_model"), "graph")
        src = {"initializer": ("attr", R, "initializers"), "node": R, "input": ("attr", R, "inputs"), "output": ("attr", R, "outputs")}
        got = {k: set() for k in src}
        for o in normals(paths(ctx, f, inline=inline_pkg(EX, deny=("_copy_metadata",)), loop_iters=(1,))):
            for k, it in src.items():
                X = ("elem", ("attr", P, k))
                calls = [e for e in o.st.events if e.kind == "call" and e.name.endswith("._copy_metadata") and e.args[-1:] == (X,)]
                hit = [(c[3], b) for c, b in (norm(*y) for y in o.st.conds) if c[0] == "cmp" and c[1] == "in" and c[2] == ("attr", X, "name")]
                if hit and not hit[0][1]:
                    ctx.check("copy.items", f"{k} unknown", not calls, f.loc, f"{k} gets metadata of an item with another name")
                    continue
                if not hit and not calls:
                    got[k].add(False)
                    continue
                ok = len(calls) == 1
                got[k].add(ok)
                if ok:
                    s = calls[0].args[0]
                    D = s[1] if s[0] == "item" and s[2] == ("attr", X, "name") else None
                    if D is None:
                        ctx.skip("copy.items", k, f"{fmt(s)[:80]} was not recognised")
                        continue
                    good = D[0] == "comp" and D[2][0] == "pair" and D[2][1] == ("attr", D[2][2], "name") and unval(D[2][2]) == it
                    if D[0] == "comp" or D == it:
                        ctx.check("copy.items", f"{k} source", good or D == it, f.loc, f"{k} gets the metadata of {fmt(D)[:80]}")
                    else:
                        ctx.skip("copy.items", k, f"{fmt(D)[:80]} was not recognised")
        for k, v in got.items():
            ctx.check("copy.items", k, v == {True}, f.loc, f"metadata of graph {k}s is not copied")
    f = ctx.p.find_method(C, "_copy_metadata") if C in ctx.p.classes else None
    if f is not None:
        ps = f.params()
        a, b = ("param", ps[-2]), ("param", ps[-1])
        M, D = ("attr", a, "metadata_props"), ("attr", b, "metadata_props")
        for o in normals(paths(ctx, f, inline=inline_pkg(EX), loop_iters=(1,))):
            if any(not b_ for c, b_ in (norm(*y) for y in o.st.conds)):
                continue
            new = [e.value for e in o.st.events if e.kind == "call" and e.name == "method:.add" and e.obj == D]
            st = {(e.obj, e.name): e.value for e in o.st.events if e.kind == "setattr"}
            ok = any(st.get((n, "key")) == ("key", M) and st.get((n, "value")) == ("val", M) for n in new) or any(e.kind == "call" and e.name == "method:.add" and e.obj == D and dict(e.kwargs) == {"key": ("key", M), "value": ("val", M)} for e in o.st.events)
            ctx.check("copy.entries", "entries", ok, f.loc, "an entry is not copied as it is")


def unval(t):
    """The collection an element or value comes from."""
    t2 = t[1] if t[0] in ("elem", "val") else NONE
    while t2[0] == "call" and meth(t2, "values") is not None:
        t2 = meth(t2, "values")
    return t2
