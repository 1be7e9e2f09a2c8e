"""Saving and loading quantization state.  The writer is interpreted for an arbitrary group of names
that share an arbitrary quantizer, which gives the stored keys and the per-quantizer index as string
templates; the reader is then interpreted on exactly these templates (splitting them at their literal
parts), so that both must agree whatever the format.  Policies, validation and the treatment of tied
weights are decided from the path conditions of every effect."""
from __future__ import annotations

import re

from .common import *
from .e02 import pieces

ASSUMPTIONS = [
    "names of modules and parameters do not contain the separators of the stored index (',', '=', '::')",
    "safetensors and yaml store and return what they are given; state_dict and load_state_dict of torch modules are inverse",
    "named_quantizers enumerates as decided by B06",
]
SL = "fastforward.quantization.save_load"
SER = "fastforward.serialization"
NQ = "fastforward.nn.quantized_module.named_quantizers"
QZ, STUB = "fastforward.nn.quantizer.Quantizer", "fastforward.nn.quantizer.QuantizerStub"
K, F, CFG, META, MAN = (("param", "@" + x) for x in ("key", "first", "config", "meta", "manifest"))
SAME_DATA = ("detach", "contiguous", "cpu", "clone", "to")


def text(parts):
    """A string term from literal and symbolic parts."""
    res = []
    for p in parts:
        if isinstance(p, str) and res and isinstance(res[-1], str):
            res[-1] += p
        elif p != "":
            res.append(p)
    if not res:
        return const("")
    if len(res) == 1:
        return const(res[0]) if isinstance(res[0], str) else res[0]
    return ("fstr",) + tuple(const(p) if isinstance(p, str) else p for p in res)


def split(parts, sep, limit=-1):
    """Parts of a template between the occurrences of a separator."""
    res, cur, n = [], [], 0
    for p in parts:
        while isinstance(p, str) and sep in p and n != limit:
            a, p = p.split(sep, 1)
            res.append(cur + [a])
            cur, n = [], n + 1
        cur = cur + [p]
    return [text(x) for x in res + [cur]]


def within(t, sub):
    return any(x == sub for x in walk(t))


def is_text(t):
    return t[0] in ("fstr",) or t[0] == "const" and t[1] == "str" or t[0] == "bin" and t[1] == "+" and any(isinstance(p, str) for p in pieces(t))


class SInterp(Interp):
    """Strings are templates of literal and opaque parts; the index that was read is a given template."""

    def __init__(self, proj, index=None, symbols=(), **kw):
        super().__init__(proj, **kw)
        self.index, self.symbols = index, set(symbols)

    def template(self, t):
        return is_text(t) or t in self.symbols

    def item(self, b, key, st):
        if b == META and self.index is not None:
            return self.index
        xs = b[1:] if b[0] in ("list", "tuple") else ()
        if xs and key[0] == "const" and isinstance(key[2], int) and -len(xs) <= key[2] < len(xs):
            return xs[key[2]]
        return super().item(b, key, st)

    def elem(self, it):
        if it[0] == "call" and it[1] == ("builtin", "filter") and len(it[2]) == 2 and it[2][0] == NONE:
            return self.elem(it[2][1])
        return super().elem(it)

    def concrete_items(self, it, s):
        if it[0] == "call" and it[1] == ("builtin", "filter") and len(it[2]) == 2 and it[2][0] == NONE:
            xs = self.concrete_items(it[2][1], s)
            if xs is not None and all(x[0] == "const" or is_text(x) for x in xs):
                return [x for x in xs if x[0] != "const" or x[2]]
            return None
        if it[0] == "call" and it[1] == ("builtin", "sorted") and len(it[2]) == 1:
            return self.concrete_items(it[2][0], s)
        xs = super().concrete_items(it, s)
        if xs is None:
            xs = known(it, s)
        return xs

    def known_items(self, it, st):
        xs = super().known_items(it, st)
        return xs if xs is not None else known(it, st) if it[0] in ("fresh", "dict", "call") else None

    def e_DictComp(self, e, st, f):
        if len(e.generators) == 1:
            import ast

            pair = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
            r = self._comp_known("list", e, [pair], st, f)
            if r is not None and all(o.kind != "value" or all(x[0] == "tuple" and len(x) == 3 for x in o.val[1:]) for o in r):
                return [Out("value", o.st, ("dict",) + tuple(("pair", x[1], x[2]) for x in o.val[1:])) if o.kind == "value" else o for o in r]
        return super().e_DictComp(e, st, f)

    def assign(self, t, v, st, f, n, aug=False):
        import ast

        if isinstance(t, (ast.Tuple, ast.List)) and v[0] in ("list", "tuple") and not any(isinstance(e, ast.Starred) for e in t.elts) and len(t.elts) != len(v) - 1:
            return [Out("raise", st, ("call", ("builtin", "ValueError"), (const("unpack"),), ()))]
        return super().assign(t, v, st, f, n, aug)

    def truth(self, t, st):
        if t[0] == "cmp" and t[1] == "in" and t[2][0] == "const" and isinstance(t[2][2], str) and self.template(t[3]):
            return any(isinstance(p, str) and t[2][2] in p for p in pieces(t[3]))
        if t[0] == "cmp" and t[1] == "==" and self.template(t[2]) and self.template(t[3]):
            a, b = pieces(t[2]), pieces(t[3])
            if a == b:
                return True
            if all(isinstance(p, str) for p in a + b):
                return False
        if t[0] == "cmp" and t[1] in ("<", "<=") and t[2][0] == t[3][0] == "const" and isinstance(t[2][2], int) and isinstance(t[3][2], int):
            return t[2][2] < t[3][2] if t[1] == "<" else t[2][2] <= t[3][2]
        if is_text(t) and any(isinstance(p, str) for p in pieces(t)):
            return True
        if t[0] in ("list", "tuple", "dict"):
            return len(t) > 1
        if t[0] == "fresh" and t[1] in ("dict", "list", "set") and (t, "@cleared") not in st.heap:
            return bool(st.heap.get((t, "@contents"), ()))
        return super().truth(t, st)

    def test_term(self, s, t):
        return super().test_term(s, t)

    def call(self, fn, args, kws, st, f, node, as_cm=False):
        if fn == ("ext", "yaml.load") or fn[0] == "ext" and fn[1].startswith("yaml.") and "load" in fn[1]:
            return self.V(st, CFG)
        if fn == ("ext", "json.load") or fn == ("ext", "json.loads"):
            return self.V(st, MAN)
        if fn[0] == "builtin" and fn[1] == "str" and len(args) == 1 and self.template(args[0]):
            return self.V(st, args[0])
        if fn == ("builtin", "len") and len(args) == 1:
            xs = self.concrete_items(args[0], st)
            if xs is not None:
                return self.V(st, const(len(xs)))
        if fn[0] == "attr":
            b, m = fn[1], fn[2]
            if m == "metadata" and not args:
                return self.V(st, META)
            if m in ("get", "pop") and b in (CFG, MAN, META) and args:
                return self.V(st, self.item(b, args[0], st))
            if self.template(b) and all(a[0] == "const" for a in args) and all(v[0] == "const" for _, v in kws):
                ps = pieces(b)
                a = [x[2] for x in args]
                kw = {k: v[2] for k, v in kws}
                if m == "split" and a and isinstance(a[0], str):
                    return self.V(st, ("list",) + tuple(split(ps, a[0], a[1] if len(a) > 1 else kw.get("maxsplit", -1))))
                if m == "rsplit" and a and isinstance(a[0], str) and len(a) == 1 and not kw:
                    return self.V(st, ("list",) + tuple(split(ps, a[0])))
                if m == "partition" and len(a) == 1:
                    xs = split(ps, a[0], 1)
                    return self.V(st, ("tuple", xs[0], const(a[0] if len(xs) > 1 else ""), xs[1] if len(xs) > 1 else const("")))
                if m in ("endswith", "startswith") and len(a) == 1 and isinstance(a[0], str):
                    p = (ps or [""])[-1 if m == "endswith" else 0]
                    return self.V(st, const(isinstance(p, str) and getattr(p, m)(a[0])))
                if m in ("removesuffix", "removeprefix") and len(a) == 1:
                    i = -1 if m == "removesuffix" else 0
                    ps = list(ps)
                    if ps and isinstance(ps[i], str):
                        ps[i] = getattr(ps[i], m)(a[0])
                    return self.V(st, text(ps))
                if m == "strip" and not a:
                    return self.V(st, b)
            if m == "split" and b[0] == "call" and b[1][0] == "attr" and b[1][2] == "join" and b[1][1] == (args[0] if args else None):
                return self.V(st, b[2][0])
        return super().call(fn, args, kws, st, f, node, as_cm)


def known(it, s):
    """Exact contents of a dictionary view, dictionary or set built on this path."""
    if it[0] == "call" and it[1][0] == "attr" and it[1][2] in ("items", "keys", "values") and not it[2]:
        ps = known_pairs(it[1][1], s)
        if ps is not None:
            return [("tuple",) + p if it[1][2] == "items" else p[it[1][2] == "values"] for p in ps]
    ps = known_pairs(it, s)
    return [k for k, _ in ps] if ps is not None else None


def known_pairs(t, s):
    if t[0] == "dict" and all(x[0] == "pair" for x in t[1:]):
        return list({x[1]: x[1:] for x in t[1:] + s.heap.get((t, "@contents"), ())}.values())
    if t[0] == "fresh" and t[1] == "dict" and (t, "@cleared") not in s.heap:
        c = s.heap.get((t, "@contents"), ())
        if all(x[0] == "pair" for x in c):
            return list({x[1]: (x[1], s.heap.get((t, ("item", x[1])), x[2])) for x in c}.values())
    return None


def entries(t, st):
    """(key, value) pairs stored in a dictionary term on this path."""
    if t[0] == "comp" and t[1] == "dict" and t[2][0] == "pair":
        return [t[2][1:]]
    if t[0] == "dict":
        return [x[1:] for x in t[1:] if x[0] == "pair"] + [e for x in t[1:] if x[0] == "star" for e in entries(x[1], st)] + added(t, st)
    if t[0] == "fresh":
        return added(t, st)
    if t[0] == "call" and t[1] == ("builtin", "dict") and len(t[2]) == 1:
        return entries(t[2][0], st) + added(t, st)
    if t[0] == "bin" and t[1] == "|":
        return entries(t[2], st) + entries(t[3], st)
    return []


def added(t, st):
    res = []
    for x in st.heap.get((t, "@contents"), ()):
        res += [x[1:]] if x[0] == "pair" else entries(x[1], st) if x[0] == "star" else []
    return res


def data(t):
    """The stored parameter, without detaching or copying it."""
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] in SAME_DATA or t[0] == "attr" and t[2] == "data":
        t = t[1][1] if t[0] == "call" else t[1]
    return t


def swap(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(swap(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def interp(ctx, f, index=None, symbols=(), **kw):
    f = ctx.func(f) if isinstance(f, str) else f
    args = kw.pop("args", None)
    kw.setdefault("inline", inline_same_module())
    i = SInterp(ctx.p, index, symbols, merge=False, loop_iters=kw.pop("loop_iters", (1,)), **kw)
    outs = i.run(f, args)
    ctx.analysed.add(f.qual)
    ctx.analysed.update(i.inlined)
    return outs


def check(ctx):
    index = writer(ctx)
    files(ctx)
    reader(ctx, index)
    model_artifact(ctx)
    tied(ctx)
    yaml_objects(ctx)


# ------------------------------------------------------------------ collecting the state
def lazy_fact(o, v, k):
    """Whether the parameter v (under key k) is known to be uninitialized on this path."""
    direct = None
    sets = {}
    for e in o.st.events:
        if e.kind == "call" and e.name in ("method:.add", "method:.append") and e.args[:1] == (k,):
            sets[e.obj] = True
    for c, b in o.st.conds:
        if c[0] == "call" and ref_name(c[1]).endswith("is_lazy") and c[2][:1] == (v,):
            direct = b
        elif c[0] == "isinstance" and c[1] == v and "Uninit" in fmt(c[2]):
            direct = b
    member = None
    for c, b in o.st.conds:
        if c[0] == "cmp" and c[1] == "in" and c[2] == k and c[3][0] == "fresh":
            member = b
            if b != (c[3] in sets):
                return "contradiction"
    return direct if direct is not None else member


def writer(ctx):
    f = ctx.func(f"{SL}._collect_quantizer_state")
    index = {}
    n = 0
    for o in interp(ctx, f, symbols=()):
        con = "collect"
        nq = [e for e in o.st.events if e.kind == "call" and e.name == "func:" + NQ]
        if not nq:
            ctx.skip("save.all-names", con, "the enumeration of quantizers was not recognised")
        for e in nq:
            dup, stubs = evarg(e, 3, "remove_duplicate"), evarg(e, 4, "skip_stubs")
            dup = [v for k, v in e.kwargs if k == "remove_duplicate"] or ([dup] if dup is not None else [])
            ctx.check("save.all-names", con, e.args[:1] == (("param", f.params()[0]),) and dup == [FALSE], e.loc, "a quantizer that is used under several names is saved under one of them only, or not all quantizers of the model are")
            stubs = [v for k, v in e.kwargs if k == "skip_stubs"]
            ctx.check("save.stubs", con, stubs in ([], [TRUE]), e.loc, "stubs are saved like quantizers and would replace quantizers when loading")
        sds = {e.value: e for e in o.st.events if e.kind == "call" and e.name.endswith(".state_dict")}
        if not sds:
            ctx.skip("save.parameters", con, "the quantizer's state is not taken from state_dict")
            continue
        sd, sev = next(iter(sds.items()))
        q = sev.obj
        k, v = ("key", sd), ("val", sd)
        lazy = lazy_fact(o, v, k)
        if lazy == "contradiction":
            continue
        allow = next((b for c, b in o.st.conds if c == ("param", "allow_lazy_params")), None)
        if o.kind == "raise":
            if lazy:
                ctx.check("save.lazy-refused", con, allow is False, f.loc, "uninitialized parameters are refused although they are allowed")
            else:
                ctx.check("save.initialized-accepted", con, lazy is None, f.loc, f"a quantizer without uninitialized parameters is refused: {fmt(o.val)}"[:160])
            continue
        if o.val[0] != "tuple" or len(o.val) != 4:
            ctx.skip("save.parameters", con, "the collected state is not a tuple of three")
            continue
        state, meta, conf = o.val[1:]
        es = entries(state, o.st)
        if lazy:
            ctx.check("save.lazy-refused", con, allow is True, f.loc, "uninitialized parameters are left out of the saved state although they are not allowed")
        mine = [(a, b) for a, b in es if data(b) in (v, ("item", sd, k))]
        ctx.check("save.own-data", con, len(mine) == len(es), f.loc, f"something else than the quantizer's parameter is stored: {fmt(es[0][1]) if es else ''}"[:200])
        ctx.check("save.parameters", f"{con} {'uninitialized' if lazy else 'initialized'}", len(mine) == (0 if lazy else 1), f.loc, "an uninitialized parameter is stored" if lazy else "an initialized parameter is not stored")
        # the index
        ms = entries(meta, o.st)
        ctx.check("save.index", con, len(ms) == 1, f.loc, "a quantizer name gets no entry in the index, or several")
        if len(ms) != 1:
            continue
        name, val = ms[0]
        ns = [a for a, b in entries(conf, o.st) if b == q]
        via = [a for a, b in entries(conf, o.st) if b[0] == "key" and a == ("elem", ("val", b[1])) and q in [k for k, _ in known_pairs(b[1], o.st) or ()]]
        ctx.check("save.config", con, bool(via) or name in ns, f.loc, "the configuration does not hold the quantizer under each of its names")
        n += 1
        tpl = template_of(val, k)
        if tpl is None:
            ctx.skip("save.index", con, f"the index entry {fmt(val)[:120]} was not understood")
            continue
        for key, _ in mine:
            firsts = [p for p in pieces(key) if p != k and not isinstance(p, str)]
            ctx.check("save.unique-key", con, len(firsts) == 1 and pieces(key).count(k) == 1 and any(isinstance(p, str) for p in pieces(key)), f.loc, f"the key {fmt(key)} does not identify quantizer and parameter")
            if len(firsts) == 1:
                ctx.check("save.shared-once", con, not within(firsts[0], name), f.loc, "the parameters of a shared quantizer are stored once per name")
                index["first"] = firsts[0]
                index["key"] = text([F if p == firsts[0] else K if p == k else p for p in pieces(key)])
        index.setdefault("entries", {})[bool(lazy)] = (val, k, tpl)
    ctx.floor("save.index", 1)
    ctx.floor("save.parameters", 2)
    return index


def template_of(val, k):
    """(separator, element template) of a joined index entry."""
    if val[0] == "call" and val[1][0] == "attr" and val[1][2] == "join" and val[1][1][0] == "const" and len(val[2]) == 1:
        src = val[2][0]
        if src[0] == "comp" and not any(i[1] for i in src[3]):
            return val[1][1][2], src[2]
        if src[0] in ("list", "tuple") and len(src) == 2:
            return val[1][1][2], src[1]
        if src[0] == "fresh":
            return None
    return None


# ------------------------------------------------------------------ files
def files(ctx):
    f = ctx.func(f"{SL}._write_quantizer_state")
    COL = f"func:{SL}._collect_quantizer_state"
    for o in interp(ctx, f, inline=inline_same_module(deny=("_collect_quantizer_state",))):
        if o.kind != "return":
            continue
        con = "write"
        col = [e for e in o.st.events if e.kind == "call" and e.name == COL]
        if len(col) != 1:
            ctx.skip("write.state", con, "the state is not collected by the shared collector")
            continue
        res = col[0].value
        st, md, cf = (("item", res, const(i)) for i in range(3))
        ctx.check("write.state", con + " model", col[0].args[:1] == (("param", "model"),) and evarg(col[0], 9, "allow_lazy_params") == ("param", "allow_lazy_params"), col[0].loc, "the collector is not given the model and the lazy option")
        saves = [e for e in o.st.events if e.kind == "call" and e.name.endswith("save_file")]
        ctx.check("write.state", con, len(saves) == 1 and saves[0].args[0] == st, f.loc, "the collected parameters are not written exactly once")
        for e in saves:
            m = evarg(e, 2, "metadata")
            empty = any(c == md and b is False for c, b in o.st.conds)
            ctx.check("write.index", con, m is not None and (m == md or empty or within(m, md)), e.loc, "the index of a quantizer state is not written with it")
            ctx.check("write.readable", con, m != md or any(c in (st, md) and b for c, b in o.st.conds), e.loc, "a state without tensors and index is written as an unreadable file")
        dumps = [e for e in o.st.events if e.kind == "call" and e.name.startswith("ext:yaml.") and "dump" in e.name]
        ctx.check("write.config", con, len(dumps) == 1, f.loc, "the configuration is not written exactly once")
        for e in dumps:
            es = dict(entries(e.args[0], o.st))
            ctx.check("write.config", con + " quantizers", es.get(const("quantizers")) == cf, e.loc, "the quantizers written are not the collected ones")
            nm = es.get(const("name_or_path"))
            ctx.check("write.config", con + " name", nm is not None and within(nm, ("param", "name_or_path")), e.loc, "the model identifier written is not the given one")
            ctx.note(f"version {fmt(es.get(const('version'), NONE))}")
    ctx.floor("write.config", 1)
    written = {}
    for fn in ("save_quantization_state", "save_quantized_model"):
        g = ctx.func(f"{SL}.{fn}")
        for o in interp(ctx, g, inline=no_inline):
            if o.kind != "return":
                continue
            ws = [e for e in o.st.events if e.kind == "call" and e.name == f"func:{SL}._write_quantizer_state"]
            ctx.check("save.writes", fn, len(ws) == 1 and within(ws[0].args[0], ("param", "model")), g.loc, "the quantizer state of the model is not written exactly once")
            for e in ws:
                ctx.check("save.writes", fn + " lazy", evarg(e, 9, "allow_lazy_params") == ("param", "allow_lazy_params"), e.loc, "the lazy option is not passed on")
                written[fn] = evarg(e, 9, "state_filename")
    for fn in ("load_quantization_state", "load_quantized_model"):
        g = ctx.func(f"{SL}.{fn}")
        names = set()
        for o in interp(ctx, g, inline=no_inline):
            for e in o.st.events:
                if e.kind == "call" and e.name == f"func:{SL}._load_quantizer_state_from_files":
                    names.add(last_part(evarg(e, 2, "model_path")))
                    for opt in ("overwrite_policy", "allow_lazy_params"):
                        ctx.check("load.options", f"{fn} {opt}", evarg(e, 9, opt) == ("param", opt), e.loc, f"the option {opt} is not passed on")
                    nm = evarg(e, 9, "expected_name")
                    none = nm is None or nm == NONE
                    off = any(b is False and c[0] != "cmp" and "name" in fmt(c) for c, b in o.st.conds)
                    ctx.check("load.options", f"{fn} name", not none or off, e.loc, "the saved model identifier is not compared with the model's")
                    ctx.check("load.options", f"{fn} model", e.args[:1] == (("param", "model"),), e.loc, "state is loaded into another model")
        w = written.get(fn.replace("load", "save"))
        ctx.check("files.names", fn, w is not None and names == {w}, g.loc, f"the state is written to {fmt(w) if w else None} but read from {', '.join(sorted(fmt(x) for x in names if x))}")


def last_part(t):
    while t is not None and t[0] == "bin" and t[1] == "/":
        t = t[3]
    return t


# ------------------------------------------------------------------ reading
def item_of(t, call, i):
    return t == ("item", call, const(i)) or t[0] == "attr" and t[1] == call and t[2] == ("missing_keys", "unexpected_keys")[i]


def reader(ctx, index):
    f = ctx.func(f"{SL}._load_quantizer_state_from_files")
    QS = ("item", CFG, const("quantizers"))
    N, Q = ("key", QS), ("val", QS)
    cases = {}
    for lazy, (val, k, tpl) in index.get("entries", {}).items():
        sep, elt = tpl
        elt = swap(elt, {k: K, index.get("first", NONE): F})
        cases["uninitialized parameter" if lazy else "parameter"] = ("call", ("attr", const(sep), "join"), (("list", text(pieces(elt))),), ())
    cases["no parameters"] = const("")
    for case, idx in cases.items():
        seen = 0
        for o in interp(ctx, f, index=idx, symbols=(K, F)):
            con = f"load {case}"
            lazy = case.startswith("un")
            loads = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".load_state_dict")]
            allow = next((b for c, b in o.st.conds if c == ("param", "allow_lazy_params")), None)
            if o.kind == "raise" and not loads:
                bad = idx_error(o)
                if bad:
                    ctx.check("load.index", con, False, f.loc, f"an index entry as written cannot be read: {fmt(o.val)[:120]}")
                continue
            if not loads:
                if any(e.kind == "loop" for e in o.st.events) and any(c == QS and b for c, b in o.st.conds):
                    ctx.check("load.index", con, False, f.loc, "the state of a quantizer is not loaded")
                continue
            e = loads[0]
            seen += 1
            ctx.check("load.target", con, e.obj == Q, e.loc, f"state is loaded into {fmt(e.obj)}")
            got = entries(e.args[0], o.st) if e.args else []
            want = {} if case != "parameter" else {K: index.get("key")}
            gk = {a: tensor_key(b) for a, b in got}
            ctx.check("load.index", con, gk == want, e.loc, f"written as {show_map(want)}, read as {show_map(gk)}")
            strict = evarg(e, 1, "strict")
            miss = [b for c, b in o.st.conds if any(item_of(x, e.value, 0) for x in walk(c))]
            unex = [b for c, b in o.st.conds if any(item_of(x, e.value, 1) for x in walk(c))]
            if lazy and allow is not True and o.kind == "return":
                ctx.check("load.lazy-refused", con, False, f.loc, "uninitialized parameters are silently not loaded although they are not allowed")
            elif lazy and allow is False:
                ctx.check("load.lazy-refused", con, o.kind == "raise", f.loc, "uninitialized parameters are accepted although they are not allowed")
            if o.kind == "return" and strict == FALSE:
                ctx.check("load.missing", con, False in miss and True not in miss, e.loc, "parameters of the quantizer that are not in the saved state are silently left as they are")
                ctx.check("load.unexpected", con, False in unex and True not in unex, e.loc, "saved parameters that the quantizer does not have are silently dropped")
                if lazy:
                    t = next((c for c, b in o.st.conds if any(item_of(x, e.value, 0) for x in walk(c))), NONE)
                    ctx.check("load.lazy-allowed", con, any(x[0] == "fresh" or x == K for x in walk(t)), e.loc, "allowed uninitialized parameters are reported as missing")
            elif o.kind == "return":
                ctx.check("load.lazy-allowed", con, not lazy, e.loc, "loading strictly refuses allowed uninitialized parameters")
            if o.kind == "raise" and not lazy and "KeyError" not in fmt(o.val):
                if True not in miss and True not in unex and not placing(o):
                    ctx.check("load.accepts", con, False, f.loc, f"a complete state is refused: {fmt(o.val)[:100]}")
        ctx.check("load.index", f"load {case}", seen > 0, f.loc, "the saved state of a quantizer cannot be loaded")
    validation(ctx, f, index)
    place(ctx, f, N, Q)


def idx_error(o):
    return "unpack" in fmt(o.val)


def placing(o):
    """The path reached the point where quantizers are put in place."""
    return any(c[0] == "isinstance" and "Quantizer" in fmt(c[2]) for c, _ in o.st.conds)


def tensor_key(t):
    t = data(t)
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get_tensor" and len(t[2]) == 1:
        return text(pieces(t[2][0]))
    return t


def show_map(m):
    return "{" + ", ".join(f"{fmt(k)}: {fmt(v) if v else v}" for k, v in m.items()) + "}"


def validation(ctx, f, index):
    for o in interp(ctx, f, index=const(""), symbols=(K, F)):
        if o.kind != "return":
            continue
        ver = [(c, b) for c, b in o.st.conds if within(c, ("item", CFG, const("version")))]
        ctx.check("load.version", "config", any(b and c[0] == "cmp" and c[1] in ("==", "in") and any(x[0] == "const" for x in c[2:]) for c, b in ver), f.loc, "state with an unknown format version is accepted")
        exp = ("param", "expected_name")
        given = next((b for c, b in o.st.conds if c == ("cmp", "is", exp, NONE)), None)
        if given is None:
            given = next((not b for c, b in o.st.conds if c == exp), None)
        nm = [(c, b) for c, b in o.st.conds if within(c, ("item", CFG, const("name_or_path"))) and within(c, exp)]
        if given is False:
            ctx.check("load.name", "config", any(b and c[0] == "cmp" and c[1] == "==" for c, b in nm), f.loc, "state that was saved for another model is accepted")
    ctx.floor("load.version", 1)
    ctx.floor("load.name", 1)


def place(ctx, f, N, Q):
    """Every quantizer is put in its own place, as the overwrite policy says."""
    seen = set()
    POL = ("param", "overwrite_policy")
    for o in interp(ctx, f, index=const(""), symbols=(K, F)):
        con = "place"
        tests = [(c, b) for c, b in o.st.conds if c[0] == "isinstance" and c[2] in (("class", QZ), ("class", STUB))]
        if not tests:
            if o.kind == "return" and any(c == ("item", CFG, const("quantizers")) and b for c, b in o.st.conds):
                ctx.check("place.guard", con, not any(e.kind == "setattr" and e.value == Q for e in o.st.events), f.loc, "a quantizer is put in place without looking at what it replaces")
            continue
        cur = tests[-1][0][1]
        isq = next((b for c, b in tests if c[2] == ("class", QZ)), None)
        stub = next((b for c, b in tests if c[2] == ("class", STUB)), None)
        stub = next((b for c, b in o.st.conds if c[0] == "call" and c[1] == ("attr", cur, "is_stub")), stub)
        sets = [e for e in o.st.events if e.kind == "setattr" and e.value == Q]
        pol = {c[3][2] if c[3][0] == "const" else c[2][2]: b for c, b in o.st.conds if c[0] == "cmp" and c[1] == "==" and POL in c[2:] and any(x[0] == "const" for x in c[2:])}
        if isq is False:
            seen.add("other")
            ctx.check("place.no-quantizer", con, o.kind == "raise" and not sets, f.loc, "something that is no quantizer is replaced or silently accepted")
            continue
        if stub:
            seen.add("stub")
            ctx.check("place.stub", con, o.kind == "return" and len(sets) == 1, f.loc, "a stub is not replaced by the saved quantizer")
        elif stub is None:
            ctx.check("place.guard", con, False, f.loc, "stubs and initialized quantizers are not distinguished")
        elif pol.get("error"):
            seen.add("error")
            ctx.check("place.error", con, o.kind == "raise" and not sets, f.loc, "an initialized quantizer is replaced although the policy is 'error'")
        elif pol.get("skip"):
            seen.add("skip")
            ctx.check("place.skip", con, o.kind == "return" and not sets, f.loc, "an initialized quantizer is not left alone although the policy is 'skip'")
        elif pol.get("overwrite") is False:
            seen.add("illegal")
            ctx.check("place.illegal", con, o.kind == "raise" and not sets, f.loc, "an unknown policy is accepted")
        elif pol.get("overwrite") or (pol.get("error") is False and pol.get("skip") is False):
            seen.add("overwrite")
            ctx.check("place.overwrite", con, o.kind == "return" and len(sets) == 1, f.loc, "an initialized quantizer is not replaced although the policy is 'overwrite'")
        else:
            ctx.check("place.policy", con, not sets, f.loc, "an initialized quantizer is replaced whatever the policy is")
        for e in sets:
            a = e.args[0] if e.name == "@dynamic" else const(e.name)
            want = ("call", ("builtin", "getattr"), (e.obj, a), ())
            same = cur == want or cur[0] == "call" and cur[1] == ("builtin", "getattr") and cur[2][:2] == (e.obj, a)
            ctx.check("place.where", con, same, e.loc, f"{fmt(cur)[:80]} is examined but another attribute is replaced")
            top = e.obj == ("param", "model")
            ok = within(a, N) and within(e.obj, ("param", "model")) and (top or within(e.obj, N))
            ctx.check("place.where", con + " by name", ok, e.loc, "a quantizer is not put in the place it was saved from")
    for k in ("stub", "error", "skip", "overwrite"):
        ctx.check("place.cases", k, k in seen, f.loc, f"no path treats the case '{k}'") if not ctx.viol else None
    ctx.floor("place.stub", 1)


# ------------------------------------------------------------------ weights
def weight_filter(o, t, st):
    """Whether a weight filter excludes exactly names under a quantizer's prefix (names incl. duplicates and stubs)."""
    for x in walk(t):
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "startswith" and len(x[2]) == 1:
            return x[2][0], x[1][1]
    return None, None


def prefixes_ok(o, t, model):
    """The prefixes are 'name.' for every quantizer name, stubs and duplicates included."""
    for c in calls_in(t, "func:" + NQ):
        kw = dict(c[3])
        if c[2][:1] != (model,) or kw.get("remove_duplicate") != FALSE or kw.get("skip_stubs") != FALSE:
            return False
        for x in walk(t):
            if x[0] == "comp":
                ps = pieces(x[2])
                return len(ps) == 2 and ps[1] == "." and within(ps[0], c)
    return None


def model_artifact(ctx):
    g = ctx.func(f"{SL}.save_quantized_model")
    MODEL = ("param", "model")
    SD = ("call", ("attr", MODEL, "state_dict"), (), ())
    keys = {}
    DED, EXP = f"func:{SL}._deduplicate_shared_tensors", f"func:{SL}._expand_shared_tensors"
    for o in interp(ctx, g, inline=inline_same_module(deny=("_write_quantizer_state", "_deduplicate_shared_tensors", "_resolve_name_or_path"))):
        con = "save weights"
        for e in o.st.events:
            if e.kind in ("setattr", "delattr", "inplace") and within(e.obj, MODEL):
                ctx.check("save.untouched", con, False, e.loc, "saving changes the model")
        ctx.check("save.untouched", con, True, g.loc, "")
        if o.kind != "return":
            continue
        ded = [e for e in o.st.events if e.kind == "call" and e.name == DED]
        saves = [e for e in o.st.events if e.kind == "call" and e.name.endswith("save_file")]
        if len(ded) != 1 or len(saves) != 1:
            ctx.check("weights.saved", con, len(saves) == 1, g.loc, "the weights are not written exactly once")
            ctx.check("weights.tied", con, len(ded) == 1, g.loc, "weights that share memory are not stored once")
            continue
        w = ded[0].args[0]
        es = entries(w, o.st)
        conds = set()
        if w[0] == "comp":
            conds = {c for i in w[3] for c in i[1]}
        else:
            conds = set(o.st.conds)
        filt = [(c, b) for c, b in conds if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "startswith"]
        okv = [(a, b) for a, b in es if data(b) == ("val", SD) or data(b)[0] == "item" and data(b)[1] == SD]
        if es:
            ctx.check("weights.saved", con, len(okv) == len(es) == 1 and es[0][0] == ("key", SD), ded[0].loc, "the weights saved are not the entries of the model's state")
        if w[0] == "comp":
            ok = len(filt) == len(conds) == 1 and filt[0][1] is False and filt[0][0][1][1] == ("key", SD)
            ctx.check("weights.filter", con, ok, ded[0].loc, "weights are left out for another reason than belonging to a quantizer")
        for c, b in filt:
            p = prefixes_ok(o, c[2][0], MODEL)
            if p is None:
                ctx.skip("weights.prefixes", con, "the names of quantizers were not recognised")
            else:
                ctx.check("weights.prefixes", con, p, g.loc, "the entries left out are not exactly those under the name of a quantizer or stub")
        if not filt:
            ctx.skip("weights.filter", con, "the selection of weights was not recognised")
        ctx.check("weights.saved", con + " file", saves[0].args[0] == ("item", ded[0].value, const(0)), saves[0].loc, "the weights written are not the selected ones")
        keys["weights"] = last_part(saves[0].args[1])
        dump = [e for e in o.st.events if e.kind == "call" and e.name in ("ext:json.dump", "ext:json.dumps")]
        for e in dump:
            es = entries(e.args[0], o.st)
            keys["tied"] = [a for a, b in es if b == ("item", ded[0].value, const(1))]
            keys["version"] = dict(es).get(const("version"))
    ctx.check("weights.tied", "manifest", len(keys.get("tied", ())) == 1, g.loc, "the names of tied weights are not recorded")
    ctx.floor("weights.saved", 1)
    f = ctx.func(f"{SL}.load_quantized_model")
    n = 0
    for o in interp(ctx, f, inline=inline_same_module(deny=("_load_quantizer_state_from_files", "_expand_shared_tensors"))):
        con = "load weights"
        loads = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".load_state_dict") and e.obj == MODEL]
        if o.kind != "return":
            ctx.check("weights.refused", con, not loads, f.loc, "weights are loaded although the model does not fit")
            continue
        n += 1
        ctx.check("weights.loaded", con, len(loads) == 1, f.loc, "the weights are not loaded into the model exactly once")
        ev = list(o.st.events)
        qs = [i for i, e in enumerate(ev) if e.kind == "call" and e.name == f"func:{SL}._load_quantizer_state_from_files"]
        ctx.check("weights.quantizers", con, len(qs) == 1, f.loc, "the quantizers of the artifact are not restored exactly once")
        ver = [(c, b) for c, b in o.st.conds if within(c, ("item", MAN, const("version")))]
        ctx.check("load.version", "manifest", any(b and c[0] == "cmp" and keys.get("version") in c[2:] for c, b in ver), f.loc, "an artifact with an unknown format version is accepted, or the written version refused")
        if len(loads) != 1:
            continue
        w = loads[0].args[0]
        exp = [e for e in ev if e.kind == "call" and e.name == EXP]
        ctx.check("weights.expanded", con, len(exp) == 1 and w == exp[0].value, loads[0].loc, "tied weights are not restored before loading")
        strict = evarg(loads[0], 1, "strict")
        if exp:
            ctx.check("weights.expanded", con + " names", keys.get("tied") and exp[0].args[1] == ("item", MAN, keys["tied"][0]), exp[0].loc, "the names of tied weights are read from another entry than they were written to")
            src = entries(exp[0].args[0], o.st)
            okk = len(src) == 1 and data(src[0][1])[0] == "call" and data(src[0][1])[2] == (src[0][0],)
            ctx.check("weights.read", con, okk, exp[0].loc, "not every stored weight is read under its own name")
            op = [e for e in ev if e.kind == "call" and e.name.endswith("safe_open")]
            ctx.check("files.names", "weights", any(last_part(e.args[0]) == keys.get("weights") for e in op), f.loc, f"weights are written to {fmt(keys['weights']) if keys.get('weights') else None} but read from another file")
        diffs = [(c, b) for c, b in o.st.conds if any(x[0] == "bin" and x[1] == "-" for x in walk(c)) or any(x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("difference", "symmetric_difference") for x in walk(c))]
        if strict == FALSE:
            kinds = {}
            for c, b in diffs:
                for x in walk(c):
                    if x[0] == "bin" and x[1] == "-":
                        kinds["missing" if within(x[3], w) and not within(x[2], w) else "unexpected"] = (b, x)
            eqs = [(c, b) for c, b in o.st.conds if c[0] == "cmp" and c[1] == "==" and within(c, w)]
            if not kinds and not eqs:
                ctx.check("weights.missing", con, False, loads[0].loc, "it is not checked that the saved weights are exactly those of the model")
            elif kinds:
                for k in ("missing", "unexpected"):
                    ctx.check(f"weights.{k}", con, k in kinds and kinds[k][0] is False, loads[0].loc, f"{k} weights are silently accepted")
                for k, (b, x) in kinds.items():
                    own = x[2] if k == "missing" else x[3]
                    p = own_keys(own, MODEL, o)
                    if p is None:
                        ctx.skip("weights.prefixes", con, "the expected names were not recognised")
                    else:
                        ctx.check("weights.prefixes", con, p, loads[0].loc, "the names expected are not those of the model's state outside quantizers and stubs")
                after = [i for i, e in enumerate(ev) if e.kind == "call" and e.name == "func:" + NQ]
                ctx.check("weights.order", con, not after or not qs or min(after) > qs[0], loads[0].loc, "the expected names are computed before the quantizers are restored")
    ctx.floor("weights.loaded", 1)


def own_keys(t, model, o):
    src = t
    if t[0] == "fresh":
        return None
    for x in walk(src):
        if x[0] == "comp" and x[3] and x[3][0][0] in (("call", ("attr", model, "state_dict"), (), ()), ("call", ("attr", ("call", ("attr", model, "state_dict"), (), ()), "keys"), (), ())):
            filt = x[3][0][1]
            if len(filt) == 1 and filt[0][1] is False and filt[0][0][0] == "call" and filt[0][0][1][2] == "startswith":
                return prefixes_ok(o, filt[0][0][2][0], model)
            return False
    return None


def tied(ctx):
    f = ctx.func(f"{SL}._deduplicate_shared_tensors")
    T = ("param", f.params()[0])
    V, KK = ("val", T), ("key", T)
    n = 0
    for o in interp(ctx, f):
        if o.kind != "return" or o.val[0] != "tuple" or len(o.val) != 3:
            continue
        con = "tied weights"
        for e in o.st.events:
            if e.kind == "call" and e.name == "method:.setdefault" or e.kind == "setitem" and within(e.args[0], V):
                key = e.args[0]
                txt = fmt(key)
                if not within(key, V):
                    continue
                ctx.check("tied.identity", con, bool(re.search(r"data_ptr|storage_offset", txt)) and "shape" in txt + "size()" * ("size()" in txt) and "stride" in txt, e.loc, "tensors that differ in their place in memory, shape or strides are stored as one")
        un, al = entries(o.val[1], o.st), entries(o.val[2], o.st)
        for k, v in un:
            ctx.check("tied.representative", con, v == ("item", T, k) or v == V and k == KK, f.loc, f"the tensor stored under {fmt(k)} is {fmt(v)}")
        n += bool(un)
        for k, v in al:
            diff = any((c == ("cmp", "==", k, v) or c == ("cmp", "==", v, k)) and not b for c, b in o.st.conds)
            ctx.check("tied.alias", con, v in [a for a, _ in un] and diff, f.loc, "an alias does not refer to the name its tensor is stored under")
    ctx.check("tied.stored", "tied weights", n > 0, f.loc, "no tensor is stored")
    g = ctx.func(f"{SL}._expand_shared_tensors")
    T, A = (("param", x) for x in g.params()[:2])
    for o in interp(ctx, g):
        con = "expand"
        there = [b for c, b in o.st.conds if c[0] == "cmp" and c[1] == "in" and c[2] == ("val", A)]
        if o.kind == "raise":
            ctx.check("tied.missing", con, False in there, g.loc, "complete weights are refused")
            continue
        if False in there:
            ctx.check("tied.missing", con, False, g.loc, "a tied weight without stored values is silently left out")
        sets = [e for e in o.st.events if e.kind == "setitem" and e.obj == o.val]
        for k, v in [(e.args[0], e.value) for e in sets]:
            ctx.check("tied.expanded", con, k == ("key", A) and v in (("item", T, ("val", A)), ("item", o.val, ("val", A))), g.loc, f"the tied weight {fmt(k)} gets the values {fmt(v)}")
        base = o.val in (T,) or o.val[0] == "call" and (o.val[1] == ("builtin", "dict") and o.val[2][:1] == (T,) or o.val[1] == ("attr", T, "copy") or ref_name(o.val[1]) == "ext:copy.copy") or (o.val[0] in ("dict", "fresh") and within(("x",) + tuple(o.st.heap.get((o.val, "@contents"), ())) + o.val, T))
        ctx.check("tied.kept", con, base and bool(sets or entries(o.val, o.st)), g.loc, "the stored weights are not all passed on, or tied ones not added")
    ctx.floor("tied.kept", 1)


# ------------------------------------------------------------------ objects in the configuration
def yaml_objects(ctx):
    """What is recorded when an object is made, written, and used to make it again is the same."""
    w = next((ctx.p.funcs[q] for q in ctx.p.funcs if q.startswith(f"{SER}._wrap.") and ctx.p.funcs[q].name == "wrapper"), None)
    if w is None:
        ctx.skip("object.recorded", "constructor arguments", "the wrapper of constructors was not found")
    else:
        for o in interp(ctx, w):
            if o.kind != "return":
                continue
            ev = list(o.st.events)
            sets = [(i, e) for i, e in enumerate(ev) if e.kind == "setattr"]
            calls = [i for i, e in enumerate(ev) if e.kind == "call" and e.value == o.val]
            cp = [i for i, e in enumerate(ev) if e.kind == "call" and e.name == "ext:copy.deepcopy"]
            A, KW = ("param", "args"), ("param", "kwargs")
            con = "constructor arguments"
            ctx.check("object.recorded", con, len(sets) == 1 and sets[0][1].obj == ("item", A, const(0)), w.loc, "the arguments of a constructor are not recorded on the object")
            for i, e in sets:
                rest = ("item", A, ("slice", const(1), NONE, NONE))
                ctx.check("object.recorded", con + " all", within(e.value, rest) and within(e.value, KW), e.loc, "not exactly the positional and keyword arguments are recorded")
                ctx.check("object.snapshot", con, bool(cp) and bool(calls) and cp[0] < calls[0] and within(e.value, ev[cp[0]].value), e.loc, "the recorded arguments can change after, or while, the object is made")
                ctx.check("object.outermost", con, bool(calls) and calls[0] < i, e.loc, "the arguments of a base class constructor replace those of the object")
            ctx.check("object.result", con, len(calls) == 1 and any(x == ("star", A) for x in o.val[2]) and ("**", KW) in o.val[3], w.loc, "the wrapped constructor is not called with the given arguments")
    r = ctx.func(f"{SER}._ff_obj_yaml_representer")
    D = ("param", r.params()[1])
    written = {}
    for o in interp(ctx, r):
        if o.kind != "return":
            continue
        rep = [e for e in o.st.events if e.kind == "call" and e.name == "method:.represent_mapping"]
        if len(rep) != 1:
            ctx.skip("object.written", "representer", "the written mapping was not recognised")
            continue
        es = dict(entries(rep[0].args[1], o.st))
        for a, key in (("__newargs_ex__", None), ("__initargs_ex__", None)):
            has = next((b for c, b in o.st.conds if c == ("call", ("builtin", "hasattr"), (D, const(a)), ())), None)
            ks = [k for k, v in es.items() if v == ("attr", D, a)]
            if has is not None:
                ctx.check("object.written", f"{a.strip('_')} {has}", len(ks) == (1 if has else 0), rep[0].loc, "recorded constructor arguments are not written")
            for k in ks:
                written[a] = k
        ks = [k for k, v in es.items() if v[0] == "call" and (v[1] == ("attr", D, "__getstate__") or v[1][0] == "bound" and v[1][1].endswith("__getstate__"))]
        sup = [b for c, b in o.st.conds if c[0] == "call" and c[1] == ("builtin", "hasattr") and "state__" in fmt(c)]
        if ks:
            written["state"] = ks[0]
        if sup:
            ctx.check("object.written", f"state {all(sup)}", bool(ks) == all(sup), rep[0].loc, "the state of an object is not written exactly if it can be restored")
        nm = [k for k, v in es.items() if within(v, D) and "qualified_name" in fmt(v)]
        ctx.check("object.written", "class", len(nm) == 1, rep[0].loc, "the class of the object is not written by its full name")
        written["name"] = nm[0] if nm else None
    c = ctx.func(f"{SER}._ff_obj_yaml_constructor")
    init_key, state_key = written.get("__initargs_ex__"), written.get("state")
    seen = set()
    for o in interp(ctx, c, exc="explicit"):
        con = "constructor"
        if o.kind == "raise":
            ctx.check("object.defined", con, "Unbound" not in fmt(o.val), c.loc, "an object whose class has no constructor of its own cannot be loaded")
            continue
        if o.kind != "return":
            continue
        imp = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".import_")]
        isty = next((b for cc, b in o.st.conds if cc[0] == "isinstance" and cc[2] == ("builtin", "type")), None)
        if isty is False:
            ctx.check("object.reference", con, bool(imp) and o.val == imp[-1].value, c.loc, f"a reference to something that is no class gives {fmt(o.val)}")
            continue
        own_init = custom(o, "__init__")
        own_new = custom(o, "__new__")
        case = f"own init {own_init}, own new {own_new}"
        seen.add(case)
        v = o.val
        ctx.check("object.defined", case, v[0] == "call", c.loc, f"an object whose class has neither its own __init__ nor __new__ becomes {fmt(v)}")
        if v[0] != "call":
            continue
        klass = bool(imp) and (v[1] == imp[-1].value or v[1] == ("attr", imp[-1].value, "__new__"))
        ctx.check("object.class", case, klass, c.loc, f"the object is made by {fmt(v[1])}")
        is_new = v[1][0] == "attr" and v[1][2] == "__new__"
        ctx.check("object.init", case, not is_new or own_init is not True, c.loc, "an object is made without running its __init__")
        star = [x[1] for x in v[2] if x[0] == "star"]
        dstar = [x for k, x in v[3] if k == "**"]
        src = {s for x in star + dstar for s in popped(x)}
        want = written.get("__newargs_ex__") if is_new else init_key
        if src:
            ctx.check("object.arguments", case, src == {want}, c.loc, f"the arguments are read from {', '.join(fmt(x) for x in src)} but were written to {fmt(want) if want else None}")
            okp = all(x[0] == "item" and x[2] == const(0) for x in star) and all(x[0] == "item" and x[2] == const(1) for x in dstar) and len(star) == len(dstar) == 1
            ctx.check("object.arguments", case + " order", okp, c.loc, "positional and keyword arguments are not passed as recorded")
        else:
            ctx.check("object.arguments", case, False, c.loc, "the object is made without the recorded arguments")
        has = next((b for cc, b in o.st.conds if cc[0] == "cmp" and cc[1] == "in" and cc[2] == state_key), None)
        sets = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".__setstate__")]
        if has is not None:
            good = len(sets) == (1 if has else 0) and all(e.obj == v for e in sets)
            ctx.check("object.state", f"{case} {has}", good, c.loc, "the saved state is not restored on the object")
            for e in sets:
                ctx.check("object.state", case + " key", within(e.args[0], state_key) or any(x == state_key for x in walk(e.args[0])), e.loc, "another entry than the written state is restored")
        elif state_key is not None:
            ctx.check("object.state", case, False, c.loc, "the saved state is not looked at")
    ctx.floor("object.arguments", 2)
    getstate(ctx)


def custom(o, name):
    for c, b in o.st.conds:
        if c[0] == "cmp" and c[1] == "in" and c[2] == const(name):
            return b
    return None


def popped(t):
    """Keys of the mapping that a term was read from."""
    for x in walk(t):
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("pop", "get") and x[2]:
            yield x[2][0]
        elif x[0] == "item" and x[2][0] == "const" and x[2][1] == "str":
            yield x[2]


def getstate(ctx):
    q = ctx.p.find_method(QZ, "__getstate__")
    if q is None:
        ctx.skip("object.overrides", "Quantizer", "no __getstate__")
        return
    S = ("param", q.params()[0])
    for o in interp(ctx, q, loop_iters=(0, 1)):
        ov = next((b for c, b in o.st.conds if c == ("attr", S, "_quantizer_overrides")), None)
        if ov is None:
            ctx.skip("object.overrides", "Quantizer", "overrides are not looked at in the recognised way")
            continue
        ctx.check("object.overrides", f"Quantizer {ov}", (o.kind == "raise") == ov, q.loc, "a quantizer with active overrides is saved without them" if ov else "a quantizer without overrides is refused")
        if o.kind == "return" and o.val[0] == "comp":
            conds = [c for i in o.val[3] for c in i[1]]
            ten = [(c, b) for c, b in conds if c[0] == "isinstance" and "Tensor" in fmt(c[2])]
            ctx.check("object.state-kept", "Quantizer", o.val[2][0] == "pair" and o.val[2][1][0] == "key" and o.val[2][2] == ("val", o.val[2][1][1]), q.loc, "an attribute is saved under another name")
            mem = [(c, b) for c, b in conds if c[0] == "cmp" and c[1] == "in"]
            ctx.check("object.state-kept", "Quantizer all", len(conds) == len(mem) + len(ten) and not any(b for _, b in conds), q.loc, "attributes are left out for another reason than being tensors or belonging to torch")
            for c, b in mem:
                lits = ignored(c[3], o)
                if lits is not None:
                    ctx.check("object.state-ignored", "Quantizer", lits <= {"__initargs_ex__", "__newargs_ex__", "quant_metadata", "_quantizer_overrides"}, q.loc, f"attributes {sorted(lits)} are not saved")
    s = ctx.p.find_method(QZ, "__setstate__")
    if s is not None:
        P = ("param", s.params()[1])
        for o in interp(ctx, s):
            sets = [e for e in o.st.events if e.kind == "setattr" and e.obj == ("param", s.params()[0])]
            upd = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".update") and e.args == (P,)]
            ok = bool(upd) or len(sets) == 1 and sets[0].name == "@dynamic" and sets[0].args[0] == ("key", P) and sets[0].value == ("val", P)
            ctx.check("object.restored", "Quantizer", ok, s.loc, "not every saved attribute is restored")


def ignored(t, o):
    """Literal names in the set of ignored attributes."""
    res = set()
    items = o.st.heap.get((t, "@contents"), ()) if t[0] == "fresh" else t[1:] if t[0] in ("set", "tuple", "list") else None
    if t[0] == "call" and t[1] == ("builtin", "set") and t[2]:
        items = tuple(t[2][0][1:]) + tuple(o.st.heap.get((t, "@contents"), ()))
    if items is None:
        return None
    for x in items:
        if x[0] == "const":
            res.add(x[2])
    return res
