"""Freezing and fusing weights.  The freeze override, the fuse and stub transforms and the discovery of
weight quantizers are interpreted; the value written to a parameter, the quantizer replaced by a stub and
the conditions of both are decided on every path."""
from __future__ import annotations

from .common import *

ASSUMPTIONS = ["dequantize() of a tensor that is not quantized returns that tensor", "overrides receive every input of the quantizer and are removed on exit (decided by A02)", "find_quantizers selects by tags (decided by E02)"]
FZ, FU = "fastforward.quantization.freeze", "fastforward.quantization.fuse"
STUB = "fastforward.nn.quantizer.QuantizerStub"
QZ = "fastforward.nn.quantizer.Quantizer"
PARAM = ("ext", "torch.nn.Parameter")


def within(t, sub):
    return any(x == sub for x in walk(t))


def check(ctx):
    override(ctx)
    context(ctx)
    fuse(ctx)
    tied(ctx)
    discovery(ctx)
    transforms(ctx)


def plain(t):
    """A value without detaching, casts to the parameter's dtype and cloning."""
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("detach", "clone", "contiguous"):
        t = t[1][1]
    return t


def qdq(t):
    """The call of a quantizer whose dequantized result this is, or None."""
    t = plain(t)
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "dequantize" and not t[2]:
        return plain(t[1][1])
    return None


def writes(o):
    """In-place writes of whole tensors: (event, target, value)."""
    for e in o.st.events:
        if e.kind == "call" and e.name == "method:.copy_":
            yield e, e.obj, e.args[0]
        elif e.kind == "setattr" and e.name == "data":
            yield e, e.obj, e.value
        elif e.kind == "inplace":
            yield e, e.obj, e.value
        elif e.kind == "setitem" and e.obj[0] in ("item", "param", "call") and e.args[0] in (("slice", NONE, NONE, NONE), ("const", "ellipsis", Ellipsis), const(Ellipsis)):
            yield e, e.obj, e.value


def target(t):
    while t[0] == "attr" and t[2] == "data":
        t = t[1]
    return t


def depth(o, ev, name):
    """Contexts of a kind that are open at an event."""
    d = []
    for e in o.st.events:
        if e is ev:
            return d
        if e.kind == "enter" and name in e.name:
            d.append(e)
        elif e.kind == "call" and e.name == "method:.enter_context" and e.args and e.args[0][0] == "call" and name in ref_name(e.args[0][1]):
            d.append(Ev("enter", name, e.obj, e.args[0][2], (), NONE, e.loc, ""))
        elif e.kind == "exit" and d and (name in e.name or any(x.obj == e.obj for x in d)):
            d.pop()
    return d


def stubs(o):
    """Attributes that become a stub: (event, owner, name, stub call)."""
    for e in o.st.events:
        if e.kind == "setattr" and e.value is not None and e.value[0] in ("call", "new") and (e.value[1] == ("class", STUB) or e.value[1] == STUB):
            yield e, e.obj, (e.args[0] if e.name == "@dynamic" else const(e.name)), e.value
        elif e.kind == "call" and e.name.rsplit(".", 1)[-1] in ("register_quantizer", "add_module", "set_submodule", "__setattr__", "register_module") and len(e.args) >= 2 and e.args[1][0] == "call" and e.args[1][1] == ("class", STUB):
            yield e, e.obj, e.args[0], e.args[1]


def chosen(name, q):
    """Comprehensions a name is taken from that look whether something is this quantizer: (element, compared)."""
    out = []
    for x in walk(name):
        if x[0] == "comp":
            for it, ifs in x[3]:
                out += [(x[2], y) for z, b in ifs if b and z[0] == "cmp" and z[1] == "is" and q in z[2:] for y in z[2:] if y != q]
    return out


def stub_rules(ctx, o, e, owner, name, call, q, con):
    """The stub takes the place, and the metadata, of exactly this quantizer."""
    same = [c for c, b in o.st.conds if b and c[0] == "cmp" and c[1] == "is" and q in c[2:]]
    for n, x in chosen(name, q):
        same, name = [("cmp", "is", x, q)], n
    if not same:
        ctx.check("stub.place", con, within(name, q), e.loc, "an attribute is replaced without looking whether it is this quantizer")
    else:
        x = next(y for y in same[-1][2:] if y != q) if same[-1][2] != same[-1][3] else q
        # (name, child) of one element of an enumeration, or getattr(owner, name)
        pair = x[0] == "item" and x[2] == const(1) and name == ("item", x[1], const(0)) or x[0] == "val" and name == ("key", x[1])
        enum = pair and within(x[1], owner)
        ga = x in (("call", ("builtin", "getattr"), (owner, name), ()), ("call", ("builtin", "getattr"), (owner, name, NONE), ()))
        ctx.check("stub.place", con, enum or ga, e.loc, f"{fmt(x)[:80]} is this quantizer, but {fmt(owner)[:60]}.{fmt(name)[:60]} is replaced")
    md = evarg(Ev("call", "", NONE, call[2], call[3], NONE, e.loc, ""), 9, "_metadata") if call[0] == "call" else None
    alias = {q} | {y for c in same for y in c[2:]}
    ctx.check("stub.metadata", con, md is not None and md[0] == "attr" and md[2] == "quant_metadata" and md[1] in alias, e.loc, "the stub does not take over the quantizer's metadata")


# ------------------------------------------------------------------ freezing
def override(ctx):
    f = ctx.func(f"{FZ}._FreezeParametersOverride.__call__")
    S, Q, CB = (("param", x) for x in f.params()[:3])
    REM = None
    init = ctx.p.find_method(f"{FZ}._FreezeParametersOverride", "__init__")
    for o in run(ctx, init, inline=no_inline):
        for e in o.st.events:
            if e.kind == "setattr" and e.value == ("param", "remove_quantizer"):
                REM = ("attr", S, e.name)
    n = 0
    for o in run(ctx, f, inline=inline_same_module(), merge=False, loop_iters=(0, 1)):
        if o.kind != "return":
            continue
        isp = next(((c[1], b) for c, b in o.st.conds if c[0] == "isinstance" and c[2] == PARAM), None)
        con = "freeze"
        ws, ss = list(writes(o)), list(stubs(o))
        calls = [e for e in o.st.events if e.kind == "call" and e.obj == CB]
        if isp is None:
            ctx.check("freeze.parameters-only", con, not ws and not ss, f.loc, "data that is no parameter is overwritten")
            continue
        D, b = isp
        if not b:
            good = o.val[0] == "call" and o.val[1] == CB and (o.val[2][:1] == (D,) or o.val[2][:1] == (("star", ("param", f.params()[3])),))
            ctx.check("freeze.parameters-only", con, good and not ws and not ss, f.loc, f"data that is no parameter is not quantized as without freezing: {fmt(o.val)}")
            continue
        V = next((c for c in (x.value for x in o.st.events if x.kind == "call" and x.name.endswith(".dequantize"))), None)
        if V is None or qdq(V) is None:
            ctx.check("freeze.value", con, not ws, f.loc, "a parameter is overwritten by something that is not dequantized")
            ctx.check("freeze.value", con, False, f.loc, "a parameter is not dequantized")
            continue
        src = qdq(V)
        ctx.check("freeze.value", con, src[0] == "call" and src[1] == CB and src[2][:1] in ((D,), (("star", ("param", f.params()[3])),)) and len(calls) == 1, f.loc, f"the parameter becomes {fmt(V)}")
        noop = next((bb for c, bb in o.st.conds if c[0] == "cmp" and c[1] == "is" and set(c[2:]) & {V, src} and D in c[2:]), None)
        ctx.check("freeze.result", con, o.val in (D, V), f.loc, f"the result is {fmt(o.val)}")
        if noop:
            ctx.check("freeze.noop", con, not ws and not ss, f.loc, "a quantizer that leaves the parameter as it is, is removed")
            continue
        n += 1
        ctx.check("freeze.written", con, len(ws) == 1 and target(ws[0][1]) == D and plain(ws[0][2]) == V, f.loc, "the parameter is not overwritten by its quantized values exactly once")
        for e, t, v in ws:
            ng = depth(o, e, "no_grad") or depth(o, e, "inference_mode") or e.obj[0] == "attr" and e.obj[2] == "data" or e.name == "data"
            ctx.check("freeze.no-grad", con, bool(ng), e.loc, "a parameter is changed in place while gradients are recorded")
        rem = next((bb for c, bb in o.st.conds if c == REM), None)
        if REM is None:
            ctx.skip("freeze.remove", con, "the removal option was not recognised")
        elif rem is None:
            ctx.check("freeze.remove", con, not ss, f.loc, "a quantizer is replaced without looking at the option")
        elif not rem:
            ctx.check("freeze.remove", con + " kept", not ss, f.loc, "a quantizer is replaced although it was to be kept")
        else:
            hit = any(bb and c[0] == "cmp" and c[1] == "is" and Q in c[2:] for c, bb in o.st.conds)
            ctx.check("freeze.remove", con + " removed", bool(ss) == hit, f.loc, "the quantizer of a frozen parameter is left in place" if hit else "another module is replaced")
        for e, owner, name, call in ss:
            stub_rules(ctx, o, e, owner, name, call, Q, con)
            order = list(o.st.events)
            ctx.check("freeze.order", con, all(order.index(w[0]) < order.index(e) for w in ws), e.loc, "the quantizer is removed before the parameter holds the quantized values")
    ctx.floor("freeze.written", 1)
    ctx.floor("freeze.parameters-only", 1)
    if not any(r == "freeze.noop" for r, *_ in ctx.obligations):
        ctx.check("freeze.noop", "freeze", False, f.loc, "it is not looked at whether the quantizer changes the parameter")
    if not any(r == "freeze.remove" and c.endswith("removed") for r, c, *_ in ctx.obligations):
        ctx.check("freeze.remove", "freeze removed", n == 0, f.loc, "no quantizer is ever removed")


def context(ctx):
    """All quantizers of all given modules are covered, with the removal option, in non-strict mode."""
    f = ctx.func(f"{FZ}.freeze_parameters")
    ONE = ("param", "modules")
    regs = {}
    for o in run(ctx, f, inline=inline_same_module(deny=("_FreezeParametersOverride",)), merge=False, loop_iters=(1,), yield_raises=False):
        if o.kind != "return":
            continue
        one = next((b for c, b in o.st.conds if c[0] == "isinstance" and c[1] == ONE), None)
        con = "freeze context " + ("module" if one else "sequence")
        rs = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".register_override")]
        ctx.check("context.registers", con, len(rs) >= 1, f.loc, "quantizers are not overridden")
        for e in rs:
            a = e.args[0] if e.args else NONE
            kw = dict(a[3]) if a[0] == "call" else {}
            rm = kw.get("remove_quantizer", a[2][1] if a[0] == "call" and len(a[2]) > 1 else None)
            ctx.check("context.option", con, rm == ("param", "remove_quantizers"), e.loc, f"the removal option given is {fmt(rm) if rm else None}")
            t = e.obj
            nq = [x for x in walk_all(t, o) if x[0] == "call" and ref_name(x[1]).endswith("named_quantizers")]
            if nq:
                src = nq[0][2][0] if nq[0][2] else NONE
                deep = within(src, ONE) and (dict(nq[0][3]).get("recurse") != FALSE or any(x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("modules", "named_modules") for x in walk(src)))
                ctx.check("context.all", con, deep, e.loc, "not all quantizers below the given modules are overridden")
            else:
                ctx.skip("context.all", con, "the enumeration of quantizers was not recognised")
        ys = [e for e in o.st.events if e.kind == "yield"]
        for e in ys:
            st = depth(o, e, "strict_quantization")
            ctx.check("context.non-strict", con, bool(st) and off(st[-1]), e.loc, "the body does not run in non-strict mode, in which frozen parameters are accepted")
            ev = list(o.st.events)
            ctx.check("context.order", con, all(ev.index(r) < ev.index(e) for r in rs), e.loc, "overrides are registered after the body")
    ctx.floor("context.registers", 1)
    ctx.floor("context.non-strict", 1)


def walk_all(t, o):
    """Subterms, looking through keys of dictionaries and elements of lists built on the path."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or x in seen or not x:
            continue
        seen.add(x)
        if isinstance(x[0], str):
            yield x
        if x[0] == "fresh":
            todo.extend(o.st.heap.get((x, "@contents"), ()))
        todo.extend(y for y in x if isinstance(y, tuple))


# ------------------------------------------------------------------ fusing
def off(e):
    return (e.args or (e.obj[2] if e.obj is not None and e.obj[0] == "call" else ()))[:1] == (FALSE,)


def triple(o):
    """Module, attribute and quantizer of one discovered target."""
    for e in o.st.events:
        if e.kind == "loop":
            it = e.obj
            while it[0] == "call" and it[1] in (("builtin", "list"), ("builtin", "tuple")) and len(it[2]) == 1:
                it = it[2][0]
            if it[0] == "call" and it[2][:1] == (("param", "model"),):
                el = ("elem", it)
                return [("item", el, const(i)) for i in range(3)], it
    return None, None


DENY = ("_check_tied_weight_targets", "ConventionDiscovery", "__call__", "find_weight_quantizers")


def fuse(ctx):
    """The whole transform for one arbitrary discovered target."""
    f = ctx.func(f"{FU}.fuse_qdq_weights")
    OPT = ("param", "stub_quantizers")
    for o in run(ctx, f, inline=inline_same_module(deny=DENY), merge=False, loop_iters=(1,)):
        if o.kind != "return":
            continue
        con = "fuse"
        tr, _ = triple(o)
        if tr is None:
            ctx.skip("fuse.value", con, "the loop over the targets was not recognised")
            continue
        M, A, Q = tr
        W = ("call", ("builtin", "getattr"), (M, A), ())
        ws, ss = list(writes(o)), list(stubs(o))
        for e in o.st.events:
            if e.kind == "call" and e.value[0] == "call" and e.value[1] == Q:
                st = depth(o, e, "strict_quantization")
                ctx.check("fuse.non-strict", con, bool(st) and off(st[-1]), e.loc, "a weight is quantized in strict mode")
        V = next((c for c in (x.value for x in o.st.events if x.kind == "call" and x.name.endswith(".dequantize"))), None)
        noop = next((b for c, b in o.st.conds if c[0] == "cmp" and c[1] == "is" and V in c[2:] and any(same_weight(x, W) for x in c[2:])), None)
        if noop:
            ctx.check("fuse.noop", con, not ws and not ss, f.loc, "a quantizer that leaves the weight as it is, is fused or removed")
            continue
        ok = V is not None and qdq(V) is not None and qdq(V)[0] == "call" and qdq(V)[1] == Q and len(qdq(V)[2]) == 1 and same_weight(qdq(V)[2][0], W)
        ctx.check("fuse.value", con, ok and len(ws) == 1 and same_weight(target(ws[0][1]), W) and plain(ws[0][2]) == V, f.loc, f"the weight becomes {fmt(ws[0][2]) if ws else 'nothing new'}")
        for e, t, v in ws:
            ng = depth(o, e, "no_grad") or depth(o, e, "inference_mode") or e.name == "data" or e.obj[0] == "attr" and e.obj[2] == "data"
            ctx.check("fuse.no-grad", con, bool(ng), e.loc, "a parameter is changed in place while gradients are recorded")
            ctx.check("fuse.order", con, all(o.st.events.index(e) < o.st.events.index(x[0]) for x in ss), e.loc, "the quantizer is removed before the weight holds the quantized values")
        st = next((b for c, b in o.st.conds if c == OPT), None)
        if st is None:
            ctx.check("fuse.stub", con, not ss, f.loc, "a quantizer is replaced without looking at the option")
        elif not st:
            ctx.check("fuse.stub", con + " kept", not ss, f.loc, "the quantizer is replaced although it was to be kept")
        else:
            stub_path(ctx, o, f, ss, M, Q, "fuse.stub", con + " replaced")
    if not any(r == "fuse.noop" for r, *_ in ctx.obligations):
        ctx.check("fuse.noop", "fuse", False, f.loc, "it is not looked at whether the quantizer changes the weight")
    ctx.floor("fuse.value", 1)
    ctx.floor("fuse.stub", 2)
    ctx.floor("fuse.non-strict", 1)
    g = ctx.func(f"{FU}.stub_weight_quantizers")
    n = 0
    for o in run(ctx, g, inline=inline_same_module(deny=DENY), merge=False, loop_iters=(1,)):
        if o.kind != "return":
            continue
        tr, _ = triple(o)
        if tr is None:
            ctx.skip("stub.done", "stub", "the loop over the targets was not recognised")
            continue
        ss = list(stubs(o))
        n += len(ss)
        ctx.check("stub.weights", "stub", not list(writes(o)), g.loc, "replacing a quantizer by a stub changes a tensor")
        stub_path(ctx, o, g, ss, tr[0], tr[2], "stub.done", "stub")
    if not any(r == "stub.done" for r, *_ in ctx.skipped):
        ctx.check("stub.done", "any", n > 0, g.loc, "no quantizer is ever replaced by a stub")


def stub_path(ctx, o, f, ss, M, Q, rule, con):
    hit = any(b for c, b in o.st.conds if c[0] == "cmp" and c[1] == "is" and Q in c[2:] and NONE not in c[2:])
    for e, owner, name, call in ss:
        hit = hit or bool(chosen(name, Q))
    ctx.check(rule, con, len(ss) == (1 if hit else 0), f.loc, "the quantizer found is not replaced" if hit else "a module is replaced that is not known to be the quantizer")
    for e, owner, name, call in ss:
        ctx.check("stub.owner", con, owner == M, e.loc, "the stub is put on another module")
        stub_rules(ctx, o, e, owner, name, call, Q, con)


def same_weight(t, W):
    return plain(target(t)) == W


def tied(ctx):
    """A weight shared by modules whose quantizers disagree is refused."""
    if f"{FU}._check_tied_weight_targets" not in ctx.p.funcs:
        ctx.skip("tied.refused", "tied", "the check of shared weights was not recognised")
        return
    f = ctx.func(f"{FU}._check_tied_weight_targets")
    seen = set()
    for o in run(ctx, f, inline=inline_same_module(), merge=False, loop_iters=(1, 2), distinct=True):
        con = "tied"
        ctx.check("tied.pure", con, not list(writes(o)) and not list(stubs(o)), f.loc, "the check changes a weight or quantizer")
        eq = [(c, b) for c, b in o.st.conds if c[0] == "call" and (ref_name(c[1]) in ("ext:torch.equal", "ext:torch.allclose") or c[1][0] == "attr" and c[1][2] in ("equal", "all"))]
        for c, b in eq:
            xs = c[2] if c[1][0] != "attr" else (c[1][1],) + c[2]
            vals = [x for x in xs if qdq(x) is not None]
            ctx.check("tied.compared", con, len(vals) == 2 and qdq(vals[0])[1] != qdq(vals[1])[1] or vals and len(vals) == 2 and vals[0] != vals[1], f.loc, "the values two quantizers give the shared weight are not compared with each other")
            if len(vals) == 2:
                ctx.check("tied.exact", con, ref_name(c[1]) != "ext:torch.allclose", f.loc, "different grids count as equal if the values are close")
        differ = any(b is False for _, b in eq)
        if differ:
            seen.add("differ")
            ctx.check("tied.refused", con, o.kind == "raise", f.loc, "a shared weight that two quantizers put on different grids is accepted")
        elif o.kind == "raise" and "QuantizationError" in fmt(o.val):
            ctx.check("tied.accepted", con, False, f.loc, "a shared weight whose quantizers agree is refused")
    if not seen:
        ctx.skip("tied.refused", "tied", "no comparison of the quantizers' values was recognised")
    for o in run(ctx, f, inline=inline_same_module(), merge=False, loop_iters=(1,)):
        spared(ctx, o, f)
        for e in o.st.events:
            key = e.args[0] if e.kind == "call" and e.name == "method:.setdefault" and e.args else None
            if e.kind == "call" and e.name == "method:.append" and e.obj[0] == "item":
                key = e.obj[2]
            if key is not None:
                parts = key[1:] if key[0] == "tuple" else (key,)
                weight = lambda t: t[0] == "call" and t[1] == ("builtin", "getattr")
                ident = [t for t in parts if weight(t) or t[0] == "call" and (t[1] == ("builtin", "id") and weight(t[2][0]) or t[1][0] == "attr" and t[1][2] in ("data_ptr", "untyped_storage", "storage"))]
                ctx.check("tied.identity", "tied", bool(ident), e.loc, f"weights are grouped by {fmt(key)}, not by identity")
                other = [t for t in parts if t[0] in ("item", "elem") or t[0] == "call" and t[1] == ("builtin", "id") and t[2][0][0] == "item"]
                ctx.check("tied.identity", "tied all modules", not other, e.loc, "weights shared by several modules are put in different groups")


def spared(ctx, o, f):
    """A group of targets of one weight is only left uncompared if it has a single target or a single quantizer."""
    groups = [t for t in (c[1] for c, b in o.st.conds if c[0] == "nonempty" and b) if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("values", "items")]
    if o.kind != "return" or not groups:
        return
    G = ("val", groups[-1][1][1])
    own = [(c, b) for c, b in o.st.conds if contains(c, lambda t: t == G)]
    if any(c == ("nonempty", G) or contains(c, lambda t: qdq(t) is not None) for c, b in own) or any(e.kind == "loop" and e.obj == G for e in o.st.events):
        return
    if not own:
        ctx.skip("tied.all", "tied", "the groups of targets were not recognised")
        return

    def single(c, b):
        if c[0] != "cmp" or c[3][0] != "const" or c[2][0] != "call" or ref_name(c[2][1]) != "builtin:len":
            return False
        x = c[2][2][0]
        if x != G and not (x[0] == "comp" and mentions_quantizer(x)):
            return False
        n = c[3][2]
        return b and (c[1], n) in (("==", 1), ("<=", 1), ("<", 2)) or not b and (c[1], n) in ((">", 1), (">=", 2))

    def mentions_quantizer(c):
        return contains(c, lambda t: t[0] == "item" and t[2] in (const(2), const(-1)) and contains(t[1], lambda u: u == G) and t[1] != G) or contains(c, lambda t: t[0] == "attr" and "quantizer" in t[2])

    ok = any(single(c, b) or mentions_quantizer(c) for c, b in own)
    ctx.check("tied.all", "tied", ok, f.loc, f"shared weights are not compared if {fmt(own[-1][0])} is {own[-1][1]}")


def discovery(ctx):
    f = ctx.func(f"{FU}.ConventionDiscovery.__call__")
    S = ("param", f.params()[0])
    MODEL = ("param", f.params()[1])
    init = ctx.p.find_method(f"{FU}.ConventionDiscovery", "__init__")
    fields = {}
    for o in run(ctx, init, inline=no_inline):
        for e in o.st.events:
            if e.kind == "setattr" and e.value[0] == "param":
                fields[e.value[1]] = ("attr", S, e.name)
    ATTR, TAG = fields.get("weight_attr"), fields.get("tag")
    if ATTR is None or TAG is None:
        ctx.skip("discover", "ConventionDiscovery", "the options were not recognised")
        return
    n = 0
    for o in run(ctx, f, inline=inline_same_module(), merge=False, loop_iters=(1,)):
        con = "discovery"
        ys = [e for e in o.st.events if e.kind == "yield"]
        fq = [e for e in o.st.events if e.kind == "call" and e.name.endswith("find_quantizers")]
        if not fq:
            ctx.skip("discover.search", con, "the search for quantizers was not recognised")
            continue
        query = fq[0].args[1] if len(fq[0].args) > 1 else NONE
        ctx.check("discover.search", con, fq[0].args[:1] == (MODEL,) and "**" in fmt(query) and within(query, TAG) and "quantizer:" in fmt(query), fq[0].loc, f"the model is searched for {fmt(query)}")
        R = ("elem", fq[0].value)
        Q = ("attr", R, "module")
        P = ("attr", R, "parent")
        stub = next((b for c, b in o.st.conds if c[0] == "call" and c[1][0] in ("attr", "bound") and fmt(c).endswith("is_stub()") or c[0] == "isinstance" and c[2] == ("class", STUB)), None)
        isp = next((b for c, b in o.st.conds if c[0] == "isinstance" and c[2] == PARAM), None)
        subj = next((c[1] for c, b in o.st.conds if c[0] == "isinstance" and c[2] == PARAM), None)
        if subj is not None:
            ok = subj[0] == "call" and subj[1] == ("builtin", "getattr") and subj[2][:2] == (P, ATTR)
            ctx.check("discover.weight", con, ok, f.loc, f"the weight of a quantizer is {fmt(subj)}")
        if o.kind == "raise" and "AssertionError" in fmt(o.val):
            continue
        if stub:
            ctx.check("discover.stubs", con, not ys, f.loc, "a stub is fused")
        elif stub is None:
            ctx.check("discover.stubs", con, not ys, f.loc, "stubs are not left out")
        elif isp is None:
            ctx.check("discover.parameters", con, not ys, f.loc, "it is not looked at whether the weight is a parameter")
        elif not isp:
            ctx.check("discover.parameters", con, not ys, f.loc, "something that is no parameter is fused")
        else:
            n += 1
            good = len(ys) == 1 and ys[0].value == ("tuple", P, ATTR, Q)
            ctx.check("discover.target", con, good, f.loc, f"the target is {fmt(ys[0].value) if ys else 'left out'}")
        ctx.check("discover.all", con, all(e.name == "for" for e in o.st.events if e.kind == "endloop") and o.kind != "raise", f.loc, "the search stops at the first quantizer that is left out")
    ctx.floor("discover.target", 1)


def transforms(ctx):
    MODEL = ("param", "model")
    uses = set()
    for name in ("fuse_qdq_weights", "stub_weight_quantizers", "find_weight_quantizers"):
        f = ctx.func(f"{FU}.{name}")
        for o in run(ctx, f, inline=inline_same_module(deny=DENY), merge=False, loop_iters=(1,)):
            if o.kind != "return":
                continue
            given = next((b for c, b in o.st.conds if c == ("cmp", "is", ("param", "discovery"), NONE)), None)
            con = f"{name} {'default' if given else 'custom'}"
            ev = list(o.st.events)
            finds = [e for e in ev if e.kind == "call" and e.args == (MODEL,) and (e.obj == ("param", "discovery") or "ConventionDiscovery" in fmt(e.value))]
            if not finds:
                ctx.skip("transform.targets", con, "the discovery was not recognised")
                continue
            T = finds[0].value
            uses.add((name, within(T, ("param", "discovery"))))
            if given is not None:
                ctx.check("transform.discovery", con, within(T, ("param", "discovery")) == (not given), f.loc, "the given discovery is not used" if not given else "the default discovery is not used")
            if name == "find_weight_quantizers":
                ctx.check("transform.targets", con, within(o.val, T), f.loc, f"the targets are {fmt(o.val)}")
                continue
            acts = [e for e, *_ in stubs(o)] + [e for e, *_ in writes(o)]
            if name == "fuse_qdq_weights" and f"{FU}._check_tied_weight_targets" in ctx.p.funcs:
                chk = [e for e in ev if e.kind == "call" and e.name == f"func:{FU}._check_tied_weight_targets"]
                ctx.check("transform.tied-first", con, len(chk) >= 1 and all(ev.index(chk[0]) < ev.index(e) for e in acts) and within(chk[0].args[1], T), f.loc, "weights are changed before it is known that shared weights agree")
            loops = [e for e in ev if e.kind == "loop" and within(e.obj, T)]
            if not loops:
                ctx.skip("transform.snapshot", con, "the loop over the targets was not recognised")
                continue
            for e in loops:
                if any(x[0] == "elem" for x in walk(e.obj)):
                    continue
                eager = any(x[0] == "call" and x[1] in (("builtin", "list"), ("builtin", "tuple")) for x in walk(e.obj)) or e.obj[0] == "comp" or e.obj[0] == "fresh"
                ctx.check("transform.snapshot", con, eager, e.loc, "the model is changed while it is searched")
            ends = [e for e in ev if e.kind == "endloop"]
            ctx.check("transform.all", con, bool(ends) and ends[-1].name == "for" or len(ends) > 1, f.loc, "targets after the first are left out")
    for name in sorted({n for n, _ in uses}):
        ctx.check("transform.discovery", name + " both", (name, True) in uses and (name, False) in uses, "", "a given discovery is never used, or there is no default")
