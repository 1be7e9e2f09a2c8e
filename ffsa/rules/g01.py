"""Executing a graph.  Every instruction is interpreted for an arbitrary register: what it reads and
writes is compared with what it declares and with what the node says; binding, scheduling, context
propagation, the engine loop and every pass over instructions are interpreted for an arbitrary
instruction or reference, and what each path keeps, moves or deletes is decided from its conditions."""
from __future__ import annotations

from .common import *

ASSUMPTIONS = ["contexts are reusable context managers", "modules and delegates do not touch the register"]
O = "fastforward._orchestration"
ENG, GM = f"{O}.instruction_engine", f"{O}.graph_module"
REG = f"{ENG}.ActivationRegister"
DS, BUNDLE = f"{ENG}.ActivationDataset", f"{ENG}.ActivationBundle"
READS, WRITES = ("load", "items_for", "contexts_for"), ("store", "store_all")
ORACLES = READS + WRITES + ("delete", "gather", "broadcast", "merge", "from_value")
CONST = ("class", f"{GM}.Const")
SELF = ("param", "self")
TRUE, FALSE = const(True), const(False)


def check(ctx):
    complete(ctx)
    datasets(ctx)
    register(ctx)
    bundle(ctx)
    effects(ctx)
    instructions(ctx)
    moving(ctx)
    binding(ctx)
    engine(ctx)
    scheduling(ctx)
    contexts(ctx)
    lifetime(ctx)
    optimization(ctx)
    offload(ctx)
    cancel_modules(ctx)
    cancel_activations(ctx)
    caches(ctx)
    layerwise(ctx)


def pol(deny=()):
    return inline_same_module(deny=tuple(deny))


def norm(c, b):
    while c[0] == "not" or c[0] == "un" and c[1] == "not":
        c, b = c[-1], not b
    return c, b


def paths(ctx, f, **kw):
    kw.setdefault("merge", False)
    kw.setdefault("distinct", True)
    for o in run(ctx, f, **kw):
        cs = {norm(c, b) for c, b in o.st.conds}
        if not any((c, not b) in cs for c, b in cs):
            yield o


def fact(o, pred):
    """Polarity of the first condition that satisfies the predicate."""
    for c, b in o.st.conds:
        c, b = norm(c, b)
        if pred(c):
            return b
    return None


def meth(t, name):
    """Receiver if the term is a call of this method, resolved or not."""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == name:
        return t[1][1]
    if t[0] == "call" and t[1][0] == "bound" and t[1][1].endswith("." + name):
        return t[1][2]
    return None


def unwrap(t, names=("list", "tuple", "iter")):
    while t[0] == "call" and t[1][0] == "builtin" and t[1][1] in names and len(t[2]) == 1:
        t = t[2][0]
    return t


def api(e, cls):
    """Name of the method of `cls` the event calls, if any."""
    if e.kind != "call":
        return None
    if e.name.startswith(f"func:{cls}."):
        return e.name.rsplit(".", 1)[1]
    return None


def newclass(t, q):
    return t[0] == "call" and t[1] == ("class", q)


def cls_or_none(ctx, rule, q):
    if q not in ctx.p.classes:
        ctx.skip(rule, short(q), "the class does not exist")
        return None
    return ctx.p.classes[q]


def method(ctx, rule, q, name):
    if q not in ctx.p.classes:
        ctx.skip(rule, short(q), "the class does not exist")
        return None
    f = ctx.p.find_method(q, name)
    if f is None:
        ctx.skip(rule, f"{short(q)}.{name}", "the method does not exist")
    return f


def fun(ctx, rule, q):
    f = ctx.p.funcs.get(q)
    if f is None:
        ctx.skip(rule, short(q), "the function does not exist")
    return f


def batches_of(t, x):
    """Whether the term is the batches of data set x (as attribute or by iterating it)."""
    t = unwrap(t)
    return t == ("attr", x, "batches") or t == x


# ------------------------------------------------------------------ data sets
def datasets(ctx):
    f = method(ctx, "dataset.value", DS, "from_value")
    if f is not None:
        V = ("param", f.params()[1])
        for o in normals(paths(ctx, f, inline=pol())):
            same = any(c[0] == "isinstance" and c[1] == V and c[2] in (("class", DS), ("param", f.params()[0])) and b for c, b in o.st.conds)
            if same:
                ctx.check("dataset.value", "data set", o.val == V, f.loc, f"a data set is not used as it is: {fmt(o.val)[:100]}")
                continue
            asked = any(c[0] == "isinstance" and c[1] == V and c[2] in (("class", DS), ("param", f.params()[0])) and not b for c, b in o.st.conds)
            ctx.check("dataset.value", "data set", asked, f.loc, "a data set is wrapped in another data set")
            yes = {str(c[2][1]).rsplit(".", 1)[-1] for c, b in o.st.conds if c[0] == "isinstance" and c[1] == V and b}
            no = {str(c[2][1]).rsplit(".", 1)[-1] for c, b in o.st.conds if c[0] == "isinstance" and c[1] == V and not b}
            many = None
            for c, b in o.st.conds:
                if c[0] == "isinstance" and c[1] == V and c[2] not in (("class", DS), ("param", f.params()[0])):
                    many = b or bool(many)
            a = o.val[2][0] if o.val[0] == "call" and o.val[2] else (dict(o.val[3]).get("batches") if o.val[0] == "call" else None)
            if a is None or many is None:
                ctx.skip("dataset.value", "value", f"{fmt(o.val)[:80]} was not recognised")
                continue
            ctx.check("dataset.value", "kinds", yes <= {"list", "DataLoader"} if many else {"list", "DataLoader"} <= no, f.loc, "other values than lists and loaders are taken for batches, or lists and loaders for one batch")
            if many:
                ctx.check("dataset.value", "batches", a == ("call", ("builtin", "list"), (V,), ()), f.loc, f"the batches of a list or loader are {fmt(a)[:100]}")
            else:
                ctx.check("dataset.value", "single", a == ("list", V), f.loc, f"a single value becomes {fmt(a)[:100]}")
    f = method(ctx, "dataset.merge", DS, "merge")
    if f is not None:
        D = ("param", f.params()[-1])
        seen = {"one": 0, "refused": 0, "zip": 0}
        for o in paths(ctx, f, inline=pol(), loop_iters=(1, 2)):
            one = fact(o, lambda c: c[0] == "cmp" and c[1] == "==" and const(1) in c[2:] and ("call", ("builtin", "len"), (D,), ()) in c[2:])
            unequal = fact(o, lambda c: c[0] == "cmp" and c[1] in ("<", "<=", "==") and within(c, ("builtin", "set")))
            if o.kind == "raise":
                seen["refused"] += unequal is not None
                continue
            if one:
                seen["one"] += 1
                ctx.check("dataset.merge", "one", o.val == ("item", D, const(0)), f.loc, f"a single data set becomes {fmt(o.val)[:100]}")
                continue
            two(ctx, "dataset.merge", o, f, D)
            vals = list(parts(o.val[2][0] if o.val[0] == "call" and o.val[2] else o.val, o.st))
            for v in vals:
                seen["zip"] += 1
                v = unwrap(v)
                if v[0] == "comp":
                    it = v[3][0]
                    good = unwrap(it[0]) == D and not it[1] and v[2][0] == "item" and v[2][1] in (("attr", ("elem", D), "batches"),) and v[2][2][0] in ("elem", "idx")
                    ctx.check("dataset.merge", "batch", good, f.loc, f"a merged batch is {fmt(v)[:120]}")
                elif v[0] == "elem" and v[1][0] == "call" and v[1][1] == ("builtin", "zip"):
                    ctx.check("dataset.merge", "batch", contains(v, lambda x: x == ("attr", ("elem", D), "batches") or x == ("star", D)), f.loc, f"a merged batch is {fmt(v)[:120]}")
                else:
                    ctx.skip("dataset.merge", "batch", f"{fmt(v)[:80]} was not recognised")
        ctx.check("dataset.merge", "mismatch", seen["refused"] > 0, f.loc, "data sets of different lengths are not refused")
    f = method(ctx, "dataset.broadcast", DS, "broadcast")
    if f is not None:
        D = ("param", f.params()[-1])
        refused = 0
        for o in paths(ctx, f, inline=pol()):
            if o.kind == "raise":
                refused += 1
                continue
            if fact(o, lambda c: c in (D, ("nonempty", D))) is not False:
                two(ctx, "dataset.broadcast", o, f, D)
            v = unwrap(o.val)
            if v == D or v == ("list",) or v[0] == "fresh" and not contents(v, o.st):
                continue
            if v[0] != "comp" or len(v[3]) != 1:
                ctx.skip("dataset.broadcast", "result", f"{fmt(v)[:80]} was not recognised")
                continue
            ctx.check("dataset.broadcast", "all", unwrap(v[3][0][0]) == D and not v[3][0][1], f.loc, "data sets are left out or reordered")
            el = ("elem", v[3][0][0])
            lens = [("call", ("builtin", "len"), (x,), ()) for x in (el, ("attr", el, "batches"))]
            one = lambda c: c[0] == "cmp" and c[1] == "==" and const(1) in c[2:] and any(x in c[2:] for x in lens)
            single = fact(o, one)
            e = v[2]
            if e[0] == "ifexp":
                ctx.skip("dataset.broadcast", "element", "conditional element")
            elif single:
                rep = e[2][0] if e[0] == "call" and e[2] else dict(e[3]).get("batches") if e[0] == "call" else None
                ctx.check("dataset.broadcast", "single", rep is not None and rep[0] == "bin" and rep[1] == "*" and ("attr", el, "batches") in rep[2:] and not any(x[0] in ("bin", "const") for x in rep[2:]), f.loc, f"a single batch is extended to {fmt(e)[:100]}")
            elif single is False:
                ctx.check("dataset.broadcast", "longer", e == el, f.loc, f"a data set with several batches becomes {fmt(e)[:100]}")
            else:
                ctx.skip("dataset.broadcast", "element", f"{fmt(e)[:80]} does not depend on the length")
        ctx.check("dataset.broadcast", "mismatch", refused > 0, f.loc, "data sets of different lengths are not refused")


def two(ctx, rule, o, f, D):
    """A path that accepts the data sets must exclude that they have two different lengths (other than one)."""
    known = []
    for c, b in o.st.conds:
        c, b = norm(c, b)
        if c[0] == "cmp" and c[1] in ("<", "<=", "==") and any(x[0] == "const" and isinstance(x[2], int) for x in c[2:]):
            n = next((x for x in c[2:] if x[0] == "call" and x[1] == ("builtin", "len") and x[2] and x[2][0] != D and within(x, D) and not within(x[2][0], ("attr", ("elem", D), "batches")) and x[2][0] != ("elem", D)), None)
            if n is None:
                continue
            l, r = (2 if x == n else x[2] if x[0] == "const" else None for x in c[2:])
            if l is None or r is None:
                continue
            known.append((l < r if c[1] == "<" else l <= r if c[1] == "<=" else l == r) == b)
    if known:
        ctx.check(rule, "two lengths", not all(known), f.loc, "data sets of two different lengths are accepted")


def part_of(it, x):
    """Whether an iterable is a proper part of x: a slice with a constant bound."""
    while it[0] == "call" and it[2] and it[1][0] == "builtin":
        it = it[2][0]
    if it[0] == "item" and it[2][0] == "slice" and contains(it[1], x):
        return any(b[0] == "const" and b not in (NONE, const(0)) for b in it[2][1:3])
    return False


def complete(ctx):
    """Loops over everything an instruction names look at all of it."""
    I = lambda f: [("param", f.params()[0])]
    R = lambda f: [("param", f.params()[1])]
    table = [
        (f"{ENG}.StoreValue.execute", lambda f: [field("contexts")]),
        (f"{ENG}.DeleteRegisterEntries.execute", lambda f: [field("targets")]),
        (f"{ENG}.CallModule.execute", lambda f: [field("contexts")]),
        (f"{ENG}.OptimizeModule.execute", lambda f: [("attr", field("delegate"), "contexts")]),
        (f"{ENG}.ReturnOutputs.execute", lambda f: [field("outputs"), *R(f)]),
        (f"{ENG}.LoadAttribute.execute", R),
        (f"{ENG}.MoveActivations.execute", R),
        (f"{ENG}.MoveModule.execute", lambda f: [field("module")]),
        (f"{ENG}._move_to_device", I),
        (f"{ENG}._propagate_contexts", lambda f: [("param", x) for x in f.params()]),
        (f"{ENG}.InstructionProgram.contexts", lambda f: [field("instructions")]),
        (f"{ENG}.InstructionPasses.apply", lambda f: [("param", x) for x in f.params()]),
        (f"{ENG}.lifetime_management_pass", I),
        (f"{ENG}.optimization_only_pass", I),
        (f"{ENG}._weight_offloading_pass", lambda f: [("param", x) for x in f.params()]),
        (f"{ENG}._activation_offloading_pass", I),
        (f"{ENG}._cancel_redundant_activation_moves", I),
        (f"{ENG}.InstructionScheduler._schedule", lambda f: [("param", x) for x in f.params()[1:]]),
        (f"{ENG}.InstructionScheduler._schedule_node", lambda f: [("param", x) for x in f.params()[1:]]),
        (f"{ENG}.InstructionScheduler._schedule_return", lambda f: [("param", x) for x in f.params()[1:]]),
        (f"{ENG}.ActivationBundle.gather", lambda f: [("param", x) for x in f.params()[1:]]),
        (f"{ENG}.InstructionEngine.prepare_input_register", lambda f: [("param", x) for x in f.all_params()]),
    ]
    for q, srcs in table:
        f = fun(ctx, "complete", q)
        if f is None:
            continue
        S = srcs(f)
        src = lambda t: t in S
        bad = None
        for o in paths(ctx, f, inline=pol(tuple(x for x in ORACLES) + ("uses", "produces", "unwrap_ref", "node", "node_inputs", "_schedule_ref_id", "_schedule_node", "_schedule_return")), loop_iters=(0, 1)):
            if o.kind == "raise":
                continue
            evs = o.st.events
            for i, e in enumerate(evs):
                if e.kind == "loop" and e.obj is not None and contains(e.obj, src):
                    end = next((x for x in evs[i + 1:] if x.kind == "endloop" and x.obj == e.obj), None)
                    if end is None or end.name == "break":
                        bad = f"a loop over {fmt(e.obj)[:60]} ends early"
                    if contains(e.obj, lambda t: part_of(t, src)):
                        bad = f"only {fmt(e.obj)[:60]} is looked at"
                for t in (e.value, *e.args):
                    if t is not None and contains(t, lambda t: t[0] == "comp" and any(contains(g[0], lambda u: part_of(u, src)) for g in t[3])):
                        bad = f"only a part is looked at in {fmt(t)[:80]}"
            if o.val is not None and contains(o.val, lambda t: t[0] == "comp" and any(contains(g[0], lambda u: part_of(u, src)) for g in t[3])):
                bad = f"only a part is looked at in {fmt(o.val)[:80]}"
            for c, b in o.st.conds:
                if c[0] == "nonempty" and contains(c[1], lambda t: part_of(t, src)):
                    bad = f"only {fmt(c[1])[:60]} is looked at"
        ctx.check("complete", short(q), bad is None, f.loc, bad or "")


def within(t, sub):
    return contains(t, lambda x: x == sub)


def parts(t, st):
    t = unwrap(t)
    if t[0] == "fresh":
        return contents(t, st)
    if t[0] in ("list", "tuple"):
        return t[1:]
    if t[0] == "call" and t[1] == ("builtin", "zip"):
        return [("elem", t)]
    if t[0] == "comp":
        return [t[2]]
    return []


# ------------------------------------------------------------------ register
def register(ctx):
    DATA = ("attr", SELF, "_data")
    f = method(ctx, "register", REG, "load")
    if f is None:
        return
    r, c = (("param", x) for x in f.params()[1:3])
    for o in normals(paths(ctx, f, inline=pol())):
        v = o.val
        ctx.check("register", "load", v[0] == "item" and v[2] == c and v[1][0] == "item" and v[1][2] == r, f.loc, f"the data of a reference in a context is read as {fmt(v)[:100]}")
    f = method(ctx, "register", REG, "store")
    if f is not None:
        r, c, d = (("param", x) for x in f.params()[1:4])
        for o in normals(paths(ctx, f, inline=pol())):
            last = [e for e in o.st.events if e.kind == "setitem"]
            good = bool(last) and last[-1].args[0] == c and last[-1].value == d and slot(o, last[-1].obj, r)
            known = fact(o, lambda x: x[0] == "cmp" and x[1] == "in" and x[2] == r)
            ctx.check("register", "store", good, f.loc, "data is not stored under its reference and context")
            if known is not False:
                ctx.check("register", "store keeps", not any(e.args[0] == r for e in last[:-1]), f.loc, "storing data drops what other contexts stored for the reference")
    f = method(ctx, "register", REG, "store_all")
    if f is not None:
        r, m = (("param", x) for x in f.params()[1:3])
        n = 0
        for o in normals(paths(ctx, f, inline=pol())):
            ups = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".update") and e.args and e.args[0] == m]
            sets = [e for e in o.st.events if e.kind == "setitem" and e.args[0] == r and e.value is not None and within(e.value, m)]
            loops = [e for e in o.st.events if e.kind == "setitem" and e.args[0] in (("key", m),)]
            n += 1
            if ups:
                ctx.check("register", "store_all", slot(o, ups[-1].obj, r), f.loc, "the data is added to another entry")
            elif sets:
                ctx.check("register", "store_all", any(v[0] in ("dict", "bin") and contains(v, lambda x: x[0] in ("item", "call") and within(x, r)) for v in (e.value for e in sets)), f.loc, "storing data drops what other contexts stored for the reference")
            elif not loops and not any(e.kind == "loop" for e in o.st.events):
                ctx.check("register", "store_all", any(c == ("nonempty", m) and not b for c, b in o.st.conds), f.loc, "the data is not stored")
    f = method(ctx, "register", REG, "items_for")
    if f is not None:
        for o in normals(paths(ctx, f, inline=pol())):
            v = unwrap(o.val)
            rec = meth(v, "items")
            ctx.check("register", "items_for", rec is not None and rec[0] == "item" and rec[2] == ("param", f.params()[1]), f.loc, f"the data of a reference is {fmt(v)[:100]}")
    f = method(ctx, "register", REG, "delete")
    if f is not None:
        r, c = (("param", x) for x in f.params()[1:3])
        for o in normals(paths(ctx, f, inline=pol())):
            allctx = fact(o, lambda x: x == ("cmp", "is", c, NONE) or x == ("cmp", "is", NONE, c))
            pops = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".pop") or e.kind == "delitem"]
            if allctx:
                ctx.check("register", "delete", any(e.args and e.args[0] == r for e in pops) or fact(o, lambda x: x[0] == "cmp" and x[1] == "in" and x[2] == r) is False, f.loc, "an entry is not deleted")
            else:
                whole = [e for e in pops if e.args and e.args[0] == r]
                empty = any(norm(x, b)[1] is False and x[0] != "cmp" or x[0] == "cmp" and x[1] == "==" and b for x, b in o.st.conds if not within(x, c))
                other = [e for e in o.st.events if e.kind == "call" and e.name.endswith((".clear", ".popitem"))]
                here = fact(o, lambda x: x[0] == "cmp" and x[1] == "in" and x[2] == r)
                if here:
                    ctx.check("register", "delete one context", any(e.args and e.args[0] == c for e in pops), f.loc, "the data of the context is not deleted")
                ctx.check("register", "delete one", (not whole or empty) and not other, f.loc, "deleting the data of one context drops the other contexts")


def slot(o, obj, ref):
    """The dictionary kept for a reference."""
    if obj[0] == "item" and obj[2] == ref:
        return True
    if obj[0] == "call" and meth(obj, "setdefault") is not None and obj[2][:1] == (ref,):
        return True
    return any(e.kind == "setitem" and e.args[0] == ref and e.value == obj for e in o.st.events)


# ------------------------------------------------------------------ bundles
def bundle(ctx):
    f = method(ctx, "bundle.inputs", BUNDLE, "gather")
    if f is None:
        return
    REGI, C, A, K = (("param", x) for x in f.params()[1:5])
    for o in normals(paths(ctx, f, inline=pol(ORACLES))):
        loads = [e for e in o.st.events if api(e, REG) == "load"]
        for e in loads:
            ref = e.args[0]
            ctx.check("bundle.inputs", "load", ref in (("elem", A), ("val", K), ("item", K, ("key", K))) and evarg(e, 1, "context") == C and e.obj == REGI, f.loc, f"an input is read as {fmt(e.value)[:100]}")
            isconst = fact(o, lambda c: c[0] == "isinstance" and c[1] == ref and c[2] == CONST)
            ctx.check("bundle.constants", "register", isconst is not True, f.loc, "constants are looked up in the register")
        kw = dict(o.val[3]) if o.val[0] == "call" else {}
        a = kw.get("args", o.val[2][0] if o.val[0] == "call" and o.val[2] else None)
        k = kw.get("kwargs", o.val[2][1] if o.val[0] == "call" and len(o.val[2]) > 1 else None)
        bc = [e for e in o.st.events if api(e, DS) == "broadcast"]
        if a is not None and k is not None and len(bc) != 1 and loads:
            plain = not contains(o.val, lambda x: x[0] == "bin" or x[0] == "call" and ref_name(x[1]).endswith(("repeat", "cycle")))
            both = any(within(e.args[0], A) and within(e.args[0], K) for e in bc if e.args)
            ctx.check("bundle.inputs", "common length", not (plain and not both), f.loc, "positional and keyword inputs are not brought to a common length")
            continue
        if a is None or k is None or len(bc) != 1:
            ctx.skip("bundle.inputs", "result", f"{fmt(o.val)[:80]} was not recognised")
            continue
        order = [unwrap(x[1]) if x[0] == "star" else x for x in (contents(bc[0].args[0], o.st) if bc[0].args else [])]
        order = [x[1] if x[0] == "star" else x for x in order]
        srcs = []
        for x in order:
            rec = meth(x, "values")
            x = rec if rec is not None else x
            srcs.append(x)
        if len(srcs) == 2 and srcs[0][0] == srcs[1][0] == "comp" and within(srcs[0][3][0][0], K) and unwrap(srcs[1][3][0][0]) == A:
            ua = unwrap(a)
            ctx.check("bundle.split", "args", not (ua[0] == "item" and ua[2][0] == "slice" and ua[2][1] in (NONE, const(0))), f.loc, "the positional inputs are taken from the keyword inputs")
            continue
        okA = len(srcs) == 2 and srcs[0][0] == "comp" and unwrap(srcs[0][3][0][0]) == A and not srcs[0][3][0][1]
        okK = len(srcs) == 2 and srcs[1][0] == "comp" and within(srcs[1][3][0][0], K) and not srcs[1][3][0][1]
        if not (okA and okK):
            ctx.skip("bundle.inputs", "order", f"{fmt(bc[0].args[0])[:80]} was not recognised")
            continue
        for x, el in ((srcs[0][2], ("elem", A)), (srcs[1][2], ("val", K))):
            v = x[2] if x[0] == "pair" else x
            isconst = fact(o, lambda c: c[0] == "isinstance" and c[1] == el and c[2] == CONST)
            if isconst:
                ctx.check("bundle.constants", "value", newclass(v, DS) and (v[2][:1] == (("list", ("attr", el, "value")),) or dict(v[3]).get("batches") == ("list", ("attr", el, "value"))), f.loc, f"a constant becomes {fmt(v)[:100]}")
            else:
                ctx.check("bundle.inputs", "value", meth(v, "load") == REGI and v[2][:1] == (el,), f.loc, f"an input becomes {fmt(v)[:100]}")
            if x[0] == "pair":
                ctx.check("bundle.inputs", "name", x[1] == ("key", K), f.loc, "keyword inputs change their names")
        res = ("call", bc[0], (), ())
        n = [("call", ("builtin", "len"), (s,), ()) for s in (srcs[0], A)]
        ua = unwrap(a)
        ctx.check("bundle.split", "args", ua[0] == "item" and ua[2][0] == "slice" and ua[2][1] in (NONE, const(0)) and ua[2][2] in n and ua[2][3] == NONE, f.loc, f"the positional inputs are {fmt(a)[:120]}")
        z = k
        while z[0] == "call" and z[1] == ("builtin", "dict") and len(z[2]) == 1:
            z = z[2][0]
        if z[0] == "call" and z[1] == ("builtin", "zip") and len(z[2]) == 2:
            keys, vals = z[2]
            rec = meth(keys, "keys")
            keys = rec if rec is not None else unwrap(keys)
            ctx.check("bundle.split", "kwargs", keys in (srcs[1], K) and vals[0] == "item" and vals[2][0] == "slice" and vals[2][1] in n and vals[2][2] == NONE, f.loc, f"the keyword inputs are {fmt(k)[:120]}")
        else:
            ctx.skip("bundle.split", "kwargs", f"{fmt(k)[:80]} was not recognised")
    f = method(ctx, "bundle.batch", BUNDLE, "__iter__")
    if f is not None:
        A, K = ("attr", SELF, "args"), ("attr", SELF, "kwargs")
        for o in paths(ctx, f, inline=pol(("__len__",)), loop_iters=(0, 1)):
            for e in o.st.events:
                if e.kind != "yield":
                    continue
                v = e.value
                if v[0] != "tuple" or len(v) != 3:
                    ctx.skip("bundle.batch", "pair", f"{fmt(v)[:80]} was not recognised")
                    continue
                a, k = unwrap(v[1]), v[2]
                if a[0] == "comp" and k[0] == "comp":
                    ia, ik = a[2], k[2][2] if k[2][0] == "pair" else NONE
                    good = unwrap(a[3][0][0]) == A and not a[3][0][1] and ia[0] == "item" and ia[1] == ("attr", ("elem", A), "batches")
                    ctx.check("bundle.batch", "args", good, f.loc, f"the positional inputs of a batch are {fmt(a)[:120]}")
                    good = within(k[3][0][0], K) and not k[3][0][1] and ik[0] == "item" and ik[1] == ("attr", ("val", K), "batches") and k[2][1] == ("key", K)
                    ctx.check("bundle.batch", "kwargs", good, f.loc, f"the keyword inputs of a batch are {fmt(k)[:120]}")
                    ctx.check("bundle.batch", "aligned", ia[0] == "item" and ik[0] == "item" and ia[2] == ik[2], f.loc, "positional and keyword inputs of a batch come from different batches")
                else:
                    ctx.skip("bundle.batch", "pair", f"{fmt(v)[:80]} was not recognised")
            if any(e.kind == "loop" for e in o.st.events):
                it = next(e for e in o.st.events if e.kind == "loop").obj
                if it[0] == "call" and it[1] == ("builtin", "range"):
                    ctx.check("bundle.batch", "all", len(it[2]) == 1 and it[2][0][0] != "bin", f.loc, f"the batches are {fmt(it)[:80]}")
    f = method(ctx, "bundle.length", BUNDLE, "__len__")
    if f is not None:
        A, K = ("attr", SELF, "args"), ("attr", SELF, "kwargs")
        for o in normals(paths(ctx, f, inline=pol(), loop_iters=(0, 1))):
            ea, ek = (fact(o, lambda c, x=x: c in (("nonempty", x), x) or c[0] == "nonempty" and meth(c[1], "values") == x) for x in (A, K))
            v = o.val
            if ea:
                ctx.check("bundle.length", "args", v[0] == "call" and v[1] == ("builtin", "len") and within(v, A), f.loc, f"the number of batches is {fmt(v)[:80]}")
            elif ek:
                ctx.check("bundle.length", "kwargs", v[0] == "call" and v[1] == ("builtin", "len") and within(v, K), f.loc, f"the number of batches is {fmt(v)[:80]}")
            elif ea is False and ek is None and v[0] == "const":
                ctx.check("bundle.length", "kwargs", False, f.loc, "a call with keyword inputs only has no batches")
            elif ea is False and ek is False:
                ctx.check("bundle.length", "none", v == const(0), f.loc, f"the number of batches is {fmt(v)[:80]}")


# ------------------------------------------------------------------ declared effects
def declared(t, st):
    """References of an iterable over fields of an instruction: {("one"|"all", field)}, or None."""
    t = unwrap(t)
    if t[0] == "fresh":
        t = ("list",) + tuple(contents(t, st))
    if t[0] in ("list", "tuple", "set"):
        out = set()
        for x in t[1:]:
            r = declared(x[1], st) if x[0] == "star" else one(x)
            if r is None:
                return None
            out |= r
        return out
    if t[0] == "call" and t[1][0] == "ext" and t[1][1].startswith("itertools.chain"):
        out = set()
        for x in t[2]:
            r = declared(x, st)
            if r is None:
                return None
            out |= r
        return out
    if t[0] == "attr" and t[1] == SELF:
        return {("all", t[2])}
    if part_of(t, lambda x: x[0] == "attr" and x[1] == SELF):
        return set()
    rec = meth(t, "values")
    if rec is not None and rec[0] == "attr" and rec[1] == SELF:
        return {("all", rec[2])}
    if t[0] == "comp" and len(t[3]) == 1 and not t[3][0][1]:
        return one(t[2])
    return None


def one(t):
    if t[0] == "attr" and t[1] == SELF:
        return {("one", t[2])}
    if t[0] in ("elem", "val"):
        b = t[1]
        rec = meth(b, "values") if b[0] == "call" else None
        b = rec if rec is not None else unwrap(b)
        if b[0] == "attr" and b[1] == SELF:
            return {("all", b[2])}
    if t[0] == "item" and t[2][0] == "key" and t[1][0] == "attr" and t[1][1] == SELF:
        return {("all", t[1][2])}
    return None


def effects(ctx):
    base = f"{ENG}.Instruction"
    if base not in ctx.p.classes:
        ctx.skip("effects", "Instruction", "the class does not exist")
        return
    n = 0
    for cq in sorted(ctx.p.subclasses(base)):
        f = ctx.p.find_method(cq, "execute")
        if f is None or f.cls.qual == base or cq == base:
            continue
        n += 1
        name = cq.rsplit(".", 1)[1]
        reads, writes, unknown, deleting = set(), set(), False, False
        for o in paths(ctx, f, inline=pol(ORACLES), loop_iters=(0, 1)):
            for e in o.st.events:
                k, g = api(e, REG), api(e, BUNDLE)
                if k in READS or k in WRITES:
                    r = one(e.args[0]) if e.args else None
                    unknown |= r is None
                    (reads if k in READS else writes).update(r or ())
                elif k == "delete":
                    deleting = True
                elif g == "gather":
                    a, kw = evarg(e, 2, "args"), evarg(e, 3, "kwargs")
                    for x in (a, kw):
                        r = declared(x, o.st) if x is not None else None
                        unknown |= r is None
                        reads.update(r or ())
        decl = {}
        for m in ("uses", "produces"):
            g = ctx.p.find_method(cq, m)
            if g is None:
                continue
            res = []
            for o in normals(paths(ctx, g, inline=pol(), loop_iters=(0, 1))):
                got, ok = set(), True
                for e in o.st.events:
                    if e.kind == "yield":
                        r = declared(e.extra[0], o.st) if e.name == "from" and e.extra else one(e.value)
                        ok = ok and r is not None
                        got |= r or set()
                if o.val is not None and o.val != NONE:
                    r = declared(o.val, o.st)
                    ok = ok and r is not None
                    got |= r or set()
                empty = {("all", c[1][2]) for c, b in (norm(c, b) for c, b in o.st.conds) if not b and c[0] == "nonempty" and c[1][0] == "attr" and c[1][1] == SELF}
                empty |= {("all", c[2]) for c, b in (norm(c, b) for c, b in o.st.conds) if not b and c[0] == "attr" and c[1] == SELF}
                empty |= {("all", meth(c[1], "values")[2]) for c, b in (norm(c, b) for c, b in o.st.conds) if not b and c[0] == "nonempty" and c[1][0] == "call" and (meth(c[1], "values") or NONE)[0] == "attr"}
                res.append((got, empty, ok))
            decl[m] = (g, res)
        if unknown or any(not ok for _, res in decl.values() for *_, ok in res):
            ctx.skip("effects", name, "the references read or written were not recognised")
            continue
        for what, need, meths in (("uses", reads, ("uses",)), ("produces", writes - reads, ("produces",))):
            g, res = decl.get(what, (f, []))
            for r in sorted(need):
                good = bool(res) and all(r in got or r in empty for got, empty, _ in res)
                ctx.check("effects", f"{name}.{what}", good, g.loc, f"{name} {'reads' if what == 'uses' else 'writes'} the entries of {r[1]} without declaring it: passes may delete or drop what it needs")
        if deleting:
            ctx.check("effects", f"{name} deletes", not reads and not writes, f.loc, "an instruction that deletes entries also reads or writes them")
    ctx.floor("effects", 8)


# ------------------------------------------------------------------ what instructions do
def instr(ctx, rule, name, meth_="execute"):
    return method(ctx, rule, f"{ENG}.{name}", meth_)


def field(n):
    return ("attr", SELF, n)


def instructions(ctx):
    call_module(ctx)
    optimize_module(ctx)
    return_outputs(ctx)
    load_attribute(ctx)
    f = instr(ctx, "store", "StoreValue")
    if f is not None:
        R = ("param", f.params()[1])
        for o in normals(paths(ctx, f, inline=pol(ORACLES), loop_iters=(0, 1))):
            some = fact(o, lambda c: c == ("nonempty", field("contexts")))
            st = [e for e in o.st.events if api(e, REG) in WRITES]
            if some:
                ctx.check("store", "value", any(e.obj == R and e.args[0] == field("target") and within(e.value, ("elem", field("contexts"))) and within(e.value, field("value")) for e in st), f.loc, "the value is not stored under its reference in every context")
    f = instr(ctx, "delete", "DeleteRegisterEntries")
    if f is not None:
        for o in normals(paths(ctx, f, inline=pol(ORACLES), loop_iters=(0, 1))):
            if fact(o, lambda c: c == ("nonempty", field("targets"))):
                d = [e for e in o.st.events if api(e, REG) == "delete"]
                ctx.check("delete", "targets", bool(d) and all(e.args == (("elem", field("targets")),) for e in d), f.loc, "other entries than the targets are deleted")


def call_module(ctx):
    f = instr(ctx, "call.inputs", "CallModule")
    if f is None:
        return
    R, CS = ("param", f.params()[1]), field("contexts")
    n = 0
    for o in normals(paths(ctx, f, inline=pol(ORACLES), loop_iters=(0, 1))):
        if fact(o, lambda c: c == ("nonempty", CS)) is False:
            continue
        evs = o.st.events
        el = ("elem", CS)
        gathers = [e for e in evs if api(e, BUNDLE) == "gather"]
        mods = [i for i, e in enumerate(evs) if e.kind == "call" and e.value is not None and e.value[0] == "call" and e.value[1] == field("module")]
        if not mods:
            if fact(o, lambda c: c[0] == "nonempty" and contains(c, lambda x: x[0] == "call" and ref_name(x[1]).endswith("gather"))) is False:
                continue
            ctx.check("call.inputs", "called", False, f.loc, "the module is not called in every context")
            continue
        n += 1
        for g in gathers:
            ctx.check("call.inputs", "bundle", evarg(g, 0, "register") == R and evarg(g, 1, "context") == el and evarg(g, 2, "args") == field("args") and evarg(g, 3, "kwargs") == field("kwargs"), f.loc, f"the inputs are gathered as {fmt(g.value)[:140]}")
        noargs = fact(o, lambda c: c == field("args")) is False and fact(o, lambda c: c == field("kwargs")) is False
        for i in mods:
            opened = [e for e in evs[:i] if e.kind == "enter" and e.obj == el]
            closed = [e for e in evs[:i] if e.kind == "exit" and e.obj == el]
            ctx.check("call.context", "inside", len(opened) == len(closed) + 1, f.loc, "the module is called outside of its context")
            c = evs[i].value
            if not c[2] and not c[3]:
                ctx.check("call.inputs", "none", noargs, f.loc, "a module with inputs is called without")
                continue
            b = c[2][0][1] if len(c[2]) == 1 and c[2][0][0] == "star" else None
            k = c[3][0][1] if len(c[3]) == 1 and c[3][0][0] in ("**", None) else None
            good = b is not None and k is not None and b[0] == "item" and k[0] == "item" and b[1] == k[1] and b[2] == const(0) and k[2] == const(1) and b[1][0] == "elem" and any(b[1][1] == g.value for g in gathers)
            ctx.check("call.inputs", "batch", good, f.loc, f"the module is called with {fmt(c)[:140]}")
        # the result of every batch is stored, in the context it was computed in
        stored = [e for e in evs if api(e, REG) in WRITES]
        if not stored:
            ctx.check("call.result", "stored", False, f.loc, "the result of the call is not stored")
        for e in stored:
            ctx.check("call.result", "target", e.obj == R and e.args[0] == field("target"), f.loc, f"the result is stored as {fmt(e.value)[:100]}")
            if api(e, REG) == "store":
                c, v = e.args[1], e.args[2]
            else:
                m = e.args[1]
                sets = [x for x in evs if x.kind == "setitem" and x.obj == m]
                c, v = (sets[-1].args[0], sets[-1].value) if sets else (None, None)
                if m[0] == "dict" and len(m) == 2:
                    c, v = m[1][1], m[1][2]
                if m[0] == "comp":
                    c, v = m[2][1], m[2][2]
            if c is None or v is None:
                ctx.skip("call.result", "value", f"{fmt(e.value)[:80]} was not recognised")
                continue
            ctx.check("call.result", "context", c == el, f.loc, "the result is stored for another context")
            b = unwrap(v[2][0] if v[2] else dict(v[3]).get("batches", NONE)) if newclass(v, DS) else None
            if b is None and v[0] == "call" and ref_name(v[1]).endswith("from_value") and v[2]:
                b = unwrap(v[2][-1])
                ctx.check("call.result", "list", b[0] in ("fresh", "list", "comp"), f.loc, f"a result that is a list is taken for batches: {fmt(v)[:80]}")
            if b is None:
                ctx.skip("call.result", "value", f"{fmt(v)[:80]} was not recognised")
                continue
            calls = {evs[i].value for i in mods}
            if b[0] == "comp":
                ctx.check("call.result", "value", b[2] in calls and not b[3][0][1] and (not gathers or b[3][0][0] in {g.value for g in gathers}), f.loc, f"the stored batches are {fmt(b)[:120]}")
            else:
                ps = list(parts(b, o.st))
                ctx.check("call.result", "value", bool(ps) and all(x in calls for x in ps), f.loc, f"the stored batches are {fmt(b)[:120]}")
    ctx.floor("call.inputs", 4)


def optimize_module(ctx):
    f = instr(ctx, "optimize", "OptimizeModule")
    if f is None:
        return
    R = ("param", f.params()[1])
    DEL = field("delegate")
    CS = ("attr", DEL, "contexts")
    for o in normals(paths(ctx, f, inline=pol(ORACLES), loop_iters=(0, 1))):
        evs = o.st.events
        calls = [e for e in evs if e.kind == "call" and e.value is not None and e.value[0] == "call" and e.value[1] == ("attr", DEL, "fn")]
        ctx.check("optimize", "called", len(calls) == 1, f.loc, "the delegate is not called exactly once")
        for g in (e for e in evs if api(e, BUNDLE) == "gather"):
            ctx.check("optimize", "bundle", evarg(g, 0, "register") == R and evarg(g, 1, "context") == ("elem", CS) and evarg(g, 2, "args") == field("args") and evarg(g, 3, "kwargs") == field("kwargs"), f.loc, f"the inputs are gathered as {fmt(g.value)[:140]}")
        for e in calls:
            ctx.check("optimize", "module", bool(e.args) and e.args[0] == field("module"), f.loc, "the delegate gets another module")
            rest = e.args[1:]
            src = unwrap(rest[0][1]) if len(rest) == 1 and rest[0][0] == "star" else None
            if src is not None and src[0] == "comp":
                ctx.check("optimize", "order", src[3][0][0] == CS and not src[3][0][1] and ref_name(src[2][1]).endswith("gather"), f.loc, f"the delegate gets {fmt(src)[:100]}")
            elif src is not None and src[0] == "fresh":
                loops = [x.obj for x in evs if x.kind == "loop"]
                ctx.check("optimize", "order", loops in ([CS], []) and all(ref_name(x[1]).endswith("gather") for x in contents(src, o.st) if x[0] == "call"), f.loc, f"the delegate gets bundles of {[fmt(x) for x in loops]}")
            elif src is not None and src[0] == "call" and src[1][0] == "builtin" and src[1][1] in ("reversed", "sorted", "set"):
                ctx.check("optimize", "order", False, f.loc, f"the delegate gets {fmt(src)[:80]}")
            else:
                ctx.skip("optimize", "order", f"{[fmt(x)[:60] for x in rest]} was not recognised")


def return_outputs(ctx):
    f = instr(ctx, "return", "ReturnOutputs")
    if f is None:
        return
    OUT = field("outputs")
    n = 0
    for o in normals(paths(ctx, f, inline=pol(ORACLES), loop_iters=(0, 1))):
        evs = o.st.events
        loops = [e.obj for e in evs if e.kind == "loop"]
        if not loops:
            continue
        ctx.check("return", "outputs", loops[0] == OUT, f.loc, f"the outputs are taken from {fmt(loops[0])[:80]}")
        items = [e for e in evs if api(e, REG) in READS]
        ctx.check("return", "read", all(e.args[0] == ("elem", OUT) for e in items), f.loc, "other references than the outputs are returned")
        apps = [e for e in evs if e.kind == "call" and e.name.endswith(".append")]
        if len(loops) < 2 or not apps:
            continue
        n += 1
        el = ("elem", loops[1])
        rec = meth(loops[1], "items_for")
        for e in apps:
            good = e.args == (("item", el, const(1)),) and contains(e.obj, lambda x: x == ("item", el, const(0)))
            ctx.check("return", "grouped", good, f.loc, f"an output is added as {fmt(e.value)[:120]}")
        v = o.val
        if v[0] == "comp" and v[2][0] == "pair":
            d = v[2][2]
            m = [x for x in walk(d) if x[0] == "call" and ref_name(x[1]).endswith(".merge")]
            src = v[3][0][0]
            rec = meth(src, "items")
            src = rec if rec is not None else src
            ctx.check("return", "merged", len(m) == 1 and v[2][1] == ("key", src) and m[0][2] == (("val", src),) and not v[3][0][1] and d == ("call", ("builtin", "tuple"), (("attr", m[0], "batches"),), ()), f.loc, f"the result is {fmt(v)[:140]}")
        else:
            ctx.skip("return", "merged", f"{fmt(v)[:80]} was not recognised")
    if n == 0:
        ctx.skip("return", "grouped", "the grouping of outputs was not recognised")


def load_attribute(ctx):
    f = instr(ctx, "attribute", "LoadAttribute")
    if f is None:
        return
    R, A = ("param", f.params()[1]), field("attribute")
    for o in normals(paths(ctx, f, inline=pol(ORACLES), loop_iters=(1,))):
        asks = any(x[0] in ("isinstance", "call") and not (x[0] == "isinstance" and x[1] == A) for c, _ in o.st.conds if c[0] != "nonempty" for x in walk(c))
        for e in o.st.events:
            if api(e, REG) == "store" and not asks:
                ga = [x for x in walk(e.args[2]) if x[0] == "call" and x[1] == ("builtin", "getattr")]
                ctx.check("attribute", "items first", not ga or contains(e.args[2], lambda x: x[0] in ("ifexp", "isinstance")), f.loc, "attributes hide the items of a mapping")
    for o in normals(paths(ctx, f, inline=pol(ORACLES), loop_iters=(0, 1), exc="calls")):
        evs = o.st.events
        loops = [e.obj for e in evs if e.kind == "loop"]
        if not loops:
            continue
        src = next((e for e in evs if api(e, REG) == "items_for"), None)
        ctx.check("attribute", "source", src is not None and src.obj == R and src.args == (field("source"),), f.loc, "the part is taken from another entry")
        el = ("elem", loops[0])
        data, c0 = ("item", el, const(1)), ("item", el, const(0))
        isint = fact(o, lambda c: c[0] == "isinstance" and c[1] == A and c[2] == ("builtin", "int"))
        for e in evs:
            if api(e, REG) != "store":
                continue
            ctx.check("attribute", "target", e.args[0] == field("target") and e.args[1] == c0, f.loc, f"the part is stored as {fmt(e.value)[:120]}")
            v = e.args[2]
            b = unwrap(v[2][0] if v[2] else dict(v[3]).get("batches", NONE)) if newclass(v, DS) else None
            if b is None or b[0] != "comp":
                ctx.skip("attribute", "value", f"{fmt(v)[:80]} was not recognised")
                continue
            src_el = ("elem", b[3][0][0])
            ok_it = b[3][0][0] in (data, ("attr", data, "batches")) and not b[3][0][1]
            alt = (("item", src_el, A), ("call", ("builtin", "getattr"), (src_el, A), ()))
            ctx.check("attribute", "value", ok_it and b[2] in (alt[:1] if isint else alt), f.loc, f"the parts are {fmt(b)[:120]}")


# ------------------------------------------------------------------ moving data
def moving(ctx):
    f = fun(ctx, "move.value", f"{ENG}._move_to_device")
    if f is not None:
        V, D = ("param", f.params()[0]), ("param", f.params()[1])
        rec = ("call", ("func", f.qual))
        for o in normals(paths(ctx, f, inline=no_inline, exc="calls")):
            pos = [c[2][1] for c, b in o.st.conds if b and c[0] == "isinstance" and c[1] == V]
            kind = pos[0].rsplit(".", 1)[1] if pos and "." in pos[0] else pos[0] if pos else None
            v = o.val
            if kind == "Tensor":
                ctx.check("move.value", "tensor", meth(v, "to") == V and arg(v, 0, "device") == D, f.loc, f"a tensor becomes {fmt(v)[:80]}")
            elif kind in ("tuple", "list", "dict"):
                c = v
                while c[0] == "call" and len(c[2]) == 1 and (c[1] == ("builtin", kind) or c[1] == ("call", ("builtin", "type"), (V,), ())):
                    c = c[2][0]
                if c[0] != "comp":
                    ctx.skip("move.value", kind, f"{fmt(v)[:80]} was not recognised")
                    continue
                e = c[2]
                want = ("elem", V)
                if kind == "dict":
                    ctx.check("move.value", "keys", e[0] == "pair" and e[1] == ("key", V), f.loc, f"the keys become {fmt(e)[:80]}")
                    e, want = (e[2] if e[0] == "pair" else e), ("val", V)
                ctx.check("move.value", kind, e[0] == "call" and e[1] == ("func", f.qual) and e[2][:1] == (want,) and arg(e, 1, f.params()[1]) == D and not c[3][0][1], f.loc, f"the parts become {fmt(e)[:80]}")
                if kind in ("tuple", "list"):
                    ctx.check("move.value", kind + " type", v[0] == "comp" and v[1] == "list" if kind == "list" and v[0] == "comp" else v[0] == "call" and (v[1] == ("builtin", kind) or within(v[1], V)), f.loc, f"a {kind} becomes {fmt(v)[:60]}")
            elif kind is None:
                ctx.check("move.value", "other", v == V, f.loc, f"another value becomes {fmt(v)[:80]}")
    f = instr(ctx, "move.entry", "MoveActivations")
    if f is not None:
        R = ("param", f.params()[1])
        for o in normals(paths(ctx, f, inline=pol(ORACLES + ("_move_to_device",)), loop_iters=(0, 1))):
            loops = [e.obj for e in o.st.events if e.kind == "loop"]
            if not loops:
                continue
            el = ("elem", loops[0])
            st = [e for e in o.st.events if api(e, REG) == "store"]
            ctx.check("move.entry", "stored", len(st) == 1 and st[0].obj == R and st[0].args[0] == field("register_ref") and st[0].args[1] == ("item", el, const(0)), f.loc, "a moved entry is not stored in its own place")
            for e in st:
                comps = [x for x in walk(e.args[2]) if x[0] == "comp"]
                mv = [x for x in walk(e.args[2]) if x[0] == "call" and x[1] == ("func", f"{ENG}._move_to_device")]
                ctx.check("move.entry", "device", len(mv) == 1 and arg(mv[0], 1, "device") == field("device") and len(comps) == 1 and mv[0][2][0] == ("elem", comps[0][3][0][0]) and not comps[0][3][0][1] and batches_of(comps[0][3][0][0], ("item", el, const(1))), f.loc, f"an entry becomes {fmt(e.args[2])[:120]}")
    f = instr(ctx, "move.module", "MoveModule")
    if f is not None:
        DEV, MOD = field("device"), field("module")
        seen = set()
        for o in normals(paths(ctx, f, inline=pol(ORACLES), loop_iters=(0, 1))):
            isdict = fact(o, lambda c: c[0] == "isinstance" and c[1] == DEV and c[2] == ("builtin", "dict"))
            loops = [e.obj for e in o.st.events if e.kind == "loop"]
            kinds = {m for it in o_iterables(o) for m in ("named_parameters", "parameters", "named_buffers", "buffers") if contains(it, lambda x: meth(x, m) == MOD)}
            ctx.check("move.module", "parameters", any("parameters" in k for k in kinds), f.loc, "the parameters are not moved")
            ctx.check("move.module", "buffers", any("buffers" in k for k in kinds), f.loc, "the buffers are not moved")
            for it in o_iterables(o):
                for x in walk(it):
                    nm = next((m for m in WEIGHTS if meth(x, m) == MOD), None)
                    if nm is None:
                        continue
                    ctx.check("move.module", f"{nm} nested", recursive(x, nm), f.loc, f"{fmt(x)} leaves out the weights of nested modules")
                    moved = any(e.kind == "setattr" and e.name == "data" and contains(e.obj, lambda y: y == x) for e in o.st.events)
                    spared = any(c[0] == "cmp" and c[1] == "in" and not b and contains(c[3], lambda y: y == DEV) for c, b in o.st.conds)
                    full = any(c == ("nonempty", it) and b for c, b in o.st.conds)
                    if full and it == x and not isdict:
                        ctx.check("move.module", f"{nm} each", moved, f.loc, "a weight is only moved under a condition")
                    elif full and it == x and isdict and not moved and not spared:
                        ctx.check("move.module", f"{nm} each", False, f.loc, "a weight with a known device is only moved under a condition")
            for e in o.st.events:
                if e.kind == "setattr" and e.name == "data":
                    t, v = e.obj, e.value
                    ok = meth(v, "to") in (t, ("attr", t, "data"))
                    dev = arg(v, 0, "device") if v[0] == "call" else None
                    ctx.check("move.module", "value", ok, f.loc, f"a parameter becomes {fmt(v)[:100]}")
                    if isdict:
                        own = t[0] in ("item", "val") or t[0] == "elem"
                        nm = ("item", t[1], const(0)) if t[0] == "item" else ("key", t[1]) if t[0] == "val" else None
                        ctx.check("move.module", "own device", dev is not None and contains(dev, lambda x: x == DEV) and (nm is None or within(dev, nm)), f.loc, f"a parameter is moved to {fmt(dev)[:80] if dev else None}")
                    else:
                        ctx.check("move.module", "device", dev == DEV, f.loc, f"a parameter is moved to {fmt(dev)[:80] if dev else None}")
                    seen.add((bool(isdict), "buffers" if within_name(t, "buffers") else "parameters"))
        for d in (True, False):
            for k in ("parameters", "buffers"):
                ctx.check("move.module", f"{k} moved", (d, k) in seen, f.loc, f"{k} are not moved to their device")


WEIGHTS = ("named_parameters", "parameters", "named_buffers", "buffers")


def recursive(x, nm):
    """The call yields the weights of nested modules too."""
    r = arg(x, 1 if nm.startswith("named") else 0, "recurse")
    return r is None or r == TRUE


def within_name(t, part):
    return contains(t, lambda x: x[0] == "call" and part in ref_name(x[1]).rsplit(".", 1)[-1])


def o_iterables(o):
    for e in o.st.events:
        if e.kind == "loop":
            yield e.obj
    for c, _ in o.st.conds:
        if c[0] == "nonempty":
            yield c[1]


# ------------------------------------------------------------------ inputs and the engine loop
def binding(ctx):
    f = method(ctx, "binding", f"{ENG}.InstructionEngine", "prepare_input_register")
    if f is None:
        return
    ps = [x for x in f.all_params() if x not in ("self", "cls")]
    I, A, K, C = (("param", x) for x in ps[:4])
    LA = ("call", ("builtin", "len"), (A,), ())

    def names(t):
        """The graph's input names in order."""
        while True:
            t = unwrap(t, ("list", "tuple", "iter"))
            if meth(t, "keys") is not None:
                t = meth(t, "keys")
            elif t[0] == "comp" and len(t[3]) == 1 and not t[3][0][1] and t[2] in (("key", t[3][0][0]), ("elem", t[3][0][0])):
                t = t[3][0][0]
            else:
                return t == I

    def positional(t):
        return contains(t, lambda x: x[0] == "call" and x[1] == ("builtin", "zip") and len(x[2]) == 2 and x[2][1] == A)

    def kind(c, b):
        """What a refusal is about: (class, known polarity is right)."""
        if c[0] == "cmp" and LA in c[2:]:
            if c[1] in ("<", "<=", "=="):
                n = c[3] if c[2] == LA else c[2]
                if c[1] == "==" or n[0] != "call":
                    return "wrong"
                return "many"
            return None
        if c[0] == "cmp" and c[1] == "in" and c[2] in (("key", K), ("elem", K)):
            if positional(c[3]) or c[3][0] == "fresh":
                return "duplicate" if b else None
            return "unexpected" if not b and within(c[3], I) else None
        if c[0] == "call" and meth(c, "difference") is not None:
            c = ("bin", "-", c[1][1] if c[1][0] == "attr" else c[1][2], c[2][0])
        if c[0] == "bin" and c[1] == "-" and b:
            l, r = within(c[2], I), within(c[2], K)
            if not names(unwrap(c[2], ("set", "list", "frozenset"))) and names(unwrap(c[3], ("set", "list", "frozenset"))):
                return "unexpected"
            if r and (not within(c[2], A) or not names(unwrap(c[2], ("set", "list")))) and within(c[3], I):
                return "unexpected"
            if l and names(unwrap(c[2], ("set", "list", "frozenset"))):
                return "missing"
        if c[0] == "bin" and c[1] == "&" and b and within(c, K):
            return "duplicate"
        if c[0] == "cmp" and c[1] == "in" and within(c[2], I) and not b:
            return "missing"
        return None

    seen, odd, stored = set(), False, 0
    for o in paths(ctx, f, inline=pol(("from_value", "store"))):
        conds = [norm(c, b) for c, b in o.st.conds if c[0] != "nonempty"]
        if o.kind == "raise":
            k = kind(*conds[-1]) if conds else None
            odd |= k is None
            seen.add(k)
            if k is not None:
                ctx.check("binding.refused", f"{k} error", o.val is None or "TypeError" in fmt(o.val), f.loc, f"{fmt(o.val)[:60]} instead of TypeError")
            continue
        for c, b in conds:
            if within(c, LA) and c[0] == "cmp" and c[1] in ("<", "<=") and LA in c[2:]:
                # accepted only if len(args) <= number of names
                more = c[1] == "<" and c[3] == LA and not b or c[1] == "<=" and c[2] == LA and b or c[1] == "<" and c[2] == LA and b
                ctx.check("binding.positional", "count", more, f.loc, f"positional arguments are accepted where {'' if b else 'not '}{fmt(c)[:100]}")
        zips = {x for e in o.st.events for t in (e.value, *e.args) if t is not None for x in walk(t) if x[0] == "call" and x[1] == ("builtin", "zip") and len(x[2]) == 2 and A in x[2]}
        for z in zips:
            n = z[2][0] if z[2][1] == A else z[2][1]
            good = n[0] == "item" and n[2][0] == "slice" and n[2][1] in (NONE, const(0)) and n[2][2] in (LA, NONE) and n[2][3] in (NONE, const(1)) and names(n[1]) or names(n)
            ctx.check("binding.positional", "names", good and z[2][1] == A, f.loc, f"positional arguments are bound as {fmt(z)[:100]}")
        for e in o.st.events:
            if e.kind == "setitem" and e.args[0] == ("key", K):
                ctx.check("binding.keyword", "value", e.value == ("val", K), f.loc, f"a keyword argument is bound to {fmt(e.value)[:80]}")
        st = [e for e in o.st.events if api(e, REG) in WRITES]
        for e in st:
            stored += 1
            ref, cx, v = e.args[:3]
            good = ref[0] == "item" and ref[1] == I and v[0] == "call" and ref_name(v[1]).endswith("from_value") and len(v[2]) >= 1
            x = v[2][-1] if good else NONE
            pair = good and (ref[2][0] == "key" and x == ("val", ref[2][1]) or x[0] == "item" and x[2] == ref[2])
            ctx.check("binding.stored", "entry", pair, f.loc, f"an input is stored as {fmt(e.value)[:120]}")
            ctx.check("binding.stored", "context", cx == ("elem", C), f.loc, f"an input is stored for {fmt(cx)[:60]}")
        if not st:
            ctx.check("binding.stored", "every context", any(c[0] == "nonempty" and not b for c, b in o.st.conds), f.loc, "an input is not stored")
    for k, what in (("many", "too many positional arguments"), ("unexpected", "unknown keyword arguments"), ("duplicate", "arguments given twice"), ("missing", "missing inputs")):
        if k in seen:
            ctx.check("binding.refused", k, True, f.loc, "")
        elif odd:
            ctx.skip("binding.refused", k, "a refusal was not recognised")
        else:
            ctx.check("binding.refused", k, False, f.loc, f"{what} are not refused")


def engine(ctx):
    cq = f"{ENG}.InstructionEngine"
    f = method(ctx, "engine.loop", cq, "run_instructions")
    if f is not None:
        ps = [x for x in f.params() if x not in ("self", "cls")]
        I, R = ("param", ps[0]), ("param", ps[1])
        for o in paths(ctx, f, inline=no_inline, loop_iters=(2,)):
            loops = [e.obj for e in o.st.events if e.kind == "loop"]
            for it in loops:
                ctx.check("engine.order", "instructions", unwrap(it, ("list", "tuple", "iter", "enumerate")) == I, f.loc, f"the instructions are taken from {fmt(it)[:80]}")
            if fact(o, lambda c: c[0] == "nonempty") is False or not loops or o.kind == "raise":
                continue
            calls = [e.value for e in o.st.events if e.kind == "call" and e.name.endswith(".execute")]
            done = [e for e in o.st.events if e.kind == "endloop"]
            ctx.check("engine.loop", "all", len(done) == len(loops) == len(set(calls)) == len(calls), f.loc, "not every instruction is executed exactly once: execution stops after a result")
            ctx.check("engine.loop", "register", all(c[2] == (R,) for c in calls), f.loc, "an instruction gets another register")
            isnone = {v: fact(o, lambda c, v=v: c[0] == "cmp" and c[1] in ("is", "==") and set(c[2:]) == {v, NONE}) for v in calls}
            v = o.val
            alive = [x for x in calls if isnone[x] is not True]
            typed = any(c[0] == "isinstance" for c, _ in o.st.conds)
            if v in calls:
                kept = isnone[v] is False or typed or all(x == v or isnone[x] is not None for x in calls)
                ctx.check("engine.result", "value", (v in alive or not alive) and kept, f.loc, "the result of the instructions is lost")
            elif v is None or v == NONE:
                ctx.check("engine.result", "value", not alive, f.loc, "the result of the instructions is lost")
            else:
                ctx.skip("engine.result", "value", f"{fmt(v)[:60]} was not recognised")
    f = method(ctx, "engine.run", cq, "run")
    if f is not None:
        P = ("param", f.params()[1])
        for o in normals(paths(ctx, f, inline=pol(("prepare_input_register", "run_instructions")))):
            prep = [e for e in o.st.events if e.kind == "call" and e.name.endswith("prepare_input_register")]
            runs = [e for e in o.st.events if e.kind == "call" and e.name.endswith("run_instructions")]
            if len(prep) != 1 or len(runs) != 1:
                ctx.skip("engine.run", "calls", "the calls were not recognised")
                continue
            g = ctx.p.find_method(cq, "prepare_input_register")
            pn = [x for x in g.all_params() if x not in ("self", "cls")]
            want = (("attr", P, "input_refs"), ("param", "args"), ("param", "kwargs"), ("attr", P, "contexts"))
            got = tuple(evarg(prep[0], i, pn[i]) for i in range(4))
            ctx.check("engine.run", "inputs", got == want, f.loc, f"the inputs are prepared from {[fmt(x) if x else None for x in got]}")
            g = ctx.p.find_method(cq, "run_instructions")
            pn = [x for x in g.params() if x not in ("self", "cls")]
            ctx.check("engine.run", "instructions", evarg(runs[0], 0, pn[0]) == ("attr", P, "instructions") and evarg(runs[0], 1, pn[1]) == prep[0].value and o.val == runs[0].value, f.loc, f"{fmt(runs[0].value)[:120]} is executed")
    f = method(ctx, "engine.contexts", f"{ENG}.InstructionProgram", "contexts")
    if f is not None:
        seen = set()
        for o in normals(paths(ctx, f, inline=pol())):
            el = ("elem", field("instructions"))
            for cls, want in (("CallModule", ("attr", el, "contexts")), ("OptimizeModule", ("attr", ("attr", el, "delegate"), "contexts")), ("StoreValue", ("attr", el, "contexts"))):
                if any(c[0] == "isinstance" and c[1] == el and c[2] == ("class", f"{ENG}.{cls}") and b for c, b in o.st.conds):
                    seen.add(cls)
                    ctx.check("engine.contexts", cls, any(e.kind in ("call", "aug") and any(within(a, want) for a in e.args) for e in o.st.events), f.loc, f"the contexts of {cls} instructions are left out: their inputs are not in the register")
        if seen and "OptimizeModule" not in seen:
            ctx.check("engine.contexts", "OptimizeModule", False, f.loc, "the contexts of OptimizeModule instructions are left out: their inputs are not in the register")
        elif not {"CallModule", "OptimizeModule"} <= seen:
            ctx.skip("engine.contexts", "instructions", "the instructions were not recognised")
    f = method(ctx, "engine.passes", f"{ENG}.InstructionPasses", "apply")
    if f is not None:
        ps = [x for x in f.params() if x not in ("self", "cls")]
        P, Q = ("param", ps[0]), ("param", ps[1])
        for o in normals(paths(ctx, f, inline=pol(), loop_iters=(2,))):
            new = dict(o.val[3]).get("instructions") if o.val[0] == "call" else None
            its = [e.obj for e in o.st.events if e.kind == "loop"]
            if new is None or any(unwrap(it, ("list", "tuple")) not in (Q, ("or", Q, ("list",))) and not within(it, Q) for it in its):
                ctx.skip("engine.passes", "result", f"{fmt(o.val)[:80]} was not recognised")
                continue
            base, els = new, []
            while base[0] == "call" and base[1][0] == "elem":
                els.append(base[1])
                base = base[2][0]
            ctx.check("engine.passes", "start", base == ("attr", P, "instructions"), f.loc, f"the passes start from {fmt(base)[:80]}")
            if its and fact(o, lambda c: c[0] == "nonempty") is True:
                ctx.check("engine.passes", "order", len(els) >= 1 and len(set(els)) == len(els) and all(len(x) == 2 for x in els[-1:]) and not any(unwrap(it)[0] == "call" and ref_name(unwrap(it)[1]).endswith("reversed") for it in its), f.loc, f"the passes are applied as {fmt(new)[:100]}")
    f = fun(ctx, "engine.forward", f"{GM}.GraphModule.forward")
    if f is not None:
        for o in normals(paths(ctx, f, inline=no_inline)):
            old = fact(o, lambda c: c == ("cmp", "is", field("_engine"), NONE) or c == ("cmp", "is", NONE, field("_engine")))
            runs = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".run")]
            if len(runs) != 1 or old is None:
                ctx.skip("engine.forward", "run", "the execution was not recognised")
                continue
            p = runs[0].args[0] if runs[0].args else None
            sched = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".schedule")]
            if old:
                ctx.check("engine.forward", "schedule", len(sched) == 1 and sched[0].args == (SELF,) and p == sched[0].value, f.loc, "a graph without a program is not scheduled before it is run")
                kept = [e for e in o.st.events if e.kind == "setattr" and e.name == "_program"]
                eng = [e for e in o.st.events if e.kind == "setattr" and e.name == "_engine"]
                ctx.check("engine.forward", "kept", not eng or bool(kept) and kept[-1].value == p, f.loc, "an engine is kept without its program")
            else:
                ctx.check("engine.forward", "reuse", p == field("_program") and runs[0].obj == field("_engine"), f.loc, "another program than the kept one is run")
            san = [e for e in o.st.events if e.kind == "call" and e.name.endswith("_sanitize_inputs")]
            if san:
                v = san[0].value
                a, k = runs[0].args[1:], runs[0].kwargs
                ctx.check("engine.forward", "inputs", a == (("star", ("item", v, const(0))),) and [x for _, x in k] == [("item", v, const(1))], f.loc, "the inputs of the graph are not passed on")


# ------------------------------------------------------------------ scheduling
def scheduling(ctx):
    cq = f"{ENG}.InstructionScheduler"
    SREF = f"{cq}._schedule_ref_id"
    f = method(ctx, "schedule", cq, "schedule")
    if f is not None:
        G = ("param", f.params()[1])
        for o in normals(paths(ctx, f, inline=no_inline)):
            v = o.val
            if not newclass(v, f"{ENG}.InstructionProgram"):
                ctx.skip("schedule", "program", f"{fmt(v)[:80]} was not recognised")
                continue
            kw = dict(v[3])
            i, r = kw.get("instructions", v[2][0] if v[2] else NONE), kw.get("input_refs", v[2][1] if len(v[2]) > 1 else NONE)
            ctx.check("schedule", "inputs", r == ("attr", G, "_inputs"), f.loc, f"the inputs are {fmt(r)[:60]}")
            sch = [n for n, e in enumerate(o.st.events) if e.kind == "call" and e.value == i]
            sets = [n for n, e in enumerate(o.st.events) if e.kind == "setattr" and e.name == "_node_contexts" and e.value[0] == "call"]
            if not sch or i[1][0] != "bound" or i[2][0] != G:
                ctx.skip("schedule", "instructions", f"{fmt(i)[:80]} was not recognised")
                continue
            order = i[2][1]
            ctx.check("schedule", "order", order[0] == "call" and order[2] == (G,), f.loc, f"the nodes are ordered by {fmt(order)[:80]}")
            ctx.check("schedule", "contexts", bool(sets) and sets[0] < sch[0] and o.st.events[sets[0]].value[2] == (G, order), f.loc, "the contexts of the nodes are not computed from this graph and order before scheduling")
    f = method(ctx, "schedule.order", cq, "_schedule")
    if f is not None:
        G, ORD = ("param", f.params()[1]), ("param", f.params()[2])
        for o in normals(paths(ctx, f, inline=no_inline, loop_iters=(0, 2))):
            out = fact(o, lambda c: c == ("attr", G, "_outputs"))
            items = [x[1] if x[0] == "star" else x for x in parts(o.val, o.st)]
            flat_ = []
            for x in items:
                flat_ += list(parts_add(x))
            nodes = [x for x in flat_ if x[0] == "call" and ref_name(x[1]).endswith("_schedule_node")]
            for x in nodes:
                ctx.check("schedule.order", "node", x[2][0][:2] == ("elem", ORD) and x[2][1] == G, f.loc, f"{fmt(x)[:80]} is scheduled")
            loops = [e.obj for e in o.st.events if e.kind == "loop"]
            ctx.check("schedule.order", "all", all(x == ORD for x in loops), f.loc, f"the nodes are taken from {[fmt(x)[:40] for x in loops]}")
            if len(nodes) == 2:
                ctx.check("schedule.order", "sequence", len(nodes[0][2][0]) == 2 and len(nodes[1][2][0]) == 3, f.loc, "the instructions of earlier nodes come later")
            ret = [e.value for e in o.st.events if e.kind == "call" and e.name.endswith("_schedule_return")]
            if out:
                ctx.check("schedule.return", "outputs", len(ret) == 1 and ret[0][2] == (("attr", G, "_outputs"),), f.loc, "the outputs of the graph are not returned")
                if len(ret) == 1:
                    tail = flat_[len(nodes):]
                    ctx.check("schedule.return", "last", tail == [("item", ret[0], const(1)), ("item", ret[0], const(0))], f.loc, "the return is not scheduled after the nodes and its prerequisites")
    f = method(ctx, "schedule.node", cq, "_schedule_node")
    if f is not None:
        N, G = ("param", f.params()[1]), ("param", f.params()[2])
        for o in normals(paths(ctx, f, inline=pol(("_schedule_ref_id", "node")), loop_iters=(0, 1))):
            items = list(parts(o.val, o.st))
            for e in o.st.events:
                if e.kind == "call" and e.name.endswith(".insert") and e.obj == o.val and e.args[0] == const(0):
                    items = [e.args[1], *(x for x in items if x != e.args[1])]
            node = [e.value for e in o.st.events if e.kind == "call" and e.name.endswith(".node")]
            node = node[0] if node else None
            opt = [x for x in items if newclass(x, f"{ENG}.OptimizeModule")]
            call = [x for x in items if newclass(x, f"{ENG}.CallModule")]
            if node is None or len(call) != 1:
                ctx.check("schedule.node", "call", node is None or len(call) == 1, f.loc, "a node is not called exactly once")
                continue
            A, K = ("attr", node, "args"), ("attr", node, "kwargs")
            refs = {e.value for e in o.st.events if e.kind == "call" and e.name.endswith("_schedule_ref_id")}
            for r in refs:
                pos = [n for n, x in enumerate(items) if x == ("star", ("item", r, const(1)))]
                ctx.check("schedule.node", "prerequisites", bool(pos) and all(pos[0] < items.index(x) for x in opt + call), f.loc, "what an input needs is not scheduled before the node")
            hasA = fact(o, lambda c: c == ("nonempty", A))
            hasK = fact(o, lambda c: c[0] == "nonempty" and within(c, K))
            for x in opt + call:
                kw = dict(x[3])
                nm = x[1][1].rsplit(".", 1)[1]
                a, k = kw.get("args"), kw.get("kwargs")
                ctx.check("schedule.node", f"{nm} module", kw.get("module") == ("attr", node, "target"), f.loc, f"{fmt(kw.get('module', NONE))[:60]} is called")
                pa = list(parts(a, o.st)) if a is not None else []
                ok = lambda t, el: t == ("item", ("call", ("bound", SREF, SELF), (el,), ()), const(0)) or t == el
                if hasA:
                    ctx.check("schedule.node", f"{nm} args", len(pa) == 1 and ok(pa[0], ("elem", A)), f.loc, f"the positional arguments are {[fmt(t)[:60] for t in pa]}")
                if hasK and k is not None:
                    w = [e for e in o.st.events if e.kind == "setitem" and e.obj == k]
                    if w:
                        ctx.check("schedule.node", f"{nm} kwargs", all(e.args[0] == ("key", K) and ok(e.value, ("val", K)) for e in w), f.loc, f"the keyword arguments are {[(fmt(e.args[0]), fmt(e.value)[:60]) for e in w]}")
                    elif k[0] == "comp":
                        ctx.check("schedule.node", f"{nm} kwargs", k[2][1] == ("key", K) and ok(k[2][2], ("val", K)), f.loc, f"the keyword arguments are {fmt(k)[:80]}")
                    else:
                        ctx.check("schedule.node", f"{nm} kwargs", False, f.loc, "the keyword arguments are left out")
            kw = dict(call[0][3])
            ctx.check("schedule.node", "target", kw.get("target") == N, f.loc, f"the result is stored as {fmt(kw.get('target', NONE))[:60]}")
            cx = kw.get("contexts", NONE)
            ctx.check("schedule.node", "contexts", within(cx, ("attr", SELF, "_node_contexts")) and within(cx, N), f.loc, f"the node runs in {fmt(cx)[:60]}")
            has = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and ("attr", node, "delegate") in c[2:])
            mod = any(c[0] == "isinstance" and c[1] == ("attr", node, "target") and b for c, b in o.st.conds)
            if has is False and mod:
                ctx.check("schedule.node", "delegate", len(opt) == 1 and items.index(opt[0]) < items.index(call[0]) and dict(opt[0][3]).get("delegate") == ("attr", node, "delegate"), f.loc, "the delegate of the node is not run before its module is called")
            elif has:
                ctx.check("schedule.node", "no delegate", not opt, f.loc, "a node without delegate is optimized")
    f = method(ctx, "schedule.return", cq, "_schedule_return")
    if f is not None:
        OUT = ("param", f.params()[1])
        for o in normals(paths(ctx, f, inline=no_inline, loop_iters=(2,))):
            v = o.val
            if v[0] != "tuple" or len(v) != 3 or not newclass(v[1], f"{ENG}.ReturnOutputs") or fact(o, lambda c: c[0] == "nonempty") is False:
                continue
            r = dict(v[1][3]).get("outputs", v[1][2][0] if v[1][2] else NONE)
            refs = list(parts(r, o.st))
            call = lambda el: ("call", ("bound", SREF, SELF), (el,), ())
            if r[0] == "fresh":
                els = [("elem", OUT), ("elem", OUT, const(1))][: len(refs)]
                ctx.check("schedule.return", "order", refs == [("item", call(e), const(0)) for e in els], f.loc, f"the outputs are {[fmt(x)[:60] for x in refs]}")
                pre = list(parts(v[2], o.st))
                ctx.check("schedule.return", "prerequisites", pre == [("star", ("item", call(e), const(1))) for e in els], f.loc, "what the outputs need is not scheduled")
            else:
                ctx.skip("schedule.return", "order", f"{fmt(r)[:60]} was not recognised")
    f = method(ctx, "schedule.ref", cq, "_schedule_ref_id")
    if f is not None:
        R = ("param", f.params()[1])
        kinds = set()
        for o in normals(paths(ctx, f, inline=pol(("_schedule_ref_id",)))):
            pos = [c[2][1].rsplit(".", 1)[1] for c, b in o.st.conds if b and c[0] == "isinstance" and c[1] == R and c[2][0] == "class"]
            v = o.val
            if not pos or v is None or v[0] != "tuple" or len(v) != 3:
                continue
            k = pos[0]
            kinds.add(k)
            ctx.check("schedule.ref", f"{k} ref", v[1] == R or k == "AttributeRef" and False, f.loc, f"a {k} is read as {fmt(v[1])[:60]}")
            ins = list(parts(v[2], o.st))
            if k in ("NodeRef", "InputRef"):
                ctx.check("schedule.ref", k, not ins, f.loc, f"instructions are scheduled for a {k}")
            elif k == "Const":
                ctx.check("schedule.ref", "Const", len(ins) == 1 and newclass(ins[0], f"{ENG}.StoreValue") and dict(ins[0][3]).get("target") == R and single(dict(ins[0][3]).get("value", NONE), ("attr", R, "value"), o.st), f.loc, f"a constant is stored as {[fmt(x)[:80] for x in ins]}")
                cx = dict(ins[0][3]).get("contexts", NONE) if ins else NONE
                known = fact(o, lambda c: within(c, ("attr", SELF, "_node_contexts")))
                if known is not False:
                    ctx.check("schedule.ref", "Const contexts", within(cx, ("attr", SELF, "_node_contexts")) and within(cx, R), f.loc, f"a constant is stored in {fmt(cx)[:80]}")
            elif k == "AttributeRef":
                base = ("call", ("bound", SREF, SELF), (("attr", R, "reference"),), ())
                last = ins[-1] if ins else NONE
                kw = dict(last[3]) if last[0] == "call" else {}
                ctx.check("schedule.ref", "AttributeRef", newclass(last, f"{ENG}.LoadAttribute") and kw == {"source": ("item", base, const(0)), "target": R, "attribute": ("attr", R, "attribute")}, f.loc, f"a part is loaded as {fmt(last)[:120]}")
                ctx.check("schedule.ref", "AttributeRef base", ("star", ("item", base, const(1))) in ins[:-1], f.loc, "what the whole needs is not scheduled before a part is loaded")


def single(t, v, st):
    """A data set with v as only batch."""
    if not newclass(t, DS):
        return False
    b = t[2][0] if t[2] else dict(t[3]).get("batches", NONE)
    return list(parts(b, st)) == [v]


def parts_add(t):
    if t[0] == "bin" and t[1] == "+":
        yield from parts_add(t[2])
        yield from parts_add(t[3])
    elif t[0] in ("list", "tuple"):
        for x in t[1:]:
            yield x[1] if x[0] == "star" else x
    else:
        yield t


def contexts(ctx):
    f = fun(ctx, "contexts", f"{ENG}._propagate_contexts")
    if f is None:
        return
    G, ORD = ("param", f.params()[0]), ("param", f.params()[1])
    DEF = lambda t: contains(t, lambda x: x[0] in ("global", "ext", "param", "const") and "DEFAULT_CONTEXT" in str(x[1]) or x == ("global", f"{GM}.DEFAULT_CONTEXT"))
    nodes = 0
    for o in normals(paths(ctx, f, inline=pol(("node", "node_inputs", "unwrap_ref")))):
        last = {}
        for e in o.st.events:
            if e.kind == "setitem":
                old = contains(e.value, lambda x: x[0] == "item" and x[1] == e.obj and x[2] == e.args[0] or x[0] == "call" and meth(x, "get") == e.obj and x[2][:1] == (e.args[0],))
                last[e.args[0]] = ("tuple", last[e.args[0]], e.value) if old and e.args[0] in last else e.value
                if e.args[0][0] == "elem" and e.args[0][1][0] == "call" and ref_name(e.args[0][1][1]).endswith("node_inputs"):
                    ctx.check("contexts", "kept", old, f.loc, "the contexts other consumers need are dropped")
            elif e.kind == "call" and e.name.rsplit(".", 1)[-1] in ("update", "add", "append", "extend") and e.obj is not None and e.obj[0] in ("item", "call"):
                k = e.obj[2] if e.obj[0] == "item" else e.obj[2][0] if e.obj[2] else None
                last[k] = ("tuple", last.get(k, e.obj), *e.args)
        outs = fact(o, lambda c: c in (("nonempty", ("attr", G, "_outputs")),))
        if outs:
            k = [k for k in last if within(k, ("elem", ("attr", G, "_outputs")))]
            ctx.check("contexts", "outputs", bool(k) and all(meth(x, "unwrap_ref") is not None for x in k) and all(DEF(last[x]) for x in k), f.loc, "the outputs of the graph are not computed in the default context")
        loops = [e.obj for e in o.st.events if e.kind == "loop"]
        mine = [it for it in loops if within(it, ORD)]
        for it in mine:
            if it == ORD or it[0] == "call" and ref_name(it[1]).endswith("reversed") or it[0] == "item" and it[2][0] == "slice":
                ctx.check("contexts", "backwards", it != ORD, f.loc, "contexts are propagated in execution order: nodes miss contexts of later consumers")
        if not mine:
            continue
        el = ("elem", ORD)
        ni = [e.value for e in o.st.events if e.kind == "call" and e.name.endswith("node_inputs")]
        dl = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and NONE in c[2:] and any(x[0] == "attr" and x[2] == "delegate" for x in c[2:]))
        dc = lambda x: x[0] == "attr" and x[2] == "contexts" and x[1][0] == "attr" and x[1][2] == "delegate"
        deleg = lambda t: contains(t, dc) and not contains(t, lambda x: part_of(x, dc))
        own = lambda t: contains(t, lambda x: x[0] in ("item", "call") and x[-1] == el or x[0] == "call" and x[2][:1] == (el,) and meth(x, "get") is not None)
        for v in ni:
            ctx.check("contexts", "inputs of", v[2] == (el,), f.loc, f"{fmt(v)[:60]} is used")
            if fact(o, lambda c: c == ("nonempty", v)):
                nodes += 1
                w = last.get(("elem", v))
                ctx.check("contexts", "node", w is not None and own(w), f.loc, "the inputs of a node are not computed in the contexts of the node")
                if dl is False:
                    ctx.check("contexts", "delegate", w is not None and deleg(w), f.loc, "the inputs of an optimized node are not computed in the contexts of its delegate")
        consts = [c for c, b in o.st.conds if b and c[0] == "isinstance" and c[2] == CONST]
        for c in consts:
            w = last.get(c[1])
            ctx.check("contexts", "constant", w is not None and own(w) and (dl is not False or deleg(w)), f.loc, "parts of constants are not available in the contexts of the node")
        v = o.val
        if v[0] == "comp" and v[2][0] == "pair":
            src = v[3][0][0]
            rec = meth(src, "items")
            src = rec if rec is not None else src
            ctx.check("contexts", "result", v[2][1] == ("key", src) and unwrap(v[2][2]) == ("val", src) and not v[3][0][1], f.loc, f"the contexts are {fmt(v)[:80]}")
    if not nodes:
        ctx.skip("contexts", "node", "the propagation was not recognised")


# ------------------------------------------------------------------ passes
INS = f"{ENG}.Instruction"


def feasible(ctx, o):
    """No value is of two unrelated instruction classes."""
    by = {}
    for c, b in o.st.conds:
        if b and c[0] == "isinstance" and c[2][0] == "class" and c[2][1].startswith(ENG):
            by.setdefault(c[1], set()).add(c[2][1])
    for qs in by.values():
        for a in qs:
            for b in qs:
                if a != b and a not in ctx.p.subclasses(b) and b not in ctx.p.subclasses(a):
                    return False
    return True


def is_a(o, t, name):
    r = None
    for c, b in o.st.conds:
        c, b = norm(c, b)
        if c[0] == "isinstance" and c[1] == t and c[2] == ("class", f"{ENG}.{name}"):
            r = b
    return r


def lifetime(ctx):
    f = fun(ctx, "lifetime", f"{ENG}.lifetime_management_pass")
    if f is None:
        return
    I = ("param", f.params()[0])
    el = ("elem", I)
    uses = lambda t: contains(t, lambda x: x[0] == "call" and meth(x, "uses") is not None)
    deletes = 0
    keep_seen = False
    for o in normals(paths(ctx, f, inline=pol(("uses", "produces")))):
        evs = o.st.events
        ret = is_a(o, el, "ReturnOutputs")
        if ret:
            up = [e for e in evs if e.kind in ("call", "aug") and e.args and uses(e.args[0]) and (e.name.endswith("update") or e.kind == "aug" or e.name.endswith("extend"))]
            keep_seen = keep_seen or bool(up)
            ctx.check("lifetime", "returned kept", bool(up) and all(within(e.args[0], el) for e in up), f.loc, "the returned entries are not kept alive")
        items = list(parts(o.val, o.st))
        dels = [x for x in items if newclass(x, f"{ENG}.DeleteRegisterEntries")]
        kept = [x for x in items if x == el or x[0] == "item" and x[1] == I]
        if fact(o, lambda c: c[0] == "nonempty" and unwrap(c[1], ("enumerate",)) == I and c[1] != I):
            ctx.check("lifetime", "instruction kept", len(kept) == 1, f.loc, "an instruction is dropped or repeated")
        for d in dels:
            deletes += 1
            ctx.check("lifetime", "after", bool(kept) and items.index(kept[0]) < items.index(d), f.loc, "entries are deleted before the instruction that uses them last")
            t = unwrap(dict(d[3]).get("targets", d[2][0] if d[2] else NONE))
            if t[0] != "comp" or len(t[3]) != 1:
                ctx.skip("lifetime", "targets", f"{fmt(t)[:60]} was not recognised")
                continue
            src, ifs = t[3][0]
            rec = meth(src, "items")
            src = rec if rec is not None else src
            cs = [norm(c, b) for c, b in flat_and(ifs)]
            ref = t[2]
            # the last use is this instruction
            last = any(c[0] == "cmp" and c[1] == "==" and b and (("idx", I) in c[2:]) and (("val", src) in c[2:] or ("item", src, ref) in c[2:]) for c, b in cs)
            ctx.check("lifetime", "last use", ref == ("key", src) and last, f.loc, f"{fmt(t)[:140]} is deleted")
            keep = any(c[0] == "cmp" and c[1] == "in" and c[2] == ref and not b for c, b in cs)
            ctx.check("lifetime", "kept", keep, f.loc, "returned entries are deleted")
            # how the last use is found
            sets = [e for e in evs if e.kind == "setitem" and e.obj == src]
            loops = [e.obj for e in evs if e.kind == "loop"]
            for e in sets:
                ctx.check("lifetime", "uses count", uses(e.args[0]) and not contains(e.args[0], lambda x: x[0] == "item" and x[2][0] == "slice"), f.loc, "what an instruction uses does not count as use")
                fresh = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == e.args[0] and c[3] == src)
                it = next((x for x in loops if within(e.value, ("elem", x)) or within(e.value, ("idx", unwrap(x, ("enumerate", "reversed", "list"))))), None)
                back = None
                if it is not None and it[0] == "call" and it[1] == ("builtin", "range"):
                    n = ("call", ("builtin", "len"), (I,), ())
                    if len(it[2]) == 3 and it[2][2] == const(-1):
                        back = True
                        ctx.check("lifetime", "range", it[2][0] == ("bin", "-", n, const(1)) and it[2][1] == const(-1), f.loc, f"the instructions {fmt(it)[:60]} are looked at")
                    elif len(it[2]) == 1:
                        back = False
                        ctx.check("lifetime", "range", it[2][0] == n, f.loc, f"the instructions {fmt(it)[:60]} are looked at")
                elif it is not None:
                    back = contains(it, lambda x: x == ("builtin", "reversed"))
                if back is None:
                    ctx.skip("lifetime", "direction", "the search for the last use was not recognised")
                else:
                    ctx.check("lifetime", "direction", fresh is False if back else fresh is None, f.loc, "an earlier use counts as last use")
    if not deletes:
        ctx.skip("lifetime", "last use", "the deletion was not recognised")


def flat_and(ifs):
    for c, b in ifs:
        if c[0] == "and" and b:
            yield from flat_and([(x, True) for x in c[1:]])
        else:
            yield c, b


def optimization(ctx):
    f = fun(ctx, "optimization", f"{ENG}.optimization_only_pass")
    if f is None:
        return
    I = ("param", f.params()[0])
    el = ("elem", I)
    for o in normals(paths(ctx, f, inline=pol(("uses", "produces")))):
        evs = o.st.events
        loops = [e.obj for e in evs if e.kind == "loop"]
        v = o.val
        if v == I:
            ctx.check("optimization", "unchanged", not loops and any(not b for c, b in o.st.conds if contains(c, lambda x: x == ("class", f"{ENG}.OptimizeModule"))) or True, f.loc, "")
            continue
        if not any(within(it, I) for it in loops):
            continue
        it = next(it for it in loops if within(it, I))
        back = contains(it, lambda x: x == ("builtin", "reversed"))
        ctx.check("optimization", "backwards", back, f.loc, "dependencies are collected in execution order: producers are dropped before their consumer is seen")
        rev = contains(v, lambda x: x == ("builtin", "reversed")) or any(e.kind == "call" and e.name.endswith(".reverse") for e in evs)
        ins0 = any(e.kind == "call" and e.name.endswith((".insert", ".appendleft")) for e in evs)
        if back:
            ctx.check("optimization", "order", rev != ins0, f.loc, "the kept instructions are in reverse order")
        kept = any(e.kind == "call" and e.name.endswith((".append", ".insert", ".appendleft")) and e.args and e.args[-1] == el for e in evs)
        need = [e for e in evs if e.kind in ("call", "aug") and e.args and contains(e.args[0], lambda x: x[0] == "call" and meth(x, "uses") == el)]
        if kept:
            ctx.check("optimization", "dependencies", bool(need), f.loc, "the dependencies of a kept instruction are not kept")
            continue
        opt = is_a(o, el, "OptimizeModule")
        ctx.check("optimization", "optimizations", opt is not True, f.loc, "an optimization is dropped")
        dep = None
        for c, b in o.st.conds:
            c, b = norm(c, b)
            if contains(c, lambda x: x[0] == "call" and meth(x, "produces") == el):
                if c[0] == "bin" and c[1] == "&":
                    dep = b
                elif meth(c, "isdisjoint") is not None:
                    dep = not b
                elif meth(c, "intersection") is not None or c[0] == "call" and c[1] == ("builtin", "any"):
                    dep = b
                elif c[0] == "nonempty":
                    dep = False if not b else dep
                elif c[0] == "cmp" and c[1] == "in" and not b:
                    dep = False
                elif c[0] == "cmp" and c[1] == "<=" and b:
                    dep = True
                elif c[0] == "call" and c[1] in (("builtin", "set"), ("builtin", "list")):
                    pass
                else:
                    dep = "?"
        if dep == "?" or dep is None and opt is False and any(contains(c, lambda x: x[0] == "call" and meth(x, "produces") == el) for c, _ in o.st.conds):
            ctx.skip("optimization", "producers", "the condition to drop an instruction was not recognised")
        elif opt is not True:
            ctx.check("optimization", "producers", dep is False, f.loc, "an instruction that produces what an optimization needs is dropped")


def offload(ctx):
    f = fun(ctx, "offload.weights", f"{ENG}._weight_offloading_pass")
    MOVE = f"{ENG}.MoveModule"
    if f is not None:
        I, CD, SD, G = (("param", x) for x in f.params()[:4])
        el = ("elem", I)
        MOD = ("attr", el, "module")
        n = 0

        def kw(x, i, nm):
            return dict(x[3]).get(nm, x[2][i] if len(x[2]) > i else NONE)
        for o in normals(paths(ctx, f, inline=pol())):
            if not feasible(ctx, o):
                continue
            v = unwrap(o.val)
            base = list(v[1:]) if v[0] == "list" else []
            items = [*base, *(x for x in contents(v, o.st) if x not in base)] if v[0] in ("fresh", "list") else []
            if v[0] == "list":
                items = base + [y for e in o.st.events if e.kind == "call" and e.obj is not None and unwrap(e.obj) == v and e.name.endswith((".append", ".extend")) for a in e.args for y in ([a] if e.name.endswith("append") else a[1:] if a[0] in ("list", "tuple") else [("star", a)])]
            if not items:
                ctx.skip("offload.weights", "result", f"{fmt(v)[:60]} was not recognised")
                continue
            mine = [i for i, x in enumerate(items) if x == el]
            if fact(o, lambda c: c == ("nonempty", I)):
                ctx.check("offload.weights", "instruction kept", len(mine) == 1, f.loc, "an instruction is dropped or repeated")
            called = [is_a(o, el, "CallModule"), is_a(o, el, "OptimizeModule")]
            if mine and True not in called and set(called) == {None, False} and not any(newclass(x, MOVE) and kw(x, 1, "module") == MOD for x in items):
                ctx.check("offload.weights", "both kinds", False, f.loc, "some of the instructions that call a module do not move it to the compute device")
            mod = any(b and c[0] == "isinstance" and c[1] == MOD for c, b in o.st.conds)
            if mine and True in called:
                if mod:
                    n += 1
                    b, a = items[mine[0] - 1], items[mine[0] + 1] if mine[0] + 1 < len(items) else NONE
                    ctx.check("offload.weights", "compute", newclass(b, MOVE) and kw(b, 0, "device") == CD and kw(b, 1, "module") == MOD, f.loc, "a module is not moved to the compute device before it is called")
                    ctx.check("offload.weights", "storage", newclass(a, MOVE) and kw(a, 0, "device") == SD and kw(a, 1, "module") == MOD, f.loc, "a module is not moved to storage after it was called")
                else:
                    ok = any(not b and c[0] == "isinstance" and c[1] == MOD for c, b in o.st.conds)
                    ctx.check("offload.weights", "compute", ok or any(newclass(x, MOVE) and kw(x, 1, "module") == MOD for x in items), f.loc, "a module is not moved to the compute device before it is called")
            # restoring
            stars = [(i, x[1]) for i, x in enumerate(items) if x[0] == "star" and x[1][0] == "comp"]
            rest = [(i, x) for i, x in stars if newclass(x[2], MOVE) and kw(x[2], 0, "device") not in (CD, SD)]
            if not rest:
                ctx.check("offload.restore", "last", False, f.loc, "the weights are not moved back to their original devices")
                continue
            i, x = rest[-1]
            ctx.check("offload.restore", "last", i == len(items) - 1, f.loc, "weights are moved after they were restored")
            src = x[3][0][0]
            rec = meth(src, "items")
            src = rec if rec is not None else src
            good = kw(x[2], 0, "device") in (("val", src), ("item", src, ("key", src))) and kw(x[2], 1, "module") == ("key", src) and not x[3][0][1]
            ctx.check("offload.restore", "devices", good, f.loc, f"the weights are restored as {fmt(x)[:120]}")
            for e in o.st.events:
                if e.kind == "setitem" and e.obj == src:
                    m = e.args[0]
                    ups = [t for y in o.st.events if y.kind == "call" and y.name.endswith(".update") and y.obj is not None and unwrap(y.obj, ("dict",)) == unwrap(e.value, ("dict",)) for t in y.args]
                    cs = [t for t in [e.value, *ups] for t in walk(t) if t[0] == "comp" and t[2][0] == "pair"]
                    names = {nm for t in cs for nm in ("named_parameters", "named_buffers") if meth(t[3][0][0], nm) == m and t[2][1] == ("item", ("elem", t[3][0][0]), const(0)) and t[2][2] == ("attr", ("item", ("elem", t[3][0][0]), const(1)), "device") and not t[3][0][1] and recursive(t[3][0][0], nm)}
                    for nm in ("named_parameters", "named_buffers"):
                        ctx.check("offload.restore", nm, nm in names, f.loc, f"the devices of the {nm[6:]} of a module are not recorded")
        if not n:
            ctx.skip("offload.weights", "compute", "the calls were not recognised")
    f = fun(ctx, "offload.activations", f"{ENG}._activation_offloading_pass")
    if f is not None:
        I, CD = (("param", x) for x in f.params()[:2])
        el = ("elem", I)
        MA = f"{ENG}.MoveActivations"
        for o in normals(paths(ctx, f, inline=pol(("uses", "produces", "unwrap_ref")))):
            if not feasible(ctx, o):
                continue
            items = list(parts(o.val, o.st))
            if not fact(o, lambda c: c == ("nonempty", I)):
                continue
            mine = [i for i, x in enumerate(items) if x == el]
            ctx.check("offload.activations", "instruction kept", len(mine) == 1, f.loc, "an instruction is dropped or repeated")
            kinds = {is_a(o, el, "CallModule"), is_a(o, el, "OptimizeModule")}
            if mine and kinds == {None, False} and len(items) == 1:
                ctx.check("offload.activations", "both kinds", False, f.loc, "the inputs of some of the instructions that call a module are not moved to the compute device")
            if not mine or True not in kinds:
                continue
            its = [c[1] for c, b in o.st.conds if b and c[0] == "nonempty" and meth(c[1], "uses") == el]
            comps = [x[1] for x in items[: mine[0]] if x[0] == "star" and x[1][0] == "comp"]
            if not its and not comps:
                if any(not b and c[0] == "nonempty" and meth(c[1], "uses") == el for c, b in o.st.conds):
                    continue
                ctx.check("offload.activations", "inputs", False, f.loc, "the inputs of a call are not moved to the compute device")
                continue
            for it in its:
                ref = ("elem", it)
                isconst = any(b and c[0] == "isinstance" and within(c[1], ref) and c[2] == CONST for c, b in o.st.conds)
                mv = [x for x in items[: mine[0]] if newclass(x, MA) and dict(x[3]).get("register_ref") == ref and dict(x[3]).get("device") == CD]
                ctx.check("offload.activations", "inputs", bool(mv) or isconst, f.loc, "an input of a call is not moved to the compute device before the call")
    f = fun(ctx, "offload.passes", f"{ENG}._offloading_pass")
    if f is not None:
        I, CD, SD, G = (("param", x) for x in f.params()[:4])
        for o in normals(paths(ctx, f, inline=no_inline)):
            t, names, order = o.val, [], ()
            while t[0] == "call" and t[1][0] == "func" and t[2]:
                names.append(t[1][1].rsplit(".", 1)[1])
                g = ctx.p.funcs[t[1][1]]
                for i, pn in enumerate(g.params()[1:], 1):
                    a = arg(t, i, pn)
                    want = {"compute_device": CD, "storage_device": SD, "graph": G}.get(pn)
                    if want is not None and a is not None:
                        ctx.check("offload.passes", f"{names[-1]} {pn}", a == want, f.loc, f"{pn} is {fmt(a)[:40]}")
                t = t[2][0]
            ctx.check("offload.passes", "input", t == I or not names, f.loc, f"the passes start from {fmt(t)[:60]}")
            need = ["_weight_offloading_pass", "_activation_offloading_pass"]
            if not set(names) & set(need):
                ctx.skip("offload.passes", "composition", f"{fmt(o.val)[:80]} was not recognised")
                continue
            for x in need:
                ctx.check("offload.passes", x, names.count(x) == 1, f.loc, f"{x} is not applied")
    for g in ctx.p.funcs.values():
        if not g.qual.startswith(f"{ENG}.") or g.qual == f"{ENG}._offloading_pass":
            continue
        for o in (paths(ctx, g, inline=no_inline) if "OffloadEverything" in g.qual and g.qual.endswith("create_instruction_pass") else ()):
            if o.val is None or o.val[0] not in ("closure", "partial"):
                continue
        if g.qual.endswith("create_instruction_pass.<locals>._pass"):
            for o in normals(paths(ctx, g, inline=no_inline)):
                v = o.val
                if v[0] == "call" and v[1] == ("func", f"{ENG}._offloading_pass") and f is not None:
                    ctx.check("offload.passes", "devices", [fmt(arg(v, i, x))[-14:] for i, x in enumerate(f.params()[:3])][1:] == ["compute_device", "storage_device"], g.loc, f"{fmt(v)[:120]}")


def cancel_modules(ctx):
    f = fun(ctx, "cancel.modules", f"{ENG}._cancel_module_round_trips")
    if f is None:
        return
    I, CD = (("param", x) for x in f.params()[:2])
    at = lambda k: ("item", I, const(k))
    n = drops = 0
    for o in normals(paths(ctx, f, inline=pol(), loop_iters=(1,))):
        if not feasible(ctx, o):
            continue
        evs = o.st.events
        if not any(e.kind == "loop" for e in evs):
            continue
        kept = [e.args[0] for e in evs if e.kind == "call" and e.name.endswith(".append") and e.args and e.args[0][0] == "item" and e.args[0][1] == I]
        if any(e.kind == "loop" and e.obj is not None and within(e.obj, I) for e in evs):
            ctx.skip("cancel.modules", "loop", "the loop over instructions was not recognised")
            return
        if at(0) in kept:
            n += 1
            cur = at(0)
            sets = [e for e in evs if e.kind == "setitem" and e.args[0] == ("attr", cur, "module")]
            if is_a(o, cur, "MoveModule"):
                ctx.check("cancel.modules", "moved", bool(sets) and sets[0].value == ("attr", cur, "device"), f.loc, "the device a module was moved to is not recorded")
            elif sets and is_a(o, cur, "MoveModule") is False:
                ctx.check("cancel.modules", "called", sets[0].value == CD, f.loc, f"a called module is taken to be on {fmt(sets[0].value)[:40]}")
            continue
        drops += 1
        L, R = at(0), at(1)
        yes = [c for c, b in flat_and([norm(c, b) for c, b in o.st.conds]) if b]
        for x, nm in ((L, "first"), (R, "second")):
            ctx.check("cancel.modules", f"{nm} is a move", ("isinstance", x, ("class", f"{ENG}.MoveModule")) in yes, f.loc, "instructions that do not move modules are dropped")
        same = any(c[0] == "cmp" and c[1] in ("is", "==") and set(c[2:]) == {("attr", L, "module"), ("attr", R, "module")} for c in yes)
        ctx.check("cancel.modules", "same module", same, f.loc, "moves of different modules are dropped")
        there = [c for c in yes if c[0] == "cmp" and c[1] == "==" and ("attr", R, "device") in c[2:] and any(contains(x, lambda y: y in (("attr", R, "module"), ("attr", L, "module"))) for x in c[2:])
                 and not any(x[0] == "call" and meth(x, "get") is not None and len(x[2]) > 1 and x[2][1] != NONE for x in c[2:])]
        ctx.check("cancel.modules", "already there", bool(there), f.loc, "a round trip is dropped although the module is not known to be where it ends")
    if not n or not drops:
        ctx.skip("cancel.modules", "dropped", "the dropped instructions were not recognised")


def cancel_activations(ctx):
    f = fun(ctx, "cancel.activations", f"{ENG}._cancel_redundant_activation_moves")
    if f is None:
        return
    I, CD = (("param", x) for x in f.params()[:2])
    el = ("elem", I)
    n = 0
    outs = [o for o in normals(paths(ctx, f, inline=pol(("uses", "produces", "unwrap_ref")), loop_iters=(0, 1))) if feasible(ctx, o) and fact(o, lambda c: c == ("nonempty", I))]
    # where the devices of the entries are kept
    devices = {e.obj for o in outs for e in o.st.events if e.kind == "setitem" and e.value[0] == "attr" and e.value[2] == "device"}
    for o in outs:
        evs = o.st.events
        app = [i for i, e in enumerate(evs) if e.kind == "call" and e.name.endswith(".append") and e.args == (el,)]
        move = is_a(o, el, "MoveActivations")
        if move:
            buf = [e for e in evs if e.kind == "setitem" and e.value == el]
            ctx.check("cancel.activations", "buffered", bool(app) or any(e.args[0] == ("attr", el, "register_ref") for e in buf), f.loc, "a move is forgotten or recorded for another entry")
            continue
        ctx.check("cancel.activations", "instruction kept", len(app) == 1, f.loc, "an instruction is dropped or repeated")
        if len(app) != 1:
            continue
        n += 1
        pops = lambda es, key: [e for e in es if (e.kind == "call" and e.name.endswith(".pop") or e.kind == "delitem") and e.args and e.args[0] == key]
        if is_a(o, el, "DeleteRegisterEntries") is not True:
            ub = [c[1] for c, b in o.st.conds if b and c[0] == "nonempty" and meth(c[1], "uses") == el]
            asked = any(c[0] == "nonempty" and meth(c[1], "uses") == el for c, b in o.st.conds)
            seen = any(e.kind == "loop" and meth(e.obj, "uses") == el for e in evs[: app[0]])
            if not asked and not seen:
                ctx.check("cancel.activations", "moved before use", False, f.loc, "pending moves are not carried out before an instruction uses the entries")
            for u in ub[:1]:
                key = ("elem", u)
                ps = pops(evs[: app[0]], key)
                ctx.check("cancel.activations", "moved before use", bool(ps), f.loc, "the pending move of an entry is not carried out before an instruction uses it")
        # a pending move is dropped only if the entry already is on its device
        for i, e in enumerate(evs):
            if not (e.kind == "call" and e.name.endswith(".pop") or e.kind == "delitem" and e.name == "pop") or not e.args:
                continue
            key = e.args[0]
            mv = e.value if e.value is not None and e.value[0] == "call" else ("call", ("attr", e.obj, "pop"), (key, NONE), ())
            none = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and set(c[2:]) == {mv, NONE})
            if none is not False:
                continue
            emitted = any(x.kind == "call" and x.name.endswith(".append") and x.args == (mv,) for x in evs[i:])
            eq = [(c, b) for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] == "==" and ("attr", mv, "device") in c[2:]]
            if emitted:
                rec = [x for x in evs[i:] if x.kind == "setitem" and x.args[0] == key]
                if eq and eq[0][1] is False:
                    ctx.check("cancel.activations", "recorded", bool(rec) and rec[-1].value == ("attr", mv, "device"), f.loc, "the device an entry was moved to is not recorded")
                continue
            same = any(b and any(meth(x, "get") is not None and x[2][:1] == (key,) or x[0] == "item" and x[2] == key for x in c[2:]) for c, b in eq)
            ctx.check("cancel.activations", "dropped", same, f.loc, "a pending move is dropped although its entry is not known to be on the device")
        # what is known about the result
        for e in evs[app[0]:]:
            if e.kind == "setitem" and e.args[0] == ("attr", el, "target"):
                if e.value == CD:
                    ctx.check("cancel.activations", "result", is_a(o, el, "CallModule") is True and any(b and c[0] == "isinstance" and c[1] == ("attr", el, "module") for c, b in o.st.conds), f.loc, "the result of a function is taken to be on the compute device")
                elif is_a(o, el, "CallModule") and meth(e.value, "pop") is not None or e.value[0] == "call" and e.value[1] == ("builtin", "next"):
                    src = meth(e.value, "pop") or e.value[2][0]
                    agree = any(c[0] == "cmp" and c[1] in ("==", "<", "<=") and any(x[0] == "call" and x[1] == ("builtin", "len") for x in c[2:]) or c[0] == "call" and c[1] == ("builtin", "all") for c, _ in o.st.conds)
                    ctx.check("cancel.activations", "inputs agree", agree, f.loc, "the result of a function is taken to be where one of its inputs is")
                elif is_a(o, el, "LoadAttribute"):
                    ctx.check("cancel.activations", "part", contains(e.value, lambda x: x == ("attr", el, "source")), f.loc, f"a part is taken to be on {fmt(e.value)[:60]}")
        # an overwritten entry is not where the old one was
        pr = [c[1] for c, b in o.st.conds if b and c[0] == "nonempty" and meth(c[1], "produces") == el]
        for p in pr[:1]:
            for d in devices:
                gone = [e for e in pops(evs, ("elem", p)) if e.obj == d] or [e for e in evs if e.kind == "setitem" and e.obj == d and e.args[0] in (("elem", p), ("attr", el, "target"))]
                ctx.check("cancel.activations", "device forgotten", bool(gone), f.loc, "the device of an entry survives its replacement")
            ctx.check("cancel.activations", "forgotten", any(e.obj not in devices for e in pops(evs, ("elem", p))), f.loc, "a pending move of an entry survives its replacement")
    if not n:
        ctx.skip("cancel.activations", "moved before use", "the pass was not recognised")


# ------------------------------------------------------------------ caches
def caches(ctx):
    cq = f"{GM}.GraphModule"
    inv = method(ctx, "caches", cq, "_invalidate_caches")
    if inv is None:
        return
    cached = {}
    for f in ctx.p.funcs.values():
        if f.cls is None or f.cls.qual != cq or f.name in ("__init__", "_invalidate_caches") or "<locals>" in f.qual:
            continue
        for o in paths(ctx, f, inline=no_inline):
            for e in o.st.events:
                if e.kind == "setattr" and e.obj == SELF and e.value != NONE:
                    cached.setdefault(e.name, f)
    for o in normals(paths(ctx, inv, inline=pol())):
        for name, f in sorted(cached.items()):
            if name == "_program":
                continue
            ctx.check("caches", f"{name} reset", any(e.kind == "setattr" and e.obj == SELF and e.name == name and e.value == NONE for e in o.st.events), inv.loc, f"{name}, kept by {f.name}, survives a change of the graph")
    STATE = ("_nodes", "_inputs", "_outputs")
    MUT = ("append", "extend", "insert", "update", "pop", "clear", "remove", "setdefault", "popitem")
    fs = {f.qual: f for f in ctx.p.funcs.values() if f.cls is not None and f.cls.qual == cq and f.name not in ("__init__", "_invalidate_caches") and "<locals>" not in f.qual}
    # per path: whether it changes the graph itself, whether it resets, which of its methods it calls
    info = {}
    for q, f in fs.items():
        rows = set()
        for o in paths(ctx, f, inline=no_inline):
            evs = o.st.events
            mut = any(e.kind in ("setitem", "delitem", "del", "aug") and e.obj in [("attr", SELF, s) for s in STATE]
                      or e.kind == "setattr" and e.obj == SELF and e.name in STATE
                      or e.kind == "call" and e.obj in [("attr", SELF, s) for s in STATE] and e.name.rsplit(".", 1)[-1] in MUT for e in evs)
            done = any(e.kind == "call" and e.name.endswith("._invalidate_caches") and e.obj == SELF or e.kind == "setattr" and e.obj == SELF and e.name == "_engine" and e.value == NONE for e in evs)
            calls = frozenset(e.name[5:] for e in evs if e.kind == "call" and e.obj == SELF and e.name.startswith("func:") and e.name[5:] in fs)
            rows.add((mut, done, calls))
        info[q] = rows
    resets, dirty = set(), set()
    while True:
        r2 = {q for q, rows in info.items() if all(done or calls & resets for _, done, calls in rows)}
        d2 = {q for q, rows in info.items() if any((mut or calls & dirty) and not done and not calls & r2 for mut, done, calls in rows)}
        if (r2, d2) == (resets, dirty):
            break
        resets, dirty = r2, d2
    for q, f in sorted(fs.items()):
        called = any(q in calls for rows in info.values() for *_, calls in rows)
        if not any(mut for mut, *_ in info[q]) or f.name.startswith("_") and called:
            continue
        ctx.check("caches", f.name, q not in dirty, f.loc, f"{f.name} changes the graph and keeps the program scheduled before")
    ctx.floor("caches", 4)


# ------------------------------------------------------------------ layer-wise optimization
def layerwise(ctx):
    ORC = "fastforward.orchestration"
    f = fun(ctx, "layerwise", f"{ORC}.layerwise_optimize")
    n = 0
    if f is not None:
        DATA, OFF = ("param", "data"), ("param", "offloading")
        for o in normals(paths(ctx, f, inline=no_inline)):
            evs = o.st.events
            red = [e for e in evs if e.kind == "call" and e.name.endswith("reduce_resolution")]
            sch = [e for e in evs if e.kind == "call" and e.name.endswith(".schedule")]
            if len(red) != 1 or len(sch) != 1:
                continue
            n += 1
            g = ("item", red[0].value, const(0))
            ctx.check("layerwise", "schedule", sch[0].args == (g,), f.loc, "another graph than the reduced one is scheduled")
            ent = [(i, e.obj) for i, e in enumerate(evs) if e.kind == "enter"]
            runs = [i for i, e in enumerate(evs) if e.kind == "call" and e.value is not None and e.value[0] == "call" and e.value[1] == g]
            if not ent or not runs:
                ctx.check("layerwise", "run", bool(runs), f.loc, "the reduced graph is not run")
                continue
            i, c = next(((i, c) for i, c in ent if c[0] == "call" and g in (*c[2], *(v for _, v in c[3]))), ent[-1])
            left = [k for k, e in enumerate(evs) if e.kind == "exit" and e.obj == c]
            ctx.check("layerwise", "run", len(runs) == 1 and i < runs[0] and (not left or runs[0] < left[0]) and evs[runs[0]].args[:1] == (DATA,), f.loc, "the reduced graph is not run once on the data within its execution context")
            if c[0] == "call":
                a = list(c[2]) + [v for _, v in c[3]]
                ctx.check("layerwise", "program", g in a and sch[0].value in a, f.loc, f"{fmt(c)[:100]} is run")
                ctx.check("layerwise", "offloading", OFF in a, f.loc, "the offloading strategy is ignored")
        if not n:
            ctx.skip("layerwise", "schedule", "the scheduling was not recognised")
    q = f"{ORC}._ExecutionContext"
    f = method(ctx, "layerwise.passes", q, "__init__")
    if f is not None:
        for o in normals(paths(ctx, f, inline=no_inline)):
            ap = [e for e in o.st.events if e.kind == "call" and e.name.endswith("InstructionPasses.apply")]
            off = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and ("param", "offloading") in c[2:])
            if len(ap) != 1:
                ctx.check("layerwise.passes", "applied", False, f.loc, "the passes are not applied to the program")
                continue
            prog = evarg(ap[0], 0, "program")
            ctx.check("layerwise.passes", "program", prog == ("param", "program"), f.loc, f"the passes are applied to {fmt(prog)[:60]}")
            cre = [i for i, e in enumerate(o.st.events) if e.kind == "call" and e.name.endswith("create_instruction_pass")]
            if off is False:
                ctx.check("layerwise.passes", "offloading", len(cre) == 1 and o.st.events[cre[0]].args[:1] == (("param", "graph"),), f.loc, "the offloading pass is not created for the graph")
                lst = evarg(ap[0], 1, "passes")
                put = [e for e in o.st.events if e.kind == "call" and e.obj == lst and e.args and cre and e.args[-1] == o.st.events[cre[0]].value]
                if put:
                    ctx.check("layerwise.passes", "last", put[-1].name.endswith(".append"), f.loc, "offloading is not the last pass: what it inserts is dropped")
            sup = [e for e in o.st.events if e.kind == "call" and e.name.endswith("__init__")]
            if sup:
                ctx.check("layerwise.passes", "installed", ap[0].value in sup[-1].args and ("param", "graph") in sup[-1].args, f.loc, "the transformed program is not installed")
    q = f"{ORC}._GraphExecutionContext"
    ini, ent, ex = (ctx.p.find_method(q, m) if q in ctx.p.classes else None for m in ("__init__", "__enter__", "__exit__"))
    if ini is None or ex is None:
        ctx.skip("layerwise.restore", short(q), "the context does not exist")
        return
    graphs, saved, swapped = set(), {}, set()
    for g in (ini, ent):
        if g is None:
            continue
        for o in normals(paths(ctx, g, inline=no_inline)):
            gs = {("param", "graph")} | {("attr", SELF, e.name) for e in o.st.events if e.kind == "setattr" and e.obj == SELF and e.value == ("param", "graph")} | graphs
            graphs |= gs
            done = set()
            for e in o.st.events:
                if e.kind != "setattr":
                    continue
                if e.obj in gs:
                    swapped.add(e.name)
                    done.add(e.name)
                elif e.obj == SELF and e.value[0] == "attr" and e.value[1] in gs and e.value[2] not in done:
                    saved[e.value[2]] = ("attr", SELF, e.name)
    for o in paths(ctx, ex, inline=no_inline):
        for name in sorted(swapped):
            back = [e for e in o.st.events if e.kind == "setattr" and e.obj in graphs and e.name == name]
            ctx.check("layerwise.restore", name, bool(back) and back[-1].value == saved.get(name), ex.loc, f"{name} of the graph is not restored: the graph keeps the program of the optimization")
    if not swapped:
        ctx.skip("layerwise.restore", "graph", "nothing of the graph is replaced")
