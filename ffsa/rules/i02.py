"""AutoQuant quantizers.  Every quantizer that is written into generated code has a number of its own, a name that no other
quantizer of its scope has, and a place where it is declared: the quantized class, or the signature of the function that
uses it and of every function it is passed through."""
from __future__ import annotations

from types import SimpleNamespace

from .common import *
from .g01 import NONE, SELF, FALSE, fact, fun, meth, method, norm, paths, unwrap
from .h02 import subst
from .h03 import subs
from .h04 import flat_conds
from .i01 import AQ, AUTO, NODES, built, changes, cls_of, clsname, field, kinds, par, strip
from .i01 import seq as seq1

ASSUMPTIONS = ["libcst templates stand for the code they are written as", "modules, classes and functions are compared by identity, quantizer references by their number"]
COL = f"{AQ}.pybuilder.quantizer_collection"
QRC, BLD = f"{COL}.QuantizerReferenceCollection", f"{AQ}.pybuilder.builder"
REF = f"{NODES}.QuantizerReference"
META = ("attr", SELF, "_quantizer_metadata")


def check(ctx):
    numbering(ctx)
    expressing(ctx)
    contexts(ctx)
    grouping(ctx)
    naming(ctx)
    looking_up(ctx)
    belonging(ctx)
    declaring(ctx)
    composing(ctx)
    importing(ctx)
    parameters(ctx)
    printing(ctx)
    class_names(ctx)
    distinct_imports(ctx)
    submodules(ctx)
    discovering(ctx)
    propagating(ctx)
    signing(ctx)
    passing(ctx)
    converting(ctx)
    resolving(ctx)


# ------------------------------------------------------------------ helpers
def given(call, *names):
    """Arguments of a constructor or call by name."""
    return {**dict(zip(names, call[2])), **dict(call[3])}


def made(ctx, t, q):
    """Fields of an instance of a dataclass or simple class given to its constructor, or None."""
    t = strip(t)
    if t[0] != "call" or t[1] != ("class", q):
        return None
    names = [x[0] if isinstance(x, tuple) else x for x in ctx.p.fields(q)] if ctx.p.is_dataclass(q) else [p for p in (ctx.p.find_method(q, "__init__").params()[1:] if ctx.p.find_method(q, "__init__") else [])]
    return given(t, *names)


def ref_of(ctx, t):
    """(name, number) of a constructed quantizer reference."""
    t = strip(t)
    if t[0] == "call" and t[1] == ("class", REF):
        d = given(t, "value")
        return d.get("value"), d.get("refid")
    return None


def is_method(c, b, of=None):
    """Whether a condition says that a context is (not) one of an instance method; None if it says something else."""
    c, b = norm(c, b)
    if c[0] == "cmp" and c[1] in ("is", "=="):
        for x, y in ((c[2], c[3]), (c[3], c[2])):
            if x[0] in ("attr", "const", "global", "ext") and str(x[-1]).endswith("METHOD") and "METHOD" == str(x[-1]).rsplit(".", 1)[-1] and y[0] == "attr" and y[2] == "method_type" and (of is None or y[1] == of):
                return b
    return None


def method_fact(o, of=None):
    for c, b in o.st.conds:
        r = is_method(c, b, of)
        if r is not None:
            return r
    return None


def none_fact(o, t):
    r = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and {c[2], c[3]} == {t, NONE})
    if r is None:
        r = fact(o, lambda c: c == t)
        return None if r is None else not r
    return r


def seq(o, t):
    """What a sequence holds, in order; concatenations are followed."""
    if t is None:
        return None
    t = unwrap(t)
    if t[0] == "list" and len(t) > 1 and any(e.kind == "call" and e.obj == t and e.name in ("method:.append", "method:.extend") for e in o.st.events):
        # a literal that is added to later
        more = ("fresh", "list", "added")
        as_fresh = [e._replace(obj=more) if e.obj == t else e for e in o.st.events]
        a, b = seq1(o, t), seq1(SimpleNamespace(st=SimpleNamespace(events=as_fresh, conds=o.st.conds)), more)
        return None if a is None or b is None else a + b
    if t[0] == "bin" and t[1] == "+":
        a, b = seq(o, t[2]), seq(o, t[3])
        return None if a is None or b is None else a + b
    if t[0] == "comp" and len(t[3]) == 1:
        it, conds = t[3][0]
        sub = seq(o, it) if unwrap(it)[0] == "bin" else None
        if sub is not None:
            out = []
            for x in sub:
                v = x[1] if x[0] == "one" else x[2]
                elt = subst(t[2], ("elem", it), v)
                if conds:
                    return None
                out.append(("one", elt) if x[0] == "one" else (x[0], x[1], elt, x[3]))
            return out
    return seq1(o, t)


def runs(ctx, f, deny=(), **kw):
    kw.setdefault("loop_iters", (1,))
    return paths(ctx, f, inline=inline_same_module(deny=deny), **kw)


def loops_at(o, i):
    """What the loops that are open at an event go over."""
    open_ = []
    for e in o.st.events[:i]:
        if e.kind == "loop" and e.name == "for":
            open_.append(e.obj)
        elif e.kind == "endloop" and open_ and e.name != "while":
            open_.pop()
    return open_


def born(o, t):
    """Event at which a collection gets its name, or None."""
    return next((i for i, e in enumerate(o.st.events) if e.kind == "setname" and e.value == t), None)


# ------------------------------------------------------------------ numbers
def numbering(ctx):
    rule = "reference.number"
    f = method(ctx, rule, QRC, "create_reference")
    if f is None:
        return
    N, CTX, name = ("attr", SELF, "_next_ref_id"), ("attr", SELF, "_quantization_context"), par(f, 1)
    for o in runs(ctx, f):
        if o.kind != "return":
            continue
        n = "QuantizerReferenceCollection.create_reference"
        r = ref_of(ctx, o.val)
        if r is None:
            ctx.skip(rule, n, f"the result is not a constructed reference: {fmt(o.val)[:60]}")
            continue
        ctx.check(rule, n + " name", r[0] == name, f.loc, f"the reference is named {fmt(r[0]) if r[0] else 'nothing'}, not as asked")
        puts = [e for e in o.st.events if e.kind == "setitem" and e.obj == META]
        ups = [e for e in o.st.events if e.kind == "setattr" and e.obj == SELF and e.name == "_next_ref_id"]
        if r[1] is None or r[1] == NONE:
            ctx.check(rule, n + " number", False, f.loc, "the reference has no number")
            continue
        fresh = None
        if r[1] == N and len(ups) == 1:
            v = ups[0].value
            fresh = v[0] == "bin" and v[1] == "+" and N in v[2:] and any(x[0] == "const" and isinstance(x[2], int) and x[2] > 0 for x in v[2:])
        elif r[1] == N and not ups:
            fresh = False
        elif r[1][0] == "call" and r[1][1] == ("builtin", "next") or meth(r[1], "__next__") is not None:
            fresh = True
        elif r[1] in (("call", ("builtin", "len"), (META,), ()),):
            fresh = not any(e.kind == "delitem" for e in o.st.events)
        if fresh is None:
            ctx.skip(rule, n + " number", f"the number is {fmt(r[1])[:60]}")
        else:
            ctx.check(rule, n + " number", fresh, f.loc, "two references may be given the same number")
        ctx.check(rule, n + " registered", len(puts) == 1 and puts[0].args[0] == r[1], f.loc, "the reference is not registered under its number")
        if len(puts) != 1:
            continue
        m = made(ctx, puts[0].value, f"{COL}.QuantizerMetadata")
        if m is None:
            ctx.skip(rule, n + " metadata", "what is registered is not constructed here")
            continue
        ctx.check(rule, n + " metadata", m.get("refid") == r[1] and m.get("name") == name and m.get("context") == CTX and m.get("disambiguated_name", NONE) == NONE, f.loc,
                  "what is registered is not the number and name of the reference and the current context")
        cs = m.get("call_site", NONE)
        c = made(ctx, cs, f"{COL}.QuantizerCallSite")
        if cs != NONE and c is None:
            ctx.skip(rule, n + " call site", "the call site is not constructed here")
        elif c is not None:
            fn = c.get("func")
            ok = fn is not None and c.get("refid") == r[1] and (fn == ("attr", CTX, "func") or fn == NONE and none_fact(o, CTX) or fn[0] == "call" and fn[1] == ("builtin", "getattr") and fn[2][:2] == (CTX, const("func")))
            ctx.check(rule, n + " call site", ok, f.loc, "the call site is not the function of the current context")
    ctx.floor(rule, 5)


def expressing(ctx):
    rule = "reference.expression"
    f = method(ctx, rule, QRC, "create_quantizer_expression")
    if f is None:
        return
    CTX, name = ("attr", SELF, "_quantization_context"), par(f, 1)
    for o in runs(ctx, f, deny=("create_reference",)):
        if o.kind != "return":
            continue
        is_m = method_fact(o, CTX)
        n = f"create_quantizer_expression ({'instance method' if is_m else 'no instance'})"
        made_refs = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".create_reference")]
        ctx.check(rule, n + " one", len(made_refs) == 1 and made_refs[0].args + tuple(v for _, v in made_refs[0].kwargs) == (name,), f.loc, f"{len(made_refs)} references are made for one quantizer")
        if len(made_refs) != 1:
            continue
        R = made_refs[0].value
        v = strip(o.val)
        if not is_m:
            if v != R and is_m is None and none_fact(o, CTX) is not True:
                ctx.check(rule, n, False, f.loc, "a quantizer is looked up on an instance without the context being an instance method")
            else:
                ctx.check(rule, n, v == R, f.loc, f"the quantizer is {fmt(o.val)[:80]}, not the reference")
            continue
        owner = inner = None
        if v[0] == "call" and str(v[1][-1]).endswith("parse_template_expression"):
            d = dict(v[3])
            tpl = v[2][0] if v[2] else d.get("template")
            if tpl and tpl[0] == "const" and isinstance(tpl[2], str):
                p = tpl[2].replace(" ", "").split(".")
                if len(p) == 2 and all(x[0] == "{" and x[-1] == "}" for x in p):
                    owner, inner = d.get(p[0][1:-1]), d.get(p[1][1:-1])
        elif cls_of(v) == "Attribute":
            owner, inner = field(v, "value"), field(v, "attr")
        if owner is None or inner is None:
            ctx.check(rule, n, v != R, f.loc, "a quantizer of an instance is not looked up on the instance")
            if v != R:
                ctx.skip(rule, n + " owner", f"the expression is {fmt(v)[:60]}")
            continue
        who = field(owner, "value") if cls_of(strip(owner)) == "Name" else None
        iv = ("attr", CTX, "instance_var")
        alts = set(subs(who)) if who is not None else set()
        ctx.check(rule, n + " owner", who is not None and (who == iv or who == const("self") and fact(o, lambda c: c == iv) is False or who == const("self") and none_fact(o, iv) is True or who[0] in ("alt", "ifexp", "or", "bool") and iv in alts),
                  f.loc, f"the quantizer is looked up on {fmt(who) if who else fmt(owner)}")
        ctx.check(rule, n, strip(inner) == R, f.loc, "what is looked up is not the reference")
    ctx.floor(rule, 6)


def contexts(ctx):
    rule = "context.restored"
    f = method(ctx, rule, QRC, "push_context")
    if f is None:
        return
    CTX, new = ("attr", SELF, "_quantization_context"), par(f, 1)
    seen = set()
    for o in runs(ctx, f, yield_raises=True):
        evs = [e for e in o.st.events if e.kind in ("yield",) or e.kind == "setattr" and e.name == "_quantization_context"]
        ys = [i for i, e in enumerate(evs) if e.kind == "yield"]
        if not ys:
            if o.kind == "return":
                ctx.check(rule, "push_context", False, f.loc, "a path runs no body")
            continue
        n = f"push_context ({o.kind})"
        seen.add(o.kind)
        before = [e for e in evs[:ys[0]] if e.kind == "setattr"]
        ctx.check(rule, n + " set", bool(before) and before[-1].value == new, f.loc, "the body does not run in the given context")
        last = [e for e in evs if e.kind == "setattr"]
        ctx.check(rule, n + " restored", bool(last) and last[-1].value == CTX and evs.index(last[-1]) > ys[-1] if len(last) > 1 else False, f.loc, "the context is not restored")
    ctx.floor(rule, 4)


# ------------------------------------------------------------------ names
def scope_key(t):
    """Part of the context a scope is identified by, or None for no context."""
    return t[2] if t[0] == "attr" else None if t == NONE else "?"


def grouping(ctx):
    rule = "name.scope"
    f = method(ctx, rule, QRC, "disambiguate_all_names")
    if f is None:
        return
    M = ("val", META)
    seen = set()
    for o in runs(ctx, f):
        if o.kind != "return":
            continue
        ap = [e for e in o.st.events if e.kind == "call" and e.name == "method:.append" and any(x in (M, ("elem", META)) or x[0] == "elem" and x[1] == ("call", ("attr", META, "values"), (), ()) for x in e.args)]
        if not ap:
            if any(c[0] == "nonempty" and b and c[1] in (META, ("call", ("attr", META, "values"), (), ())) for c, b in o.st.conds):
                ctx.check(rule, "every quantizer", False, f.loc, "a quantizer is not put into any scope")
            continue
        for e in ap:
            m = e.args[0]
            C = ("attr", m, "context")
            if not (e.obj and e.obj[0] == "item" and e.obj[1][0] == "item"):
                ctx.skip(rule, "scope", "quantizers are not grouped by scope and name")
                continue
            key, nm = e.obj[1][2], e.obj[2]
            is_m, none = method_fact(o, C), none_fact(o, C)
            ks = key[1:] if key[0] == "tuple" else (key,)
            parts = {x[2] for x in ks if x[0] == "attr" and x[1] == C}
            other = [x for x in ks if not (x[0] == "attr" and x[1] == C) and x[0] != "const"]
            n = f"scope ({'no context' if none else 'instance method' if is_m else 'function' if is_m is False else 'any'})"
            if any(x in (("attr", m, "refid"), ("attr", m, "call_site")) for x in other):
                ctx.check(rule, n, False, f.loc, "quantizers are told apart by their number: two of one scope may get the same name")
                continue
            if other:
                ctx.skip(rule, n, f"the scope is {fmt(key)[:60]}")
                continue
            if (n, key) in seen:
                continue
            seen.add((n, key))
            ctx.check(rule, n + " name", nm == ("attr", m, "name"), f.loc, "quantizers are not grouped by name")
            if none:
                ctx.check(rule, n, not parts, f.loc, "a quantizer without context is put in a scope of one")
            elif is_m:
                ctx.check(rule, n, parts == {"torch_module"}, f.loc, f"quantizers of the instances of one class are told apart by {', '.join(sorted(parts)) or 'nothing'}: two of them may get the same name")
            elif is_m is None:
                ctx.check(rule, n, not parts or parts <= {"torch_module", "py_module"}, f.loc, f"quantizers of instances and of functions are told apart by {', '.join(sorted(parts))}")
            else:
                ctx.check(rule, n, parts <= {"func", "torch_module", "py_module"}, f.loc, f"quantizers of one function are told apart by {', '.join(sorted(parts))}: two of them may get the same name")
    ctx.floor(rule, 6)


def naming(ctx):
    rule = "name.unique"
    f = method(ctx, rule, QRC, "disambiguate_all_names")
    if f is None:
        return
    got = 0
    for o in runs(ctx, f):
        if o.kind != "return":
            continue
        sets = [(i, e) for i, e in enumerate(o.st.events) if e.kind == "setattr" and e.name == "disambiguated_name"]
        if not sets:
            if not any(c[0] == "nonempty" and not b for c, b in o.st.conds) and any(e.kind == "loop" for e in o.st.events):
                ctx.check(rule, "every quantizer", False, f.loc, "a quantizer is left without a name")
            continue
        for i, e in sets:
            member = [(c, b) for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] == "in"]
            if member and member[-1][1]:
                continue   # the search for a free name was cut
            asked = [(c, b) for c, b in member if c[2] == e.value and not b]
            got += 1
            ctx.check(rule, "free", bool(asked), f.loc, f"the name {fmt(e.value)[:80]} is given without asking whether it is used already")
            if not asked:
                continue
            S = asked[-1][0][3]
            adds = [j for j, a in enumerate(o.st.events) if (a.kind == "call" and a.name in ("method:.add", "method:.append") and a.obj == S and a.args == (e.value,) or a.kind == "setitem" and a.obj == S and a.args and a.args[0] == e.value)]
            ctx.check(rule, "taken", bool(adds), f.loc, "a name that is given is not remembered as used")
            # the set of used names must outlive the names of one scope
            depth = None
            if S[0] == "fresh":
                reset = [j for j, a in enumerate(o.st.events) if a.kind in ("setname", "call") and a.value == S]
                first = min(reset) if reset else None
                if first is not None:
                    stack = 0
                    for a in o.st.events[:first]:
                        stack += (a.kind == "loop" and a.name == "for") - (a.kind == "endloop")
                    depth = stack
            if depth is None:
                ctx.skip(rule, "scope", "where the used names are collected is not known")
            else:
                ctx.check(rule, "scope", depth <= 1, f.loc, "the used names are forgotten between the names of one scope")
    if not got:
        ctx.skip(rule, "names", "no name is seen to be given")
    ctx.floor(rule, 3)


def looking_up(ctx):
    rule = "name.lookup"
    f = method(ctx, rule, QRC, "disambiguate_reference")
    if f is None:
        return
    R = par(f, 1)
    known = lambda o: fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == ("attr", R, "refid") and c[3] == META)
    outs = list(runs(ctx, f, deny=("disambiguate_all_names",)))
    asked = [o for o in outs if fact(o, lambda c: c[0] == "isinstance" and c[1] == R) is not True and not (o.kind == "raise" and o.val is not None and "AssertionError" in fmt(o.val))]
    if any(known(o) is not None for o in asked) or asked and all(o.kind == "raise" for o in asked):
        ctx.check(rule, "disambiguate_reference (known)", any(o.kind == "return" for o in asked) and not any(known(o) is (o.kind == "raise") for o in asked), f.loc, "a reference of the collection is refused, or one of another accepted")
    for o in outs:
        if o.kind != "return":
            continue
        v = o.val
        number = fact(o, lambda c: c[0] == "isinstance" and c[1] == R)
        want = R if number else ("attr", R, "refid") if number is False else None
        n = f"disambiguate_reference ({'number' if number else 'reference'})"
        if v[0] != "attr" or v[2] not in ("disambiguated_name", "name") or not (v[1][0] == "item" and v[1][1] == META):
            ctx.skip(rule, n, f"the result is {fmt(v)[:60]}")
            continue
        ctx.check(rule, n, v[2] == "disambiguated_name" and (want is None or v[1][2] == want), f.loc, f"the name of a reference is {fmt(v)}")
        named = none_fact(o, v)
        did = any(e.kind == "call" and e.name.endswith(".disambiguate_all_names") for e in o.st.events)
        ctx.check(rule, n + " given", named is False or did, f.loc, "the name is returned without being determined")
    ctx.floor(rule, 2)


# ------------------------------------------------------------------ owners
def belonging(ctx):
    rule = "owner.complete"
    M = ("val", META)
    for name, which in (("local_quantizers_for_func", "func"), ("instance_quantizers_for_module", "torch_module")):
        f = method(ctx, rule, QRC, name)
        if f is None:
            continue
        P = par(f, 1)
        for o in runs(ctx, f):
            if o.kind != "return":
                continue
            loops = [e for e in o.st.events if e.kind == "loop"]
            m = next((x for e in loops for x in (e.value, M) if x is not None and x == M), None)
            ys = [e for e in o.st.events if e.kind == "yield"]
            if not loops and not ys:
                if isinstance(o.val, tuple) and o.val[0] == "comp":
                    ctx.skip(rule, name, "the quantizers are a comprehension")
                continue
            m = M
            C, S = ("attr", m, "context"), ("attr", m, "call_site")
            dict(flat_conds(o)) if not isinstance(flat_conds(o), dict) else flat_conds(o)
            here = fact(o, lambda c: c[0] == "cmp" and c[1] in ("is", "==") and {c[2], c[3]} == {("attr", C, which), P})
            is_m = method_fact(o, C)
            none = none_fact(o, C)
            site = fact(o, lambda c: c[0] == "cmp" and c[1] in ("is", "==") and {c[2], c[3]} == {("attr", S, "func"), P})
            if ys:
                r = ref_of(ctx, ys[0].value)
                if r is None:
                    ctx.skip(rule, name, f"what is yielded is {fmt(ys[0].value)[:60]}")
                    continue
                ctx.check(rule, f"{name} reference", len(ys) == 1 and r == (("attr", m, "name"), ("attr", m, "refid")), f.loc, "what is yielded is not the reference of the quantizer")
                ctx.check(rule, f"{name} owner", here is True, f.loc, f"a quantizer of another {which} is yielded")
                ctx.check(rule, f"{name} kind", is_m is (which == "torch_module"), f.loc, "quantizers of instances and of functions are mixed up")
                if which == "func":
                    ctx.check(rule, f"{name} use", site is not False, f.loc, "a quantizer that another function uses is yielded")
            else:
                ok = none is True or here is False or is_m is (which == "func") or which == "func" and site is False
                ctx.check(rule, f"{name} every", ok, f.loc, f"a quantizer of the {which} is left out: {', '.join(('' if b else 'not ') + fmt(c)[:60] for c, b in o.st.conds[1:])}")
    ctx.floor(rule, 8)


# ------------------------------------------------------------------ declarations
def template(t):
    """(template text, arguments) of a statement or expression made from a template."""
    t = strip(t)
    if t[0] == "call" and t[1][0] == "ext" and t[1][1].rsplit(".", 1)[-1] in ("parse_template_statement", "parse_template_expression", "parse_statement", "parse_expression"):
        x = t[2][0] if t[2] else None
        if x is not None:
            return x, dict(t[3])
    return None, {}


def declaring(ctx):
    rule = "declared.instance"
    f = method(ctx, rule, f"{BLD}.InitQuantizationMethod", "build")
    if f is None:
        return
    Q = par(f, 1)
    deny = ("instance_quantizers_for_module", "local_quantizers_for_func")
    for o in runs(ctx, f, deny=deny):
        if o.kind != "return":
            continue
        n = "InitQuantizationMethod.build"
        v = strip(o.val)
        vis = meth(v, "visit")
        tr = vis is not None and v[2] and v[2][0][0] == "call" and v[2][0][1] == ("class", f"{BLD}._DisambiguateQuantizerNameTransformer") and v[2][0][2] + tuple(x for _, x in v[2][0][3]) == (Q,)
        ctx.check(rule, n + " names", tr, f.loc, "the declarations are not given the names of the quantizers")
        [x[1] for x in subs(v) if isinstance(x, tuple) and len(x) == 2 and x[0] == "body"]
        blocks = [x for x in subs(v) if x[0] == "call" and cls_of(x) == "IndentedBlock"]
        if len(blocks) != 1:
            ctx.skip(rule, n, "the body is not one block")
            continue
        s = seq(o, field(blocks[0], "body"))
        if s is None:
            ctx.skip(rule, n, "the body is not a sequence the rule can read")
            continue
        ones = [x for x in s if x[0] == "one"]
        each = [x for x in s if x[0] != "one"]
        ok_super = False
        for x in ones:
            tpl, _ = template(x[1])
            ok_super |= tpl is not None and any(z[0] == "const" and isinstance(z[2], str) and "super()." in z[2] for z in subs(tpl)) and (any(z == ("attr", SELF, "name") for z in subs(tpl)) or any(z[0] == "const" and isinstance(z[2], str) and "__init_quantization__" in z[2] for z in subs(tpl)))
        ctx.check(rule, n + " super", ok_super, f.loc, "the quantizers of the base classes are not created")
        src = [unwrap(x[1]) for x in each]
        want = "instance_quantizers_for_module"
        okeach = len(each) == 1 and not each[0][3] and meth(src[0], want) == Q and src[0][2] + tuple(y for _, y in src[0][3]) == (("attr", SELF, "_counterpart_type"),)
        ctx.check(rule, n + " every", okeach, f.loc, "not every quantizer of the class is declared, exactly once")
        if len(each) == 1:
            tpl, args = template(each[0][2])
            if tpl is None or tpl[0] != "const":
                ctx.skip(rule, n + " declaration", "the declaration is not a template")
            else:
                txt = tpl[2].replace(" ", "")
                el = ("elem", each[0][1])
                hole = [k for k, a in args.items() if strip(a) in (el, ("elem", src[0]))]
                ctx.check(rule, n + " declaration", len(hole) == 1 and txt.startswith(f"self.{{{hole[0]}}}") and txt.split("=", 1)[-1] == "fastforward.nn.QuantizerStub()", f.loc, f"a quantizer is declared as {tpl[2]!r} with {', '.join(args)}")
    ctx.floor(rule, 4)


def composing(ctx):
    rule = "generated.complete"
    f = method(ctx, rule, f"{BLD}.QuantizedModuleBuilder", "build")
    if f is not None:
        Q = par(f, 1)
        for o in runs(ctx, f, deny=("build_class",)):
            if o.kind != "return":
                continue
            n = "QuantizedModuleBuilder.build"
            calls = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".build_class")]
            if len(calls) != 1:
                ctx.skip(rule, n, "the class is not built by one call of build_class")
                continue
            d = given(calls[0].value, "bases", "methods", "quantizer_refs")
            bs, ms = seq(o, d.get("bases")), seq(o, d.get("methods"))
            if bs is None or ms is None:
                ctx.skip(rule, n, "bases or methods are not a sequence the rule can read")
                continue
            ctx.check(rule, n + " bases", len(bs) == 2 and bs[0][:2] == ("one", const("fastforward.nn.QuantizedModule")) and bs[1][0] == "each" and unwrap(bs[1][1]) == ("attr", SELF, "_bases") and not bs[1][3], f.loc,
                      "the class does not derive from QuantizedModule and then from its own bases")
            inits = [x for x in ms if x[0] == "one" and x[1][0] == "call" and x[1][1] == ("class", f"{BLD}.InitQuantizationMethod")]
            rest = [x for x in ms if x not in inits]
            ctx.check(rule, n + " init", len(inits) == 1 and tuple(inits[0][1][2]) + tuple(v for _, v in inits[0][1][3]) in ((("attr", SELF, "origin"),), (("attr", SELF, "_origin"),)), f.loc, "the quantizers of the class this one is made from are not declared (once)")
            ctx.check(rule, n + " methods", len(rest) == 1 and rest[0][0] == "each" and unwrap(rest[0][1]) == ("attr", SELF, "_methods") and not rest[0][3], f.loc, "not every method is in the class, once and in order")
            ctx.check(rule, n + " collection", d.get("quantizer_refs") == Q, f.loc, "the quantizers are those of another collection")
    f = method(ctx, rule, f"{BLD}.ClassBuilder", "build_class")
    if f is not None:
        ms, Q = par(f, "methods"), par(f, "quantizer_refs")
        for o in runs(ctx, f):
            if o.kind != "return":
                continue
            n = "ClassBuilder.build_class"
            v = strip(o.val)
            vis = meth(v, "visit")
            okv = vis is not None and v[2][0][0] == "call" and v[2][0][1] == ("class", f"{BLD}._ResolveAbstractClassReferences") and any(x == ("attr", SELF, "_name") for x in subs(v[2][0]))
            ctx.check(rule, n + " class references", okv, f.loc, "references to the class are not given the name of the class")
            base, d = changes(vis if vis is not None else v)
            blk = d.get("body") or field(base, "body")
            s = seq(o, field(blk, "body")) if blk is not None and cls_of(strip(blk)) == "IndentedBlock" else None
            if s is None:
                ctx.skip(rule, n, "the body of the class is not a sequence the rule can read")
                continue
            x = s[0] if s else None
            ok = len(s) == 1 and x[0] == "each" and not x[3] and unwrap(x[1]) == ms and meth(x[2], "build") is not None and unwrap(meth(x[2], "build")) in (("elem", x[1]), ("elem", ms)) and x[2][2] + tuple(v for _, v in x[2][3]) == (Q,)
            ctx.check(rule, n + " methods", ok, f.loc, "not every method is built into the class, once and in order")
            txt = set(subs(base))
            ctx.check(rule, n + " head", ("attr", SELF, "_name") in txt and any(x == par(f, "bases") for x in txt), f.loc, "the class is not given its name and bases")
    f = method(ctx, rule, f"{BLD}.ModuleBuilder", "build_module")
    if f is not None:
        Q = par(f, 1)
        for o in runs(ctx, f, deny=("import_statements",)):
            if o.kind != "return":
                continue
            s = seq(o, o.val)
            n = "ModuleBuilder.build_module"
            if s is None:
                ctx.skip(rule, n, "the statements are not a sequence the rule can read")
                continue
            imp = [i for i, x in enumerate(s) if x[0] == "each" and meth(unwrap(x[1]), "import_statements") == SELF and not x[3]]
            own = [i for i, x in enumerate(s) if x[0] == "each" and unwrap(x[1]) == ("attr", SELF, "_statements") and not x[3] and meth(x[2], "build") is not None and x[2][2] + tuple(v for _, v in x[2][3]) == (Q,)]
            ctx.check(rule, n + " imports", len(imp) == 1 and (not own or imp[0] < own[0]), f.loc, "the imports do not come first")
            ctx.check(rule, n + " statements", len(own) == 1 and len(s) == 2, f.loc, "not every class and function is built into the module, once and in order")
    lists = (("ModuleBuilder", "quantized_functions", "QuantizedFunctionBuilder"), ("ModuleBuilder", "functions", "FunctionBuilder"), ("ModuleBuilder", "classes", "ClassBuilder"))
    for cls, name, what in lists:
        f = method(ctx, rule, f"{BLD}.{cls}", name)
        if f is None:
            continue
        n = f"{cls}.{name}"
        own, meths = set(), set()
        unknown = False
        for o in runs(ctx, f, deny=("classes", "methods")):
            for e in o.st.events:
                if e.kind != "yield":
                    continue
                v = e.value
                srcs = [v]
                if v[0] == "elem":
                    srcs.append(v[1])
                t = unwrap(v[1] if v[0] == "elem" else v)
                if t[0] == "comp":
                    src, ifs = t[3][0]
                    cond = {c for c, b in ifs if b}
                    el = t[2]
                    src = unwrap(src)
                    bad = any(not b for c, b in ifs) or any(not (c[0] == "isinstance" and c[1] == el and clsname(c[2]) == what) for c in cond)
                elif v[0] == "elem":
                    src, el = t, v
                    yes, no = kinds(o, el)
                    bad = not yes <= {what} or bool(no)
                else:
                    unknown = True
                    continue
                if src == ("attr", SELF, "_statements"):
                    own.add(not bad)
                elif meth(src, "methods") is not None:
                    meths.add(not bad)
                else:
                    unknown = True
        if unknown:
            ctx.skip(rule, n, "what is listed is not understood")
            continue
        ctx.check(rule, n + " own", own == {True}, f.loc, "the functions and classes of the module are not all listed")
        if name != "classes":
            ctx.check(rule, n + " methods", meths == {True}, f.loc, "the methods of the classes are not all listed")
    for cls, name, attr in (("ModuleBuilder", "add_class", "_statements"), ("ModuleBuilder", "add_function", "_statements"), ("ClassBuilder", "add_method", "_methods")):
        f = method(ctx, rule, f"{BLD}.{cls}", name)
        if f is None:
            continue
        for o in runs(ctx, f):
            if o.kind == "return":
                es = [e for e in o.st.events if e.kind == "call" and e.name == "method:.append" and e.obj == ("attr", SELF, attr)]
                other = [e for e in o.st.events if e.kind in ("setattr", "setitem", "delitem", "aug") or e.kind == "call" and e.name in ("method:.insert", "method:.extend")]
                if other:
                    ctx.skip(rule, f"{cls}.{name}", "the list is changed in another way")
                    continue
                ctx.check(rule, f"{cls}.{name}", len(es) == 1 and es[0].args == (par(f, 1),), f.loc, "what is added is not kept")
    ctx.floor(rule, 14)


def none_invalid(c, b):
    """Whether a condition says that every import is valid; None if it cannot be told."""
    if c[0] == "call" and c[1] in (("builtin", "any"), ("builtin", "all")) and len(c[2]) == 1 and c[2][0][0] == "comp" and not c[2][0][3][0][1]:
        e, pol = norm(c[2][0][2], True)
        if meth(e, "is_valid") is None:
            return None
        return not pol and not b if c[1][1] == "any" else pol and b
    return None


def importing(ctx):
    rule = "generated.imports"
    f = method(ctx, rule, f"{BLD}.ClassBuilder", "required_imports")
    if f is not None:
        for o in runs(ctx, f):
            if o.kind != "return":
                continue
            got = set()
            for e in o.st.events:
                if e.kind in ("aug", "setname", "call"):
                    for a in e.args + ((e.value,) if e.value else ()):
                        got |= {x for x in subs(a) if x[0] == "attr" and x[2] in ("required_imports", "_required_imports")}
            own = any(x == ("attr", SELF, "_required_imports") for x in got) or any(x == ("attr", SELF, "_required_imports") for x in subs(o.val))
            ms = any(x[1][0] == "elem" and unwrap(x[1][1]) in (("attr", SELF, "_methods"),) for x in got) or any(x[0] == "attr" and x[2] == "required_imports" and x[1][0] == "elem" and unwrap(x[1][1]) == ("attr", SELF, "_methods") for x in subs(o.val))
            ctx.check(rule, "ClassBuilder.required_imports own", own, f.loc, "the imports of the class itself are missing")
            ctx.check(rule, "ClassBuilder.required_imports methods", ms, f.loc, "the imports of the methods are missing")
    f = method(ctx, rule, f"{BLD}.ModuleBuilder", "import_statements")
    if f is not None:
        for o in runs(ctx, f):
            if o.kind != "return":
                continue
            ys = [e for e in o.st.events if e.kind == "yield"]
            lib = [e for e in ys if template(e.value)[0] is not None]
            sym = [e for e in ys if e not in lib]
            for e in o.st.events:
                for a in e.args if e.kind == "aug" or e.kind == "call" and e.name in ("method:.update", "method:.add", "method:.extend", "method:.append") else ():
                    for x in subs(a):
                        if x[0] == "comp" and any(y[0] in ("attr", "call") and ("required_imports" in y[2:] or len(y) > 2 and const("required_imports") in y[2]) for g in x[3] for y in subs(g[0])):
                            cs = [c for g in x[3] for c, b in g[1] if not (c[0] == "cmp" and c[1] == "in" and c[2][0] == "elem" and not b)]
                            ctx.check(rule, "import_statements kept", not cs, f.loc, "imports that are required are left out on a condition")
            every = [e for e in o.st.events if e.kind == "loop" and e.name == "for" and e.obj is not None and any(meth(c, "is_valid") == e.value for c, _ in (norm(c, b) for c, b in o.st.conds))]
            if every and not sym:
                ctx.check(rule, "import_statements every", False, f.loc, "an import that is required is left out")
            for e in sym:
                lo = loops_at(o, o.st.events.index(e))
                if lo and all(unwrap(x) != ("attr", SELF, "_statements") for x in lo):
                    src = unwrap(lo[-1])
                    while src[0] == "call" and src[1][0] == "builtin" and src[2]:
                        src = unwrap(src[2][0])
                    ctx.check(rule, "import_statements all", src[0] in ("fresh", "comp") or not any(x == ("elem", ("attr", SELF, "_statements")) for x in subs(src)), f.loc, "only the imports of one class or function of the module are written")
                S = meth(e.value, "as_node") or meth(e.value, "as_fallback_node")
                if S is None:
                    ctx.skip(rule, "ModuleBuilder.import_statements", "what is yielded is not understood")
                    continue
                valid = fact(o, lambda c: meth(c, "is_valid") == S)
                normal = meth(e.value, "as_node") is not None
                ctx.check(rule, f"import_statements ({'statement' if normal else 'importlib'})", valid is normal, f.loc, "a name is imported by a statement that cannot import it")
                if not normal:
                    if lib:
                        ctx.check(rule, "import_statements importlib first", o.st.events.index(lib[0]) < o.st.events.index(e), f.loc, "importlib is used before it is imported")
                        continue
                    why = [(c, b) for c, b in (norm(c, b) for c, b in o.st.conds) if any(meth(x, "is_valid") is not None for x in subs(c)) and meth(c, "is_valid") is None]
                    off = [none_invalid(c, b) for c, b in why]
                    if not why:
                        ctx.check(rule, "import_statements importlib", False, f.loc, "importlib is used and not imported")
                    elif None in off:
                        ctx.skip(rule, "import_statements importlib", "it is not clear when importlib is imported")
                    else:
                        ctx.check(rule, "import_statements importlib", any(off), f.loc, "importlib is used and not imported")
        outs = [o for o in runs(ctx, f) if o.kind == "return"]
        srcs = {unwrap(l) for o in outs for i, e in enumerate(o.st.events) if e.kind == "yield" and (meth(e.value, "as_node") or meth(e.value, "as_fallback_node")) for l in loops_at(o, i)[-1:] if l}
        srcs = {unwrap(x[2][0]) if x[0] == "call" and x[1][0] == "builtin" and x[2] else x for x in srcs}
        for S in srcs:
            if S[0] == "fresh":
                fed = any(e.obj == S and any(isinstance(x, tuple) and ("required_imports" in x or const("required_imports") in x) for a in e.args for x in subs(a)) for o in outs for e in o.st.events if e.kind in ("aug", "call"))
                ctx.check(rule, "import_statements stem", fed, f.loc, "the imports that classes and functions require are not written")
    f = method(ctx, rule, f"{BLD}.QuantizedModuleBuilder", "__init__")
    if f is not None:
        own = lambda t: any(x[0] == "call" and x[1][0] == "class" and x[1][1].endswith(".ImportSymbol") and const("fastforward") in vals(x) for x in subs(t))
        for o in runs(ctx, f):
            if o.kind == "return":
                ok = any(own(a) for e in o.st.events for a in e.args + ((e.value,) if e.value else ()) + tuple(v for _, v in e.kwargs or ()))
                ctx.check(rule, "QuantizedModuleBuilder fastforward", ok, f.loc, "quantized classes do not import the package that they derive from")
    f = method(ctx, rule, f"{BLD}.ClassBuilder", "has_method")
    if f is not None:
        for o in runs(ctx, f):
            v = o.val
            if o.kind != "return" or v[0] != "call" or v[1] != ("builtin", "any") or not v[2] or v[2][0][0] != "comp":
                continue
            (it, conds), elt = v[2][0][3][0], v[2][0][2]
            c, b = norm(elt, True)
            nm = ("attr", ("elem", it), "name")
            ctx.check(rule, "ClassBuilder.has_method", unwrap(it) == ("attr", SELF, "_methods") and not conds and b and c[0] == "cmp" and c[1] == "==" and {c[2], c[3]} == {nm, par(f, 1)}, f.loc, "a class is said to have a method that it has not, or not one that it has")
    f = method(ctx, rule, f"{BLD}.ClassBuilder", "methods")
    if f is not None:
        for o in runs(ctx, f):
            if o.kind != "return" or any(c[0] == "nonempty" and not b for c, b in o.st.conds):
                continue
            ys = [e.value for e in o.st.events if e.kind == "yield"]
            got = any(x == ("attr", SELF, "_methods") for v in [*ys, o.val] if v for x in subs(v))
            ctx.check(rule, "ClassBuilder.methods", got, f.loc, "the methods of a class are not listed")
    for name, kind in (("functions", "FunctionBuilder"), ("quantized_functions", "QuantizedFunctionBuilder")):
        f = method(ctx, rule, f"{BLD}.ModuleBuilder", name)
        for o in runs(ctx, f, deny=("classes",)) if f is not None else ():
            if o.kind != "return":
                continue
            got = [x for e in o.st.events if e.kind == "yield" for a in ((e.obj,) if e.obj else ()) + ((e.value,) if e.value else ()) + e.args for x in subs(a)]
            into = fact(o, lambda c: c[0] == "nonempty" and called(unwrap(c[1]), "classes"))
            ms = lambda x: x[0] == "elem" and unwrap(x[1])[0] == "call" and meth(unwrap(x[1]), "methods") is not None
            none = any(not b and (c[0] == "isinstance" and ms(c[1]) or c[0] == "nonempty" and meth(unwrap(c[1]), "methods") is not None) for c, b in (norm(c, b) for c, b in o.st.conds))
            if into is not False and not none:
                ctx.check(rule, f"{name} methods", any(ms(x) or meth(x, "methods") is not None for x in got), f.loc, "methods of the classes are left out")
    ctx.floor(rule, 4)


def parameters(ctx):
    rule = "declared.parameter"
    f = fun(ctx, rule, f"{BLD}._add_quantizer_args")
    if f is not None:
        F, A = par(f, 0), par(f, 1)
        for o in runs(ctx, f):
            if o.kind != "return":
                continue
            n = "_add_quantizer_args"
            base, d = changes(o.val)
            if base != F or "params" not in d and d:
                ctx.check(rule, n + " function", False, f.loc, f"the function becomes {fmt(o.val)[:80]}")
                continue
            if not d:
                ctx.check(rule, n + " function", fact(o, lambda c: c == A or c[0] == "nonempty" and unwrap(c[1]) == A) is False, f.loc, "the quantizers are not added to the signature")
                continue
            ctx.check(rule, n + " function", set(d) == {"params"}, f.loc, f"{', '.join(sorted(set(d) - {'params'}))} of the function is changed, too")
            pb, pd = changes(d["params"])
            ctx.check(rule, n + " rest", pb == ("attr", F, "params") and set(pd) == {"kwonly_params"}, f.loc, "parameters other than keyword-only ones are changed")
            s = seq(o, pd.get("kwonly_params")) if "kwonly_params" in pd else None
            if s is None:
                ctx.skip(rule, n + " quantizers", "the parameters are not a sequence the rule can read")
                continue
            old = [x for x in s if x[0] == "each" and unwrap(x[1]) == ("attr", ("attr", F, "params"), "kwonly_params") and not x[3]]
            new = [x for x in s if x[0] == "each" and unwrap(x[1]) == A and not x[3]]
            ctx.check(rule, n + " kept", len(old) == 1, f.loc, "the keyword-only parameters of the function are not kept")
            ctx.check(rule, n + " quantizers", len(new) == 1 and len(s) == 2 and any(strip(y) in (("elem", A), ("elem", new[0][1])) for y in subs(new[0][2])), f.loc, "not every quantizer is a parameter, once")
    f = method(ctx, rule, f"{BLD}.QuantizedFunctionBuilder", "build")
    if f is not None:
        Q = par(f, 1)
        for o in runs(ctx, f, deny=("_add_quantizer_args",)):
            if o.kind != "return":
                continue
            n = "QuantizedFunctionBuilder.build"
            v = strip(o.val)
            vis = meth(v, "visit")
            tr = vis is not None and v[2] and v[2][0][0] == "call" and v[2][0][1] == ("class", f"{BLD}._DisambiguateQuantizerNameTransformer") and v[2][0][2] + tuple(x for _, x in v[2][0][3]) == (Q,)
            ctx.check(rule, n + " names", tr, f.loc, "the quantizers of the function are not given their names")
            x = strip(vis) if vis is not None else v
            okc = x[0] == "call" and x[1] == ("func", f"{BLD}._add_quantizer_args")
            d = given(x, "funcdef", "args") if okc else {}
            ctx.check(rule, n + " signature", okc and d.get("funcdef") in (("attr", SELF, "_funcdef"), ("attr", SELF, "cst")) and unwrap(d.get("args", NONE)) == ("attr", SELF, "quantizer_signature"), f.loc, "the quantizers of the signature are not parameters of the function")
    ctx.floor(rule, 5)


def printing(ctx):
    rule = "name.printed"
    f = method(ctx, rule, f"{BLD}._DisambiguateQuantizerNameTransformer", "leave_QuantizerReference")
    if f is None:
        return
    U, R = par(f, 2), ("attr", SELF, "_quantizer_refs")
    looked = False
    for o in runs(ctx, f, exc="calls", deny=("disambiguate_reference",)):
        if o.kind != "return":
            continue
        b = built(o.val)
        n = "leave_QuantizerReference"
        if cls_of(strip(o.val)) != "Name" or b is None:
            ctx.skip(rule, n, f"a reference becomes {fmt(o.val)[:60]}")
            continue
        v = b.get("value")
        look = v is not None and meth(v, "disambiguate_reference") == R and v[2] + tuple(x for _, x in v[3]) in ((U,), (par(f, 1),), (("attr", U, "refid"),), (("attr", par(f, 1), "refid"),))
        tried = any(e.kind == "call" and e.name.endswith(".disambiguate_reference") for e in o.st.events)
        if look:
            looked = True
            ctx.check(rule, n, True, f.loc, "")
        elif v == ("attr", U, "value") and tried:
            ctx.check(rule, n + " unknown", True, f.loc, "")   # the reference is not one of the collection
        else:
            ctx.check(rule, n, False, f.loc, f"a reference is printed as {fmt(v) if v else 'nothing'}")
        ctx.check(rule, n + " parentheses", all(strip(b.get(k, NONE)) in (("attr", U, k), ("attr", par(f, 1), k)) for k in ("lpar", "rpar")), f.loc, "parentheses of a reference are dropped")
    ctx.check(rule, "names", looked, f.loc, "references are never given their names")
    ctx.floor(rule, 2)


# ------------------------------------------------------------------ names of classes
def vals(t):
    """Arguments of a call, positional and by name."""
    return tuple(t[2]) + tuple(v for _, v in t[3])


def called(t, name):
    """Whether a term is a call of this function of autoquant or of this method."""
    return t[0] == "call" and (t[1][0] in ("func", "bound", "attr") and str(t[1][2] if t[1][0] == "attr" else t[1][1]).rsplit(".", 1)[-1] == name)


def calls_of(o, name):
    return [e for e in o.st.events if e.kind == "call" and e.name.rsplit(".", 1)[-1] == name]


def class_names(ctx):
    rule = "class.unique"
    A = f"{AUTO}.QuantizedClassNameAllocator"
    f = method(ctx, rule, A, "_alloc_unique_name")
    if f is not None:
        ps = f.params()
        U = ("param", ps[-1])
        for o in runs(ctx, f):
            if o.kind != "return":
                continue
            asked = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == o.val and c[3] == U)
            if asked:
                continue   # the search was cut
            ctx.check(rule, "_alloc_unique_name free", asked is False, f.loc, "a name is given without asking whether it is used")
            ctx.check(rule, "_alloc_unique_name taken", any(e.kind == "call" and e.name in ("method:.add", "method:.append") and e.obj == U and e.args == (o.val,) for e in o.st.events), f.loc, "a name that is given is not remembered")
    f = method(ctx, rule, A, "for_module_type")
    if f is not None:
        for o in runs(ctx, f, deny=("_alloc_unique_name",)):
            if o.kind != "return":
                continue
            if o.val[0] != "tuple" or len(o.val) != 3:
                ctx.skip(rule, "for_module_type", "the result is not a pair")
                continue
            pools = []
            for what, x in zip(("base", "class"), o.val[1:]):
                ok = called(x, "_alloc_unique_name")
                ctx.check(rule, f"for_module_type {what}", ok, f.loc, f"the name {fmt(x)[:60]} is not one that is unique")
                pools += [vals(x)[1]] if ok and len(vals(x)) > 1 else []
            if len(pools) == 2:
                ctx.check(rule, "for_module_type pool", pools[0] == pools[1], f.loc, "the names of generated classes and of the classes they derive from are not told apart: one may hide the other")
                ctx.check(rule, "for_module_type lasting", all(x[0] == "attr" and x[1] == SELF for x in pools), f.loc, "the used names are forgotten")
    f = fun(ctx, rule, f"{AUTO}._cls_builder_for_module")
    if f is not None:
        T, Q, B = par(f, "module_type"), par(f, "quantized_name"), par(f, "base_alias")
        for o in runs(ctx, f):
            if o.kind != "return":
                continue
            v = strip(o.val)
            if not (v[0] == "call" and v[1] == ("class", f"{BLD}.QuantizedModuleBuilder")):
                ctx.skip(rule, "_cls_builder_for_module", "the builder is not constructed here")
                continue
            d = given(v, "name", "bases", "required_imports", "origin")
            ctx.check(rule, "_cls_builder_for_module name", d.get("name") == Q and d.get("origin") == T, f.loc, "the class is not built for this module under its name")
            bs = seq(o, d.get("bases"))
            ctx.check(rule, "_cls_builder_for_module base", bs == [("one", B)], f.loc, "the class does not derive from the class it is made from")
            im = seq(o, d.get("required_imports"))
            if not im or im[0][0] != "one" or im[0][1][0] != "call":
                ctx.skip(rule, "_cls_builder_for_module import", "the import is not constructed here")
                continue
            k = given(im[0][1], "name", "asname", "module")
            same_name = fact(o, lambda c: c[0] == "cmp" and c[1] == "==" and set(c[2:]) == {B, k.get("name")})
            a = k.get("asname", NONE)
            ok = a == B or same_name is True and a == NONE or a[0] in ("ifexp", "alt") and B in set(subs(a))
            ctx.check(rule, "_cls_builder_for_module import", ok, f.loc, f"the base class is imported as {fmt(a)}, not under the name the class derives from")
    ctx.floor(rule, 8)


def named_calls(node):
    """Names of the functions that are called or mentioned in a piece of source."""
    return {x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(node) if isinstance(x, (ast.Name, ast.Attribute))}


def realiasing(node):
    """Calls that give an existing import another name, and assignments that do."""
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            k = {a.arg: a.value for a in x.keywords}
            who = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
            if "asname" in k and (who in ("replace", "_replace") or isinstance(k.get("name"), ast.Attribute)):
                yield x
        elif isinstance(x, ast.Attribute) and x.attr == "asname" and isinstance(x.ctx, ast.Store):
            yield x


def distinct_imports(ctx):
    """Imports stem from several Python modules: the same name may stand for different things."""
    rule = "import.distinct"
    start = fun(ctx, rule, f"{AUTO}._resolve_all_quantized_calls")
    build = method(ctx, rule, f"{BLD}.ModuleBuilder", "build")
    if start is None or build is None:
        return
    pool = {}
    for f in ctx.p.funcs_in(AUTO, BLD):
        pool.setdefault(f.qual.rsplit(".", 1)[-1], []).append(f)
    seen, todo = set(), {"_resolve_all_quantized_calls", "build"}
    todo |= {n for n, fs in pool.items() if n.startswith("autoquant") and not n.startswith("_")}
    while todo:
        n = todo.pop()
        seen.add(n)
        todo |= {x for f in pool.get(n, ()) for x in named_calls(f.node) if x in pool} - seen
    doing = [f for n in sorted(seen) for f in pool.get(n, ()) if any(True for _ in realiasing(f.node))]
    ctx.check(rule, "functions of different modules", bool(doing), start.loc,
              "imports that functions of different Python modules require are not told apart: where these bind the same name, the last import is used in all functions")
    for f in doing:
        distinct_in(ctx, rule, f)
    ctx.floor(rule, 1)


def distinct_in(ctx, rule, f):
    n = f.name
    ("param", f.params()[0]) if f.params() else None
    for o in runs(ctx, f, deny=("_import_same_objects", "functions", "classes")):
        if o.kind == "raise":
            continue
        sets = [e for e in o.st.events if e.kind == "setattr" and e.name == "required_imports"]
        for e in sets:
            v = unwrap(e.value)
            fb = e.obj
            if v[0] != "comp" or len(v[3]) != 1 or v[3][0][1]:
                if v[0] == "comp" and any(c[0] in ("attr", "cmp") for c, _ in v[3][0][1]):
                    ctx.check(rule, n + " kept", False, f.loc, "imports that a function requires are left out")
                else:
                    ctx.skip(rule, n, f"the imports are not those of the function, one by one: {fmt(v)[:60]}")
                continue
            it, elt = unwrap(v[3][0][0]), v[2]
            ctx.check(rule, n + " own", it == ("attr", fb, "required_imports"), f.loc, "a function is given the imports of another")
            one = ("elem", v[3][0][0])
            new = [x for x in subs(elt) if x[0] == "call" and "asname" in dict(x[3])]
            for x in new:
                d = dict(x[3])
                src = x[2][0] if x[2] else None
                whole = src in (one, ("elem", it)) or all(d.get(k) == ("attr", one, k) for k in ("name", "module"))
                ctx.check(rule, n + " object", whole, f.loc, "an alias is given to the import of another object")
                maps = [y[1] for y in subs(d["asname"]) if y[0] == "item" and y[2] == ("attr", one, "local_name")]
                if not maps:
                    ctx.skip(rule, n, f"the alias {fmt(d['asname'])[:60]} is not looked up by the name it replaces")
                    continue
                M = maps[0]
                cst = [y for y in o.st.events if y.kind == "setattr" and y.name == "cst" and y.obj == fb]
                ok = any(z[0] == "call" and z[1][0] == "class" and M in vals(z) for y in cst for z in subs(y.value)) and all(("attr", fb, "cst") in set(subs(y.value)) for y in cst)
                ctx.check(rule, n + " renamed", ok, f.loc, "an import is given an alias but the function still uses the old name")
                tested = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == ("attr", one, "local_name") and c[3] == M)
                ctx.check(rule, n + " selected", tested is not False, f.loc, "imports whose name is not taken are given an alias")
        # names taken by another object
        for e in o.st.events:
            if e.kind == "call" and e.name.endswith("._import_same_objects"):
                same_ = fact(o, lambda c: c == e.value)
                added = [y for y in o.st.events if y.kind == "setitem" and y.args and any(z[0] == "call" and z[1] == ("ext", "libcst.Name") for z in subs(y.value))]
                if same_ is True:
                    ctx.check(rule, n + " shared", not added or not sets, f.loc, "the import of the object that a name already stands for is renamed")
    g = ctx.p.func_or_none(f"{AUTO}._import_same_objects") if hasattr(ctx.p, "func_or_none") else fun(ctx, rule, f"{AUTO}._import_same_objects")
    if g is None:
        return
    P, Q = par(g, 0), par(g, 1)
    for o in runs(ctx, g):
        if o.kind != "return":
            continue
        v = o.val
        same_ = fact(o, lambda c: c[0] == "cmp" and c[1] in ("==", "is") and {c[2], c[3]} == {P, Q})
        known = same_ is True or any(x[0] == "cmp" and (x[1] == "==" and const(1) in x[2:] or (x[1], x[3]) in (("<=", const(1)), ("<", const(2)))) and P in set(subs(x)) and Q in set(subs(x)) for t in [v, *(c for c, b in o.st.conds if b)] for x in subs(t))
        if v == FALSE:
            continue
        ctx.check(rule, "_import_same_objects", known, g.loc, "different imports are taken for imports of the same object")


def submodules(ctx):
    rule = "modules.every"
    f = fun(ctx, rule, f"{AUTO}._find_unquantized_submodules")
    if f is not None:
        M, P = par(f, 0), par(f, 1)
        for o in runs(ctx, f):
            if o.kind != "return":
                continue
            loops = [e for e in o.st.events if e.kind == "loop"]
            n = "_find_unquantized_submodules"
            if len(loops) != 1:
                if loops:
                    ctx.skip(rule, n, "more than one loop")
                continue
            src = unwrap(loops[0].obj)
            if meth(src, "modules") != M:
                ctx.check(rule, n + " source", False, f.loc, f"only {fmt(src)[:60]} is looked at") if meth(src, "children") is not None else ctx.skip(rule, n, "modules are found in another way")
                continue
            el = ("elem", src)
            T = ("call", ("builtin", "type"), (el,), ())
            ys = [e for e in o.st.events if e.kind == "yield"]
            inn = [(c, b) for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] == "in" and c[2] == T]
            n = f"{n} ({'quantized' if ys else 'left out'})"
            if ys:
                ctx.check(rule, n, len(ys) == 1 and ys[0].value == el and any(not b for _, b in inn), f.loc, "a module is quantized without asking whether its type is already")
                S = next((c[3] for c, b in inn if not b), None)
                ctx.check(rule, n + " once", S is not None and any(e.kind == "call" and e.name == "method:.add" and e.obj == S and e.args == (T,) for e in o.st.events), f.loc, "a type may be quantized twice")
                ctx.check(rule, n + " known", S is not None and P in set(subs(S)) or any(c[3] == P for c, b in inn), f.loc, "types that are quantized already are not asked for")
            else:
                ctx.check(rule, n, any(b for _, b in inn), f.loc, "a module is left out although no module of its type was seen")
    f = fun(ctx, rule, f"{AUTO}._find_known_quantized_modules")
    if f is not None:
        for o in runs(ctx, f, deny=("_all_subclasses",)):
            if o.kind != "return":
                continue
            adds = [e for e in o.st.events if e.kind == "call" and e.name in ("method:.add", "method:.append") and e.obj == o.val]
            n = "_find_known_quantized_modules"
            loops = [e for e in o.st.events if e.kind == "loop"]
            if len(loops) != 2:
                if loops:
                    ctx.skip(rule, n, "not two loops")
                continue
            ok = called(unwrap(loops[0].obj), "_all_subclasses") and loops[1].obj[0] == "attr" and loops[1].obj[2] == "__bases__"
            ctx.check(rule, n + " source", ok, f.loc, "not the bases of every quantized class are looked at")
            el = loops[1].value
            own = fact(o, lambda c: c[0] == "call" and c[1] == ("builtin", "issubclass") and str(c[2][1][-1]).endswith("QuantizedModule"))
            ctx.check(rule, n + (" base" if adds else " quantized"), bool(adds) == (own is False) and all(e.args == (el,) for e in adds), f.loc, "the classes that have a quantized counterpart are not the unquantized bases of quantized classes")
    f = fun(ctx, rule, f"{AUTO}._all_subclasses")
    if f is not None:
        C = par(f, 0)
        for o in runs(ctx, f):
            if o.kind != "return":
                continue
            t = set(subs(o.val))
            for e in o.st.events:
                if e.kind in ("call", "aug"):
                    for a in e.args:
                        t |= set(subs(a))
            direct = any(meth(x, "__subclasses__") == C for x in t)
            deep = any(called(x, "_all_subclasses") and vals(x) and vals(x)[0][0] == "elem" for x in t) or any(meth(x, "__subclasses__") is not None and meth(x, "__subclasses__") != C for x in t)
            ctx.check(rule, "_all_subclasses", direct and deep, f.loc, "not all subclasses are found")
    ctx.floor(rule, 7)


# ------------------------------------------------------------------ threading
SPEC, TRACE, ARG = f"{AUTO}._QuantizedFunctionSpec", f"{AUTO}._QuantizerRefTrace", f"{AUTO}._CallArg"


def loop_over(o, pred):
    return [e for e in o.st.events if e.kind == "loop" and e.obj is not None and pred(unwrap(e.obj))]


def pushes(o, e):
    """Arguments of the quantization contexts an event happens in, outermost first."""
    stack = []
    for x in o.st.events:
        if x is e:
            return stack
        if x.kind == "enter" and x.name.endswith(".push_context"):
            stack.append(x.args[0] if x.args else (vals(x.obj) or (NONE,))[0])
        elif x.kind == "exit" and x.name.endswith(".push_context") and stack:
            stack.pop()
    return stack


def discovering(ctx):
    rule = "thread.discover"
    f = fun(ctx, rule, f"{AUTO}._discover_quantized_functions")
    if f is None:
        return
    B, Q = par(f, 0), par(f, 1)
    for o in runs(ctx, f, deny=("local_quantizers_for_func", "quantized_functions", "filter_nodes_by_type")):
        if o.kind != "return" or o.val[0] != "tuple" or len(o.val) != 4:
            if o.kind == "return":
                ctx.skip(rule, "_discover_quantized_functions", "the result is not three mappings")
            continue
        builders, contexts_, specs = o.val[1:]
        outer = loop_over(o, lambda t: meth(t, "quantized_functions") == B)
        if len(outer) != 1:
            ctx.skip(rule, "_discover_quantized_functions", "the functions of the module are not looked at in one loop")
            continue
        fb = ("elem", outer[0].obj)
        fb = fb if any(fb == x for e in o.st.events for a in ((e.value,) if e.value else ()) for x in subs(a)) else ("elem", unwrap(outer[0].obj))
        org = ("attr", fb, "origin")
        puts = {m: [e for e in o.st.events if e.kind == "setitem" and e.obj == m] for m in (builders, contexts_, specs)}
        none = none_fact(o, ("attr", org, "func"))
        if not puts[builders]:
            ctx.check(rule, "functions every", none is True, f.loc, "a quantized function is left out")
        else:
            e, c = puts[builders][0], (puts[contexts_] or [None])[0]
            ctx.check(rule, "functions builder", e.value == fb and any(x == ("attr", org, "func") for x in subs(e.args[0])), f.loc, "a function is not mapped to its builder")
            if method_fact(o, org) is None and not any(x[0] in ("ifexp", "alt", "or") for x in subs(e.args[0])):
                ctx.check(rule, "functions kind", False, f.loc, "functions and methods are looked up in the same way")
            elif method_fact(o, org) is not False:
                own = any(x == ("attr", org, "torch_module") for x in subs(e.args[0])) or fb in set(subs(subst(e.args[0], org, const(0))))
                ctx.check(rule, "functions method", own, f.loc, "a method that two classes have in common is looked at only once")
            else:
                ctx.check(rule, "functions function", e.args[0] == ("attr", org, "func"), f.loc, "a function is not looked up by itself")
            ctx.check(rule, "functions context", c is not None and c.value == org and c.args[0] == e.args[0], f.loc, "a function is not mapped to its context")
        for e in puts[specs]:
            s = made(ctx, e.value, SPEC)
            K = e.args[0]
            ctx.check(rule, "spec", s is not None and s.get("func_ref") == K, f.loc, "a function is not described by its own specification")
            loc = [x for x in o.st.events if x.kind == "call" and x.name == "method:.append" and x.obj == ("attr", e.value, "local_quantizers")]
            for x in loc:
                t = made(ctx, x.args[0], TRACE)
                r = t.get("ref") if t else None
                ok = t is not None and r is not None and r[0] == "elem" and meth(unwrap(r[1]), "local_quantizers_for_func") == Q and vals(unwrap(r[1])) == (K,) and seq(o, t.get("src")) == [("one", K)]
                ctx.check(rule, "spec quantizers", ok, f.loc, "the quantizers of a function are not its own")
            ll = loop_over(o, lambda t: meth(t, "local_quantizers_for_func") is not None)
            if ll and not loc:
                ctx.check(rule, "spec quantizers every", False, f.loc, "a quantizer of a function is left out")
            cl = loop_over(o, lambda t: called(t, "filter_nodes_by_type"))
            for l in cl:
                a = vals(unwrap(l.obj))
                ok = len(a) == 2 and clsname(a[1]) == "UnresolvedQuantizedCall" and a[0][0] == "attr" and a[0][2] in ("cst", "_funcdef")
                ctx.check(rule, "calls source", ok, f.loc, "not every unresolved call of the function is looked at")
                el = l.value
                put = [x for x in o.st.events if x.kind == "setitem" and x.obj == ("attr", e.value, "calls")]
                R = ("attr", el, "func_ref")
                known = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == R)
                if known is None:
                    g = next((c for c, b in o.st.conds if any(x[0] == "call" and meth(x, "get") is not None and R in x[2] for x in subs(c))), None)
                    known = None if g is None else known
                is_m = None
                for c, b in o.st.conds:
                    r = is_method(c, b)
                    if r is not None and R in set(subs(norm(c, b)[0])):
                        is_m = r
                if put:
                    ctx.check(rule, "calls kind", put[0].args[0] == el and is_m is False, f.loc, "quantizers are passed to an instance method")
                else:
                    ctx.check(rule, "calls every", known is False or is_m is True, f.loc, "a call of a quantized function is left out")
    ctx.floor(rule, 8)


def propagating(ctx):
    rule = "thread.propagate"
    f = fun(ctx, rule, f"{AUTO}._propagate_quantizers")
    if f is None:
        return
    P = par(f, 0)
    F, SP = ("key", P), ("val", P)
    CALL, ARGS = ("key", ("attr", SP, "calls")), ("val", ("attr", SP, "calls"))
    callee = ("item", P, ("attr", CALL, "func_ref"))
    outs = [o for o in runs(ctx, f) if o.kind == "return"]
    n = "_propagate_quantizers"
    traces = [x for o in outs for e in o.st.events for a in e.args + ((e.value,) if e.value else ()) for x in subs(a) if x[0] == "call" and x[1] == ("class", TRACE)]
    ctx.check(rule, n + " anything", bool(traces), f.loc, "no quantizer is passed on to a caller")
    forever = any(isinstance(w, ast.While) and isinstance(w.test, ast.Constant) for w in ast.walk(f.node))   # its storing paths go round again
    ctx.check(rule, n + " kept", forever or any(e.kind == "setattr" or e.kind in ("setitem", "aug", "call") and e.obj is not None and (e.kind != "call" or e.name in ("method:.extend", "method:.append", "method:.update", "method:.clear", "method:.insert")) and unwrap(e.obj) in (("attr", SP, "calls"), ARGS) for o in outs for e in o.st.events), f.loc, "the quantizers of a call are never stored")
    for o in outs:
        # what is collected: local quantizers of the callee, then what its calls are passed
        groups = [e for e in o.st.events if e.kind == "loop" and e.name == "for"]
        seen_src = {("local" if any(x == ("attr", callee, "local_quantizers") for x in subs(e.obj)) else None) for e in groups if e.obj is not None}
        fwd = None
        for e in o.st.events:
            for a in e.args + ((e.value,) if e.value else ()) + ((e.obj,) if e.obj else ()):
                for x in subs(a):
                    if x[0] == "comp" and any(y == ("attr", callee, "calls") for y in subs(x)) and len(x[3]) == 1 and x[3][0][1] and x[2][0] == "elem":
                        fwd = x
        apps = [e for e in o.st.events if e.kind == "call" and e.name == "method:.append" and e.args and made(ctx, e.args[0], TRACE) is not None]
        if not apps:
            continue
        for e in apps[:1]:
            t = made(ctx, e.args[0], TRACE)
            r, src = t.get("ref"), t.get("src")
            if src is None:
                ctx.check(rule, n + " trace", False, f.loc, "the path of a quantizer is forgotten")
                continue
            if r is None or r[0] != "attr" or r[2] != "ref":
                ctx.check(rule, n + " reference", False, f.loc, f"the quantizer that is passed is {fmt(r) if r else 'missing'}")
                continue
            ctx.check(rule, n + " reference", True, f.loc, "")
            T = r[1]
            S = ("attr", T, "src")
            cyc = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == F and c[3] == S)
            if cyc is None:
                ctx.skip(rule, n + " trace", "it is not asked whether the function is on the path already")
                continue
            if cyc:
                idx = next((x for x in subs(src) if meth(x, "index") == S and vals(x) == (F,)), None)
                ok = src[0] == "item" and src[1] == S and src[2][0] == "slice" and src[2][1] in (NONE, const(0)) and idx is not None and src[2][2][0] == "bin" and src[2][2][1] == "+" and set(src[2][2][2:]) == {idx, const(1)}
                ctx.check(rule, n + " cycle", ok, f.loc, "a path that comes back to the function is not cut at it")
            else:
                ok = src[0] == "bin" and src[1] == "+" and src[2] == S and seq(o, src[3]) == [("one", F)] or src[0] == "tuple" and src[1:] == (("star", S), F)
                ctx.check(rule, n + " path", ok, f.loc, "the path of a quantizer is not continued by the function it is passed through")
        ctx.check(rule, n + " own", "local" in seen_src, f.loc, "the quantizers of the called function are not passed to it")
        if fwd is None:
            ctx.check(rule, n + " forwarded", any(x == ("attr", callee, "calls") for e in o.st.events for a in e.args + ((e.obj,) if e.obj else ()) for x in subs(a)), f.loc, "the quantizers of functions that the called function calls are not passed to it")
        else:
            el = fwd[2]
            (c, b), = fwd[3][0][1][:1] if len(fwd[3][0][1]) == 1 else ((None, None),)
            ok = c is not None and b and c[0] == "cmp" and c[1] in ("<", "<=") and c[2] in (const(1), const(2)) and c[3] == ("call", ("builtin", "len"), (("attr", el, "src"),), ()) and (c[1], c[2]) in (("<", const(1)), ("<=", const(2)))
            ctx.check(rule, n + " forwarded", ok, f.loc, "quantizers of functions further down are left out, or passed although the function has them")
        for e in o.st.events:
            if e.kind == "call" and e.args and (e.name.endswith(".fromkeys") or e.name in ("builtin:set", "builtin:frozenset")):
                a = unwrap(e.args[0])
                many = a[0] == "call" and ref_name(a[1]) in ("ext:itertools.chain", "ext:itertools.chain.from_iterable", "builtin:sum") or a[0] == "bin" and a[1] == "+" or a[0] == "comp" and len(a[3]) > 1
                ctx.check(rule, n + " each call", not many, f.loc, "what different calls need is merged: a quantizer that two calls need is passed once")
        puts = [e for e in o.st.events if e.kind == "setitem" and e.obj == ("attr", SP, "calls")]
        ctx.check(rule, n + " stored", not puts or all(e.args[0] == CALL for e in puts), f.loc, "the quantizers are stored for another call")
        stop = fact(o, lambda c: c[0] == "cmp" and c[1] == "==" and ARGS in c[2:])
        if stop is not None and not puts:
            ctx.check(rule, n + " fixpoint", stop is True, f.loc, "quantizers that were found are not stored")
        elif puts and stop is None:
            ctx.skip(rule, n + " fixpoint", "it is not asked whether anything changed")
    again(ctx, rule, f)
    ctx.floor(rule, 6)


def again(ctx, rule, f):
    """The loop of the propagation goes on for as long as something is stored."""
    for w in ast.walk(f.node):
        if not isinstance(w, ast.While):
            continue
        names = {x.id for x in ast.walk(w.test) if isinstance(x, ast.Name)}
        if not names or isinstance(w.test, ast.Call):
            continue
        for blk in (b for x in ast.walk(w) for b in (getattr(x, "body", None), getattr(x, "orelse", None)) if isinstance(b, list)):
            stores = [x for x in blk if isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == "calls" for t in x.targets)]
            if not stores:
                continue
            stops = {y.id for x in ast.walk(w) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and not x.value.value for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name)} if not isinstance(w.test, ast.UnaryOp) else set()
            sets = {y.id for x in ast.walk(w) for y in ([x] if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) else []) if not any(y is z for b in w.body[:1] for z in ast.walk(b))}
            goes = {y.id for x in ast.walk(w) if isinstance(x, (ast.Assign, ast.AugAssign, ast.NamedExpr, ast.AnnAssign)) and not (isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and not x.value.value) for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
            sets -= stops - goes
            ctx.check(rule, "_propagate_quantizers again", bool(sets & names), f.loc, "quantizers are passed up one level only: the loop ends although something changed")


def signing(ctx):
    rule = "thread.signature"
    f = fun(ctx, rule, f"{AUTO}._generate_signatures")
    if f is None:
        return
    _Q, C, P = par(f, 0), par(f, 1), par(f, 2)
    F, SP = ("key", P), ("val", P)
    L, D = ("attr", SP, "local_quantizers"), ("attr", SP, "calls")
    CALL, ARGS = ("key", D), ("val", D)
    for o in runs(ctx, f, deny=("create_reference", "create_quantizer_expression")):
        if o.kind != "return":
            continue
        if o.val[0] != "tuple" or len(o.val) != 3:
            ctx.skip(rule, "_generate_signatures", "the result is not two mappings")
            continue
        sigs, maps = o.val[1:]
        n = "_generate_signatures"
        is_m = method_fact(o, ("item", C, F))
        put = [e for e in o.st.events if e.kind == "setitem" and e.obj == sigs]
        pm = [e for e in o.st.events if e.kind == "setitem" and e.obj == maps]
        if not put:
            ctx.check(rule, n + " every", is_m is True or any(c[0] == "nonempty" and not b for c, b in o.st.conds), f.loc, "a function gets no signature")
            continue
        ctx.check(rule, n + " function", len(put) == 1 and put[0].args[0] == F, f.loc, "a signature is stored for another function")
        ctx.check(rule, n + " no method", is_m is False or is_m is None and ("attr", ("item", C, F), "method_type") in {x for c, _ in o.st.conds for x in subs(c)}, f.loc, "the quantizers of an instance are made parameters of its method")
        acc = unwrap(put[0].value)
        adds = [e for e in o.st.events if e.kind == "call" and e.name == "method:.append" and e.obj == acc]
        own = [e for e in adds if e.args[0] == ("attr", ("elem", L), "ref")]
        s = seq(o, acc)
        ownseq = s is not None and any(x[0] == "each" and unwrap(x[1]) == L and x[2] == ("attr", ("elem", x[1]), "ref") and not x[3] for x in s)
        ctx.check(rule, n + " own", len(own) == 1 or bool(ownseq), f.loc, "the quantizers of the function are not all parameters of it")
        el = ("elem", ARGS)
        one = fact(o, lambda c: c[0] == "cmp" and c[1] == "==" and const(1) in c[2:] and ("call", ("builtin", "len"), (("attr", el, "src"),), ()) in c[2:])
        made_refs = calls_of(o, "create_reference") + calls_of(o, "create_quantizer_expression")
        mp = [e for e in o.st.events if e.kind == "setitem" and e.args and e.args[0] == CALL]
        if any(e.kind == "setitem" and e.args and e.args[0] == ("attr", CALL, "func_ref") for e in o.st.events):
            ctx.check(rule, n + " map calls", False, f.loc, "what a call needs is stored by the function that is called: two calls of one function are passed the same quantizers")
            continue
        lone = [i for i, e in enumerate(o.st.events) if not mp and e.kind == "setname" and e.value[0] == "dict" and len(e.value) == 2 and e.value[1][:2] == ("pair", CALL)]
        if lone and any(any(x == D for x in subs(l)) for l in loops_at(o, lone[0]) if l):
            ctx.check(rule, n + " map calls", False, f.loc, "what one call needs is forgotten when the next is looked at")
            continue
        if not mp:
            ctx.skip(rule, n + " map", "the quantizers of a call are not stored per call")
            continue
        at = born(o, mp[0].obj)
        if at is not None:
            ctx.check(rule, n + " map calls", not any(any(x == D for x in subs(l)) for l in loops_at(o, at) if l), f.loc, "what one call needs is forgotten when the next is looked at")
        lst = unwrap(mp[0].value)
        got = [e.args[0] for e in o.st.events if e.kind == "call" and e.name == "method:.append" and e.obj == lst]
        if len(got) != 1:
            ctx.check(rule, n + " map", False, f.loc, f"{len(got)} quantizers are recorded for one that a call needs")
            continue
        ctx.check(rule, n + " map function", bool(pm) and pm[0].args[0] == F and unwrap(pm[0].value) == mp[0].obj, f.loc, "the quantizers of the calls are stored for another function")
        if one is None and not any(("attr", el, "src") in set(subs(c)) for c, _ in o.st.conds):
            ctx.check(rule, n + " forwarded", False, f.loc, "a quantizer of the function itself and one of a called function are passed in the same way")
        elif one is None:
            ctx.skip(rule, n + " forwarded", "it is not asked whether the function has the quantizer itself")
        elif one:
            ctx.check(rule, n + " own reused", got[0] == ("attr", el, "ref") and not made_refs, f.loc, "a quantizer of the function itself is not passed on as it is")
        else:
            ok = len(made_refs) == 1 and got[0] == made_refs[0].value and any(e.args[0] == got[0] for e in adds)
            ctx.check(rule, n + " forwarded", ok, f.loc, "a quantizer of a called function is not a parameter of the function and passed on")
            if made_refs:
                ctx.check(rule, n + " context", pushes(o, made_refs[0])[-1:] == [("item", C, F)], f.loc, "the parameter is not one of the function")
    ctx.floor(rule, 7)


def passing(ctx):
    rule = "thread.arguments"
    f = fun(ctx, rule, f"{AUTO}._resolve_calls")
    if f is None:
        return
    Q, C, P, SG, MP, OUT = (par(f, i) for i in range(6))
    F, SP = ("key", P), ("val", P)
    D = ("attr", SP, "calls")
    CALL, ARGS = ("key", D), ("val", D)
    sig = ("item", SG, ("attr", CALL, "func_ref"))
    for o in runs(ctx, f, deny=("create_reference", "create_quantizer_expression")):
        if o.kind != "return":
            continue
        n = "_resolve_calls"
        puts = [e for e in o.st.events if e.kind == "setitem" and e.obj == OUT]
        if not puts:
            ctx.check(rule, n + " every", any(c[0] == "nonempty" and not b for c, b in o.st.conds), f.loc, "a call is left unresolved")
            continue
        ctx.check(rule, n + " call", len(puts) == 1 and puts[0].args[0] == CALL, f.loc, "the arguments are stored for another call")
        acc = unwrap(puts[0].value)
        adds = [e.args[0] for e in o.st.events if e.kind == "call" and e.name == "method:.append" and e.obj == acc]
        a = made(ctx, adds[0], ARG) if len(adds) == 1 else None
        if a is None:
            if not any(c[0] == "nonempty" and not b for c, b in o.st.conds):
                ctx.check(rule, n + " every argument", False, f.loc, "a quantizer is not passed, or passed twice") if len(adds) != 1 else ctx.skip(rule, n, "the argument is not constructed here")
            continue
        zips = [x for e in o.st.events if e.kind == "loop" and e.obj is not None for x in subs(e.obj) if x[0] == "call" and x[1] == ("builtin", "zip")]
        ctx.check(rule, n + " keyword", a.get("keyword") == ("elem", sig), f.loc, f"the argument is passed as {fmt(a.get('keyword'))[:60]}, not as the parameter of the called function")
        if zips:
            ctx.check(rule, n + " pairs", {unwrap(x) for x in zips[0][2]} >= {sig, ARGS}, f.loc, "parameters and quantizers are not paired in order")
        is_m = method_fact(o, ("item", C, F))
        made_refs = calls_of(o, "create_reference") + calls_of(o, "create_quantizer_expression")
        v = a.get("value")
        if is_m:
            ok = len(made_refs) == 1 and v == made_refs[0].value and made_refs[0].name.endswith("create_quantizer_expression")
            ctx.check(rule, n + " instance", ok, f.loc, "a quantizer that an instance passes is not one of the instance, of its own for each call")
            if made_refs:
                ctx.check(rule, n + " instance context", pushes(o, made_refs[0])[-1:] == [("item", C, F)], f.loc, "the quantizer is not one of the calling method")
        elif is_m is False:
            if made_refs:
                # the caller has no signature: cannot happen for functions (see thread.signature)
                got = [(c, b) for c, b in (norm(c, b) for c, b in o.st.conds) if any(x == MP for x in subs(c))]
                has = any(c[0] == "cmp" and c[1] == "is" and NONE in c[2:] and not b or c[0] == "cmp" and c[1] == "in" and b or c[0] not in ("cmp", "nonempty", "bool", "or", "and") and b for c, b in got)
                ctx.check(rule, n + " function", not has and bool(got), f.loc, "a function passes a new quantizer, not the parameter it has for this quantizer of this call")
                continue
            ok = v[0] == "item" and v[2][0] == "idx" and any(x == MP for x in subs(v[1])) and F in set(subs(v[1])) and CALL in set(subs(v[1])) or v[0] == "elem" and MP in set(subs(v[1])) and CALL in set(subs(v[1])) and F in set(subs(v[1]))
            ctx.check(rule, n + " function", ok, f.loc, f"a function passes {fmt(v)[:80]}, not the parameter it has for this quantizer of this call")
        else:
            ctx.check(rule, n + " caller", False, f.loc, "instances and functions pass quantizers in the same way")
    ctx.floor(rule, 6)


# ------------------------------------------------------------------ conversion
CONVERT_DENY = ("_find_known_quantized_modules", "_find_unquantized_submodules", "_cls_builder_for_module", "_find_dependent_methods", "_find_dependent_functions",
                "_resolve_all_quantized_calls", "_resolve_method_owner_and_name", "_resolve_function_source_member_name", "for_module_type", "has_method")


def converting(ctx):
    rule = "convert.context"
    f = fun(ctx, rule, f"{AUTO}.autoquant")
    if f is None:
        return
    deny = CONVERT_DENY
    ends = set()
    for o in runs(ctx, f, deny=deny):
        if o.kind != "return":
            continue
        evs = o.st.events
        # the end: all classes are added, calls are resolved, and then the module is built, with the same collection
        res = calls_of(o, "_resolve_all_quantized_calls")
        bld = [e for e in calls_of(o, "build") if e.obj is not None and e.obj[0] == "call"]
        (len(res), len(bld))
        if res and bld:
            r = vals(res[0].value)
            ends.add((evs.index(res[0]) < evs.index(bld[-1]), r[0] == bld[-1].obj, r[1:2] == vals(bld[-1].value)))
            addc = calls_of(o, "add_class")
            late = [e for e in addc if evs.index(e) > evs.index(res[0])]
            ends.add(("classes", not late and all(e.obj == r[0] for e in addc)))
        else:
            ends.add(("resolved", False))
        conv = calls_of(o, "convert_function")
        if not conv:
            continue
        e = conv[0]
        d = given(e.value, "src", "optable", "func_ctx", "quantizer_refs")
        tgt = [x for x in evs if x.kind == "call" and x.name.rsplit(".", 1)[-1] in ("add_method", "add_function") and x.args == (e.value,)]
        kind = tgt[0].name.rsplit(".", 1)[-1] if tgt else "nothing"
        n = f"autoquant ({'method' if kind == 'add_method' else 'helper' if kind == 'add_function' else 'lost'})"
        p = pushes(o, e)
        ctx.check(rule, n + " context", p[-1:] == [d.get("func_ctx")], f.loc, "a function is converted with the quantizers of another context")
        coll = next((vals(x.value) for x in res), (None, None))[1:2]
        ctx.check(rule, n + " collection", coll == (d.get("quantizer_refs"),), f.loc, "the quantizers are those of another collection")
        ctx.check(rule, n + " kept", len(tgt) >= 1, f.loc, "a converted function is not part of the module")
        if not tgt:
            continue
        cx = d.get("func_ctx")
        if kind == "add_method":
            mods = [x for x in subs(cx) if x[0] == "attr" and x[2] == "module"]
            K = tgt[0].obj
            keyed = K[0] == "item" and mods and K[2] == mods[0] or K[0] == "call" and mods and mods[0] in set(subs(K))
            if not mods or not (K[0] in ("item", "call")):
                ctx.skip(rule, n + " class", "the class is found in another way")
            else:
                ctx.check(rule, n + " class", keyed, f.loc, "a method is added to another class than that of its context")
            named = [x for x in evs if x.kind == "setattr" and x.name == "name" and x.obj == e.value]
            acc = vals(cx)[1] if called(cx, "from_method") and len(vals(cx)) > 1 else None
            if acc is not None:
                ctx.check(rule, n + " name", len(named) >= 1 and named[0].value == acc, f.loc, "a method is not given the name it is accessed by")
        src = d.get("src")
        deps = [x for x in evs if x.kind == "call" and x.name.rsplit(".", 1)[-1] in ("_find_dependent_functions", "_find_dependent_methods")]
        want = {"_find_dependent_functions"} | ({"_find_dependent_methods"} if kind == "add_method" else set())
        have = {x.name.rsplit(".", 1)[-1] for x in deps if vals(x.value)[:2] == (src, cx)}
        ctx.check(rule, n + " dependents", want <= have, f.loc, f"{', '.join(sorted(want - have))} of the function that is converted is not asked for")
        queue = [x.obj for x in evs if x.kind in ("call", "delitem") and (x.name == "method:.popleft" or x.name == "method:.pop" or x.kind == "delitem" and x.name in ("pop", "popleft"))]
        table = par(f, "operator_table")
        el = [x for x in evs if x.kind == "call" and x.name in ("method:.append", "method:.appendleft") and queue and x.obj == queue[0] and any(called(y, w) for w in want for y in subs(x.args[0]))]
        lp = [x for x in evs if x.kind == "loop" and x.obj is not None and any(called(y, w) for w in want for y in subs(x.obj))]
        inop = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[3] == table and any(called(y, w) for w in want for y in subs(c[2])))
        if lp:
            ctx.check(rule, n + " queued", bool(el) or inop is True, f.loc, "a function that is called by a converted one is not converted")
    ctx.check(rule, "autoquant resolved before built", ("resolved", False) not in ends and all(x == (True, True, True) for x in ends if len(x) == 3), f.loc, "calls are not resolved in the module that is built, with its quantizers")
    ctx.check(rule, "autoquant classes", ("classes", False) not in ends, f.loc, "a class is added after the calls were resolved, or to another module")
    ctx.floor(rule, 10)


def resolving(ctx):
    rule = "thread.order"
    f = fun(ctx, rule, f"{AUTO}._resolve_all_quantized_calls")
    if f is None:
        return
    _B, Q = par(f, 0), par(f, 1)
    steps = ("_discover_quantized_functions", "_propagate_quantizers", "_generate_signatures", "_resolve_calls")
    for o in runs(ctx, f, deny=steps + ("_disambiguate_imports", "functions", "classes", "remove_function", "with_changes")):
        if o.kind != "return":
            continue
        n = "_resolve_all_quantized_calls"
        cs = [calls_of(o, s) for s in steps]
        missing = [s for s, c in zip(steps, cs) if not c and f"{AUTO}.{s}" in ctx.p.funcs]
        if missing:
            ctx.check(rule, n + " steps", False, f.loc, f"{', '.join(missing)} is left out")
            continue
        if any(len(c) != 1 for c in cs):
            ctx.skip(rule, n, "the steps are not four calls")
            continue
        ix = [o.st.events.index(c[0]) for c in cs]
        ctx.check(rule, n + " order", ix == sorted(ix), f.loc, "quantizers are given to calls before it is known which ones they need")
        disc, gen = cs[0][0].value, cs[2][0].value
        maps = [("item", disc, const(i)) for i in range(3)]
        sigs = ("item", gen, const(0))
        r = vals(cs[3][0].value)
        ctx.check(rule, n + " same", r[:5] == (Q, maps[1], maps[2], sigs, ("item", gen, const(1))), f.loc, "calls are resolved from other signatures than those generated")
        ctx.check(rule, n + " propagated", vals(cs[1][0].value) == (maps[2],), f.loc, "quantizers are propagated in another graph")
        out = r[5] if len(r) > 5 else None
        rm = calls_of(o, "remove_function")
        for e in rm:
            k = e.args[0]
            empty_ = any(c == ("val", sigs) and not b for c, b in (norm(c, b) for c, b in o.st.conds))
            key = k[2] if k[0] == "item" and k[1] == maps[0] else vals(k)[0] if meth(k, "pop") == maps[0] and vals(k) else None
            empty_ = empty_ or any(c == ("val", sigs) and not b for l in loops_at(o, o.st.events.index(e)) if l for x in subs(l) if x[0] == "comp" and x[2] in (("key", sigs), ("tuple", ("key", sigs), ("val", sigs))) for g in x[3] for c, b in (norm(*y) for y in g[1]))
            ctx.check(rule, n + " removed", key == ("key", sigs) and empty_, f.loc, "a function that needs quantizers is removed")
            gone = any(x.kind == "delitem" and x.obj == maps[0] or x.kind == "call" and x.name in ("method:.pop", "method:.popitem") and x.obj == maps[0] for x in o.st.events)
            ctx.check(rule, n + " removed calls", gone, f.loc, "calls are given the name of a function that is removed")
        sa = [e for e in o.st.events if e.kind == "setattr" and e.name == "quantizer_signature"]
        for e in sa:
            ok = e.obj == ("val", maps[0]) and any(x == ("key", maps[0]) for x in subs(e.value)) and sigs in set(subs(e.value))
            ctx.check(rule, n + " signature", ok, f.loc, "a function is given the signature of another")
        tr = [e for e in o.st.events if e.kind == "call" and e.name.endswith("_ResolveQuantizedCallsTransformer")]
        for e in tr:
            ctx.check(rule, n + " transformer", vals(e.value)[0] == out, f.loc, "calls are given other arguments than those resolved")
            vis = [x for x in o.st.events if x.kind == "call" and x.name == "method:.visit" and e.value in x.args]
            if any(l.kind == "loop" and unwrap(l.obj)[0] == "call" and meth(unwrap(l.obj), "items") == maps[0] for l in o.st.events if l.kind == "loop" and l.obj is not None) and sa:
                ctx.check(rule, n + " transformed", any(("attr", ("val", maps[0]), "cst") in set(subs(x.obj)) for x in vis), f.loc, "the calls of a function are not resolved")
    ctx.floor(rule, 5)
