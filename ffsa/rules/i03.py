"""AutoQuant conversion.  What is converted is the forward method of every class and whatever a converted function calls:
each function once, from the source it is defined by, in the context it runs in, and called by the name it is generated
under."""
from __future__ import annotations

from .common import *
from .g01 import NONE, SELF, FALSE, fact, fun, meth, method, norm, unwrap
from .h03 import subs
from .i01 import AUTO, AQ, cls_of, field, par
from .i02 import BLD, CONVERT_DENY, called, calls_of, made, runs, vals

ASSUMPTIONS = ["the source of a member is the source of the object that the class or module has under its name", "what a module or class calls is found by the name that the source has for it"]
TASK = f"{AUTO}._AqTask"
FC, MT = f"{AQ}.function_context.FunctionContext", "fastforward.type_common.method_type"


def check(ctx):
    method_kinds(ctx)
    contexts(ctx)
    sources(ctx)
    tasks(ctx)
    helpers(ctx)
    references(ctx)


# ------------------------------------------------------------------ contexts
def kind_of(t):
    """Name of a method type, or None."""
    return str(t[-1]).rsplit(".", 1)[-1] if t[0] in ("attr", "global", "ext", "const") and str(t[-1]).rsplit(".", 1)[-1] in ("METHOD", "CLASS_METHOD", "STATIC_METHOD", "NO_METHOD") else None


def method_kinds(ctx):
    """The kind of a method is that of the attribute that the class itself has."""
    rule = "kind.method"
    f = fun(ctx, rule, MT)
    if f is None:
        return
    C, N = par(f, 0), par(f, 1)
    want = {"classmethod": "CLASS_METHOD", "staticmethod": "STATIC_METHOD", "FunctionType": "METHOD"}
    seen = set()
    for o in runs(ctx, f):
        if o.kind != "return":
            continue
        k = kind_of(o.val)
        if k is None:
            ctx.skip(rule, "method_type", f"the result is {fmt(o.val)[:60]}")
            continue
        isa = [(c[1], str(c[2][-1]).rsplit(".", 1)[-1], b) for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "isinstance"]
        if any(not isinstance(x, str) for _, x, _ in isa):
            ctx.skip(rule, "method_type", "the attribute is told apart in another way")
            continue
        yes = {x for t, x, b in isa if b and t != C}
        on_class = next((b for t, x, b in isa if t == C and x == "type"), None)
        seen.add(k)
        if on_class and yes:
            ctx.check(rule, f"method_type ({k})", len(yes) == 1 and want.get(next(iter(yes))) == k, f.loc, f"a {', '.join(sorted(yes))} is taken for {k}")
            ts = {t for t, _, b in isa if t != C}
            own = all(any(x in (("attr", C, "__dict__"), ("call", ("builtin", "vars"), (C,), ())) for x in subs(t)) and N in set(subs(t)) for t in ts)
            bound = all(meth(t, "__get__") is None and not any(called(x, "getattr") or x[0] == "call" and x[1] == ("builtin", "getattr") for x in subs(t)) for t in ts)
            ctx.check(rule, f"method_type ({k}) attribute", own or not bound and any(called(t, "getattr_static") for t in ts), f.loc, "the kind is that of what the attribute is bound to: a class method is not told apart")
        elif on_class is False:
            ctx.check(rule, "method_type (module)", k == "NO_METHOD", f.loc, "a function of a module is taken for a method")
        elif on_class:
            no = {x for t, x, b in isa if not b and t != C}
            if no >= set(want):
                ctx.check(rule, "method_type (other)", k == "NO_METHOD", f.loc, "an attribute that is no function is taken for a method")
    ctx.check(rule, "method_type all", seen == set(want.values()) | {"NO_METHOD"}, f.loc, f"{', '.join(sorted(set(want.values()) - seen))} is not told apart")
    ctx.floor(rule, 6)


def contexts(ctx):
    """A function is converted as the kind of method it is, with the names that it has for the instance and the class."""
    rule = "context.function"
    f = method(ctx, rule, FC, "from_function_reference")
    if f is not None:
        R, M, name = par(f, 1), par(f, 2), par(f, 3)
        TM = ("call", ("builtin", "type"), (M,), ())
        INST = lambda c: c[0] == "isinstance" and c[1] == M and str(c[2][-1]).endswith("nn.Module")
        n = "FunctionContext"
        for o in runs(ctx, f):
            if o.kind != "return" or o.val[0] != "call":
                continue
            kw = dict(zip(("torch_module", "func", "method_type", "instance_var", "class_var", "py_module"), o.val[2])) | dict(o.val[3])
            cs = [norm(c, b) for c, b in o.st.conds]
            kinds = {}
            for c, b in cs:
                if c[0] == "cmp" and c[1] in ("is", "=="):
                    for x, y in ((c[2], c[3]), (c[3], c[2])):
                        if kind_of(x) and called(y, "method_type"):
                            kinds.setdefault(y, {}).setdefault(kind_of(x), set()).add(b)
            if any(len(v) > 1 for k in kinds.values() for v in k.values()) or any(sum(True in v for v in k.values()) > 1 for k in kinds.values()):
                continue     # a value of two kinds
            T, P, mt = kw.get("torch_module", NONE), kw.get("py_module", NONE), kw.get("method_type", NONE)
            if T == NONE and any(c[0] == "isinstance" and c[1] == TM for c, _ in cs):
                continue     # asked again after an instance was replaced by its class
            if T == NONE and P == NONE:
                ok = any(c[0] == "cmp" and c[1] == "is" and NONE in c[2:] and b for c, b in cs) or sum(c[0] in ("isinstance",) and c[1] == M and not b for c, b in cs) >= 2
                ctx.check(rule, n + " unknown", ok, f.loc, "a function is converted without its class or module")
                continue
            if T == NONE:
                ctx.check(rule, n + " module", P == M and kw.get("func") == R and (called(mt, "method_type") or kind_of(mt) == "NO_METHOD"), f.loc, "the context of a function is not the function and its module")
                ctx.check(rule, n + " module names", kw.get("instance_var", NONE) == NONE and kw.get("class_var", NONE) == NONE, f.loc, "a function of a module has an instance")
                continue
            inst = fact(o, INST)
            ctx.check(rule, n + " class", T == (TM if inst else M), f.loc, f"the class of the function is {fmt(T)[:60]}")
            if not called(mt, "method_type"):
                ctx.check(rule, n + " kind", mt != NONE, f.loc, "the kind of the method is not known") if mt == NONE else ctx.skip(rule, n + " kind", f"the kind is {fmt(mt)[:60]}")
                continue
            v = vals(mt)
            base = v[0] == T or v[0][0] == "elem" and ("attr", T, "__mro__") in set(subs(v[0]))
            given_name = any(b for c, b in cs if c == name) or any(not b for c, b in cs if c[0] == "cmp" and c[1] == "is" and c[2:] == (name, NONE))
            absent = any(not b for c, b in cs if c == name) or any(b for c, b in cs if c[0] == "cmp" and c[1] == "is" and c[2:] == (name, NONE))
            nm = v[1] if len(v) > 1 else NONE
            okn = nm == name and not absent or nm == ("attr", R, "__name__") and absent and not given_name or nm[0] in ("or", "ifexp", "bool", "alt") and name in set(subs(nm))
            ctx.check(rule, n + " kind of", base and okn, f.loc, f"the kind is that of {fmt(mt)[:80]}")
            here = kinds.get(mt, {})
            if v[0] == T:
                none = lambda d: True in d.get("NO_METHOD", ()) or all(False in d.get(q, ()) for q in ("METHOD", "CLASS_METHOD", "STATIC_METHOD"))
                better = [k for k, d in kinds.items() if k != mt and vals(k)[0][0] == "elem" and not none(d)]
                ctx.check(rule, n + " inherited", not better, f.loc, "the kind of an inherited method is not that of the class it is inherited from")
                if True in here.get("NO_METHOD", ()) or "NO_METHOD" not in here and not any(True in d for d in here.values()):
                    asked = any(("attr", T, "__mro__") in set(subs(c)) for c, _ in o.st.conds) or any(e.kind == "loop" and e.obj and ("attr", T, "__mro__") in set(subs(e.obj)) for e in o.st.events)
                    ctx.check(rule, n + " inherited asked", asked, f.loc, "an inherited method is taken for a function")
            else:
                ctx.check(rule, n + " inherited", bool(here.get("NO_METHOD")) or any(True in d for d in here.values()), f.loc, "the kind is that of a class that has no such method")
            func = kw.get("func", NONE)
            through = func[0] == "call" and func[1] == ("builtin", "getattr") and func[2] == (R, const("__func__"), R)
            ctx.check(rule, n + " func", through or func in (R, ("attr", R, "__func__")), f.loc, "the function is not that of the context")
            bound = fact(o, lambda c: c[0] == "isinstance" and c[1] == R and str(c[2][-1]).endswith("MethodType"))
            for k, var in (("METHOD", "instance_var"), ("CLASS_METHOD", "class_var")):
                is_k = True in here.get(k, ()) or None if False not in here.get(k, ()) else False
                x = kw.get(var, NONE)
                if is_k:
                    none_ = x == NONE and any(not b and any(y[0] == "attr" and y[2] == "parameters" for y in subs(c)) for c, b in cs)
                    ctx.check(rule, f"{n} {var}", none_ or any(y[0] == "attr" and y[2] == "parameters" for y in subs(x)) and bool({func, R} & set(subs(x))), f.loc, f"the name of the first parameter of a {k.lower()} is not known")
                    ctx.check(rule, f"{n} {var} function", through or (func == ("attr", R, "__func__") if bound or bound is None and k == "CLASS_METHOD" else func == R or bound is None), f.loc, "the function is not the one that the method is bound to")
                elif k not in here and not any(True in d for d in here.values()) and x == NONE:
                    ctx.check(rule, f"{n} {var}", False, f.loc, f"the name of the first parameter of a {k.lower()} is not known")
                elif is_k is False or any(True in d for q, d in here.items() if q != k):
                    ctx.check(rule, f"{n} {var} none", x == NONE, f.loc, f"something that is no {k.lower()} has one as its first parameter")
                elif x != NONE and x[0] not in ("ifexp", "alt"):
                    ctx.check(rule, f"{n} {var} none", False, f.loc, f"something that is no {k.lower()} has one as its first parameter")
    f = method(ctx, rule, FC, "from_method")
    if f is not None:
        M, N = par(f, 1), par(f, 2)
        for o in runs(ctx, f, deny=("from_function_reference",)):
            if o.kind != "return" or not called(o.val, "from_function_reference"):
                continue
            d = dict(zip(("func_ref", "module", "member_name"), o.val[2])) | dict(o.val[3])
            ok = d.get("func_ref") == ("call", ("builtin", "getattr"), (M, N), ()) and d.get("module") == M and d.get("member_name") == N
            ctx.check(rule, "FunctionContext.from_method", ok, f.loc, "the context is not that of the method the class has by this name")
    ctx.floor(rule, 10)


# ------------------------------------------------------------------ helper names
def no_method(o, fb):
    """Whether the function of a builder is no method."""
    for c, b in o.st.conds:
        c, b = norm(c, b)
        if c[0] == "cmp" and c[1] in ("is", "==") and ("attr", ("attr", fb, "origin"), "method_type") in c[2:] and any(str(x[-1]).rsplit(".", 1)[-1] == "NO_METHOD" for x in c[2:]):
            return b
    return None


def helpers(ctx):
    """Functions get a name of their own in the generated module, and are called by it."""
    rule = "helper.name"
    f = fun(ctx, rule, f"{AUTO}._resolve_all_quantized_calls")
    if f is None:
        return
    B = par(f, 0)
    deny = ("_discover_quantized_functions", "_propagate_quantizers", "_generate_signatures", "_resolve_calls", "_disambiguate_imports", "functions", "classes", "remove_function", "with_changes")
    outs = [o for o in runs(ctx, f, deny=deny) if o.kind == "return"]
    classes = ("call", ("bound", f"{BLD}.ModuleBuilder.classes", B), (), ())
    n = "_resolve_all_quantized_calls"
    some = False
    for o in outs:
        evs = o.st.events
        ren = []
        for e in evs:
            if e.kind == "setattr" and e.name == "cst" and meth(e.value, "with_changes") == ("attr", e.obj, "cst"):
                x = dict(e.value[3]).get("name")
                if x is not None and cls_of(x) == "Name":
                    ren.append((e, field(x, "value")))
        some |= bool(ren)
        for e, new in ren:
            fb = e.obj
            ctx.check(rule, n + " kind", no_method(o, fb) is True, f.loc, "a method is renamed")
            used = [c[3] for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] == "in" and c[2] == new and not b]
            wrong = [c for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] == "in" and c[2] == new and b]
            if not used:
                if wrong:   # a loop that was cut, or a name that is taken
                    ctx.check(rule, n + " free", any(x.kind == "loop" and x.name == "while" for x in evs), f.loc, "a function is given the name of another")
                else:
                    ctx.skip(rule, n + " free", "it is not asked whether a name is free")
            else:
                S = used[0]
                kept = any(x.kind == "call" and x.name == "method:.add" and x.obj == S and x.args == (new,) for x in evs)
                ctx.check(rule, n + " free", kept, f.loc, "two functions may be given the same name")
            for S in used[:1] or [c[3] for c in wrong[:1]]:
                cls_ = any(("attr", ("elem", classes), "name") in set(subs(t)) for t in [S, *(a for x in evs if x.obj == S for a in x.args)])
                cls_ = cls_ or any(c == ("nonempty", classes) and not b for c, b in o.st.conds)
                ctx.check(rule, n + " classes", cls_, f.loc, "a function may be given the name of a class")
            K = ("key", fb[1]) if fb[0] == "val" else None
            puts = [x for x in evs if x.kind == "setitem" and x.args and x.args[0] == K and cls_of(x.value) == "Name"]
            ctx.check(rule, n + " called", len(puts) >= 1 and all(field(x.value, "value") == new for x in puts), f.loc, "a function is called by another name than it has")
            tr = [vals(x.value) for x in evs if x.kind == "call" and x.name.endswith("_ResolveQuantizedCallsTransformer")]
            if tr and puts:
                ctx.check(rule, n + " map", any(p.obj in a for a in tr for p in puts), f.loc, "calls are not given the new names of functions")
        for e in evs:
            if e.kind == "call" and e.name.endswith("_RenameHelperRefsTransformer") and vals(e.value):
                NM = vals(e.value)[0]
                for x in evs:
                    if x.kind == "setitem" and x.obj == NM and x.args[0][0] == "attr" and x.args[0][2] == "__name__":
                        seen = [b for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] == "in" and c[2] == x.args[0] and c[3] == NM]
                        ctx.check(rule, n + " ambiguous", not any(seen) and bool(seen), f.loc, "a name that stands for two functions is replaced by one of them")
    ctx.check(rule, n + " renamed", some, f.loc, "functions keep the name of the function they are made from")
    ctx.floor(rule, 5)


def references(ctx):
    """Names and calls of functions that got another name are replaced; nothing else is."""
    rule = "helper.references"
    q = f"{AUTO}._RenameHelperRefsTransformer"
    f = method(ctx, rule, q, "leave_Name")
    g = ctx.p.funcs.get(f"{q}.visit_Attribute")
    if f is not None and g is not None:
        org, upd = par(f, 1), par(f, 2)
        ID = ("call", ("builtin", "id"), (org,), ())
        done = False
        ins = set()
        for o in runs(ctx, f):
            if o.kind != "return":
                continue
            inside = [(c[3], b) for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] == "in" and c[2] == ID]
            ins |= {c for c, _ in inside}
            if o.val in (upd, org):
                known = any(b for _, b in inside) or any(not b for c, b in (norm(c, b) for c, b in o.st.conds) if ("attr", SELF, "_name_map") in set(subs(c)) and not (c[0] == "cmp" and c[1] == "is")) or any(b for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] == "is" and NONE in c[2:])
                ctx.check(rule, "leave_Name kept", known, f.loc, "a name of a renamed function is left")
            else:
                done = True
                ctx.check(rule, "leave_Name attribute", bool(inside) and not any(b for _, b in inside), f.loc, "the name of an attribute is replaced")
                who = {x for x in subs(o.val)} | {x for c, _ in o.st.conds for x in subs(c)}
                ctx.check(rule, "leave_Name map", ("attr", SELF, "_name_map") in who and bool({("attr", upd, "value"), ("attr", org, "value")} & who), f.loc, "a name is replaced by something else than its new name")
        ctx.check(rule, "leave_Name", done, f.loc, "no name is replaced")
        nd = ("attr", par(g, 1), "attr")
        for o in runs(ctx, g):
            if o.kind == "return" and ins:
                ok = any(e.kind == "call" and e.name == "method:.add" and e.obj in ins and e.args == (("call", ("builtin", "id"), (nd,), ()),) for e in o.st.events)
                ctx.check(rule, "visit_Attribute", ok and o.val != FALSE, g.loc, "the name of an attribute is taken for a name")
    q = f"{AUTO}._ResolveQuantizedCallsTransformer"
    f = method(ctx, rule, q, "leave_UnresolvedQuantizedCall")
    if f is not None:
        M, R = ("attr", SELF, "_func_rename_map"), ("attr", par(f, 1), "func_ref")
        for o in runs(ctx, f):
            if o.kind != "return" or o.val in (par(f, 1), par(f, 2)):
                continue
            known = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == R and c[3] == M)
            puts = [e for e in o.st.events if e.kind == "setitem" and e.args == (const("func"),)]
            if known is None and not any(M in set(subs(t)) for t in [o.val, *(c for c, _ in o.st.conds), *(e.value for e in o.st.events if e.value)]):
                ctx.check(rule, "calls renamed", False, f.loc, "functions are not called by their new name")
            elif known:
                new = {x for t in [o.val, *(e.value for e in puts)] for x in subs(t)}
                ctx.check(rule, "calls renamed", ("item", M, R) in new or any(meth(x, "get") == M for x in new), f.loc, "a function is not called by its new name")
            elif known is False:
                ctx.check(rule, "calls kept", not any(M in set(subs(e.value)) for e in puts), f.loc, "a function without another name is looked up")
    ctx.floor(rule, 6)


# ------------------------------------------------------------------ what is converted
def sources(ctx):
    """The source of a function is looked up where the function is defined, by the name it has there."""
    rule = "convert.source"
    f = fun(ctx, rule, f"{AUTO}._resolve_method_owner_and_name")
    if f is not None:
        M, A, F = par(f, 0), par(f, 1), par(f, 2)
        n = "_resolve_method_owner_and_name"
        plain = True
        for o in runs(ctx, f):
            if o.kind != "return" or o.val[0] != "tuple" or len(o.val) != 3:
                continue
            X, name = o.val[1:]
            same_ = [(c, b) for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] in ("is", "==") and F in c[2:]]
            if X == M and name == A:
                ctx.check(rule, n + " otherwise", not any(b for _, b in same_), f.loc, "a function that was found is looked up elsewhere")
                continue
            plain = False
            if X[0] != "elem":
                ctx.skip(rule, n, f"the owner is {fmt(X)[:60]}")
                continue
            Ds = {("attr", X, "__dict__"), ("call", ("builtin", "vars"), (X,), ())}
            hit = [c for c, b in same_ if b and Ds & set(subs(c))]
            ok = bool(hit) and (name[0] == "key" and name[1] in Ds and any(("val", D) in set(subs(hit[-1])) for D in Ds) or name == A and A in set(subs(hit[-1])))
            ctx.check(rule, n, ok, f.loc, "the source of a method is looked up in a class, or by a name, that is another function")
        ctx.check(rule, n + " found", not plain, f.loc, "methods that are inherited or have another name are not found")
    f = fun(ctx, rule, f"{AUTO}._resolve_function_source_member_name")
    if f is not None:
        A, F = par(f, 1), par(f, 2)
        n = "_resolve_function_source_member_name"
        plain = True
        for o in runs(ctx, f):
            if o.kind != "return":
                continue
            same_ = [(c, b) for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] in ("is", "==") and F in c[2:]]
            if o.val == A:
                ctx.check(rule, n + " as called", not any(b and any(x[0] == "val" for x in subs(c)) for c, b in same_), f.loc, "the source of a function is looked up by a name that is another function")
                continue
            plain = False
            if o.val[0] != "key":
                ctx.skip(rule, n, f"the name is {fmt(o.val)[:60]}")
                continue
            ctx.check(rule, n, any(b and ("val", o.val[1]) in c[2:] for c, b in same_), f.loc, "the source of a function is looked up by a name that is another function")
        ctx.check(rule, n + " found", not plain, f.loc, "functions that are called by another name are not found")
    ctx.floor(rule, 6)


def tasks(ctx):
    """What is converted: the forward methods, and every function and method that a converted one calls."""
    rule = "convert.tasks"
    f = fun(ctx, rule, f"{AUTO}._find_dependent_methods")
    if f is not None:
        C = par(f, 1)
        M, iv = ("attr", C, "torch_module"), ("attr", C, "instance_var")
        end = lambda t, *e: fmt(t).endswith(e)
        n = "_find_dependent_methods"
        found = {"method": False, "forward": False}
        for o in runs(ctx, f):
            if o.kind != "return":
                continue
            cs = [norm(c, b) for c, b in o.st.conds]
            meth_ = [b for c, b in cs if c[0] == "cmp" and c[1] in ("is", "==") and any(str(x[-1]).rsplit(".", 1)[-1] == "NO_METHOD" for x in c[2:]) and any(called(x, "method_type") for x in c[2:])]
            objs = [(c, b) for c, b in cs if c[0] == "cmp" and c[1] in ("==", "in", "is") and any(x[0] in ("attr", "matched") and end(x, ".func.value.@0", ".func.value.value") for x in c[2:])]
            ys = [e for e in o.st.events if e.kind == "yield"]
            for e in ys:
                t = made(ctx, e.value, TASK)
                if t is None:
                    ctx.skip(rule, n, "what is yielded is not a task constructed here")
                    continue
                al, fn = t.get("alias", NONE), t.get("function")
                ctx.check(rule, n + " class", t.get("module") == M, f.loc, "a method of another class is converted")
                if al[0] == "const" and al[2] == "forward" or fn == ("attr", M, "forward"):
                    found["forward"] = True
                    ctx.check(rule, n + " self()", fn == ("attr", M, "forward") and al == const("forward") and any(b and iv in c[2:] for c, b in cs if c[0] == "cmp"), f.loc, "a call of the instance is not a call of its forward method")
                    continue
                found["method"] = True
                ok = fn is not None and fn[0] == "call" and fn[1] == ("builtin", "getattr") and fn[2][:2] == (M, al)
                ctx.check(rule, n + " name", ok, f.loc, "a method is converted by another name than the one it is called by")
                ctx.check(rule, n + " method", meth_[-1:] == [False], f.loc, "something that is no method of the class is converted as a method")
                if objs or not any("value" in fmt(c) and ".func" in fmt(c) for c, _ in cs if c[0] not in ("isinstance", "nonempty") and not any(called(x, "method_type") for x in subs(c))):
                    ctx.check(rule, n + " owner", any(b for _, b in objs), f.loc, "a method of another object is converted as one of the class")
            if not ys and any(b and iv in c[2:] for c, b in objs):
                ctx.check(rule, n + " every", False not in meth_, f.loc, "a method that is called is not converted")
        ctx.check(rule, n + " any", found["method"], f.loc, "methods that are called are not converted")
        ctx.check(rule, n + " any self()", found["forward"], f.loc, "the forward method is not converted if the instance is called")
    f = fun(ctx, rule, f"{AUTO}._find_dependent_functions")
    if f is not None:
        T = par(f, 2)
        n = "_find_dependent_functions"
        some = set()
        for o in runs(ctx, f, deny=("_scope_vars_and_module_refs", "_resolve_attribute"), cap=6000):
            if o.kind != "return":
                continue
            cs = [norm(c, b) for c, b in o.st.conds]
            for e in (e for e in o.st.events if e.kind == "yield"):
                t = made(ctx, e.value, TASK)
                if t is None:
                    ctx.skip(rule, n, "what is yielded is not a task constructed here")
                    continue
                R = t.get("function")
                direct = any(called(x, "_resolve_attribute") for x in subs(R))
                k = "attribute" if direct else "name"
                some.add(k)
                ctx.check(rule, f"{n} operator ({k})", any(c[0] == "cmp" and c[1] == "in" and c[2] == R and c[3] == T and not b for c, b in cs), f.loc, "a function that has a quantized counterpart is converted")
                ctx.check(rule, f"{n} bypassed ({k})", any(called(c, "is_bypassed_callable") and vals(c)[:1] == (R,) and not b for c, b in cs), f.loc, "a function that must be kept as it is is converted")
        ctx.check(rule, n + " any", some == {"attribute", "name"}, f.loc, f"functions that are called by {' or '.join(sorted({'attribute', 'name'} - some))} are not converted")
    f = fun(ctx, rule, f"{AUTO}.autoquant")
    if f is not None:
        n = "autoquant"
        mod = par(f, 0)
        first = False
        for o in runs(ctx, f, deny=CONVERT_DENY):
            if o.kind != "return":
                continue
            for e in calls_of(o, "_find_unquantized_submodules"):
                v = vals(e.value)
                ctx.check(rule, n + " modules", v[:1] == (mod,) and len(v) > 1 and called(unwrap(v[1]), "_find_known_quantized_modules"), f.loc, "modules are looked for elsewhere, or those that are quantized already are not known")
            start = next((i for i, e in enumerate(o.st.events) if e.name in ("popleft", "method:.popleft", "method:.pop")), len(o.st.events))
            for e in o.st.events[:start]:
                for x in {x for a in e.args + ((e.value,) if e.value else ()) for x in subs(a)}:
                    t = made(ctx, x, TASK)
                    if t is not None:
                        first = True
                        Y = t.get("module")
                        ok = Y is not None and Y[0] in ("call", "elem") and t.get("function") == ("attr", Y, "forward") and t.get("alias", const("forward")) == const("forward")
                        ctx.check(rule, n + " forward", ok, f.loc, "what is converted first is not the forward method of each class")
            conv = calls_of(o, "convert_function")
            has = [(c, b) for c, b in (norm(c, b) for c, b in o.st.conds) if called(c, "has_method") or meth(c, "has_method") is not None]
            known = [(c, b) for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "call" and c[1] == ("builtin", "any") and c[2] and c[2][0][0] == "comp" and any(x[0] == "attr" and x[2] == "function" for x in subs(c[2][0][2])) and ("origin" in fmt(c[2][0][2]))]
            for c, b in known:
                x, pol = norm(c[2][0][2], True)
                ctx.check(rule, n + " known", pol and x[0] == "cmp" and x[1] in ("is", "=="), f.loc, "a function is taken for one that is converted already")
            if conv:
                ctx.check(rule, n + " once", not any(b for _, b in has + known), f.loc, "a function is converted twice")
                if any(e.name.endswith(".add_method") for e in o.st.events if e.kind == "call"):
                    ctx.check(rule, n + " asked", bool(has), f.loc, "a method is converted without asking whether the class has it already")
                    d = dict(zip(("src", "optable", "func_ctx"), conv[0].value[2])) | dict(conv[0].value[3])
                    cx = d.get("func_ctx")
                    acc = [x for x in subs(cx) if called(x, "from_method") or called(x, "from_function_reference")] if cx else []
                    add = [e for e in o.st.events if e.kind == "call" and e.name.endswith(".add_method")]
                    for c, b in has:
                        who = c[1][2] if c[1][0] == "bound" else meth(c, "has_method")
                        if acc and vals(c):
                            ctx.check(rule, n + " asked name", vals(c)[0] in vals(acc[0]), f.loc, "it is asked whether the class has a method of another name: a method is converted twice, or not at all")
                        ctx.check(rule, n + " asked class", who is None or who == add[0].obj, f.loc, "it is asked whether another class has the method")
                else:
                    ctx.check(rule, n + " asked", bool(known), f.loc, "a function is converted without asking whether it was already")
            elif has and not any(b for _, b in has + known) and not any(e.kind in ("except", "raise", "handler") for e in o.st.events):
                ctx.check(rule, n + " every", False, f.loc, "a method that the class has not is not converted")
        ctx.check(rule, n + " first", first, f.loc, "forward methods are not converted")
    ctx.floor(rule, 12)
