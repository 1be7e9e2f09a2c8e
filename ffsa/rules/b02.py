"""Operator registry.  Registration, lookup and removal of operator kernels are interpreted
abstractly: the position at which a registration is inserted into the list of its operator,
the order in which lookup visits that list and the item it returns, what removal deletes, and
the truth tables of the predicate combinators.  Every other writer of the registry is
searched for."""
from __future__ import annotations

import ast
import itertools

from .common import *

ASSUMPTIONS = ["bisect and list.insert/remove behave as documented", "predicates do not change the registry"]
M = "fastforward.dispatcher"


def check(ctx):
    reg = registry(ctx)
    item = ctx.p.cls(M + ".DispatcherItem")
    register_(ctx, reg)
    dispatch_(ctx, reg)
    hook(ctx, reg)
    predicates(ctx)
    priorities(ctx)
    writers(ctx, reg)


def registry(ctx):
    """The module global holding {operator name: [items]}: what `dispatch` reads."""
    p = ctx.p
    m = p.module(M)
    for o in run(ctx, M + ".dispatch", inline=inline_same_module()):
        for e in o.st.events:
            for t in walk(e.value) if e.value else ():
                if t[0] == "global" and t[1].startswith(M + "."):
                    return t
    raise AnalysisBroken("dispatch does not read a module level registry")


def impls(t, reg, name):
    """`t` is the list registered for operator `name` (registry[name], .get(name, empty), .setdefault)."""
    if t[0] == "item" and t[1] == reg:
        return t[2] == name
    if t[0] == "call" and t[1][0] == "attr" and t[1][1] == reg and t[1][2] in ("get", "setdefault"):
        return t[2][:1] == (name,)
    if t[0] == "call" and t[1] == ("builtin", "tuple") or t[0] == "call" and t[1] == ("builtin", "list"):
        return bool(t[2]) and impls(t[2][0], reg, name)
    if t[0] == "bin" and t[1] == "or":
        return impls(t[2], reg, name)
    return False


def made(ctx, t, cls):
    """Constructor arguments {field: term} of a DispatcherItem-like call."""
    c = ctx.p.cls(cls)
    if not (t[0] == "call" and t[1] == ("class", cls)):
        return None
    fields = [n for n in ctx.p.fields(c.qual)] if ctx.p.is_dataclass(c.qual) else ctx.p.find_method(c.qual, "__init__").params()[1:]
    names = [getattr(x, "name", x[0] if isinstance(x, tuple) else x) for x in fields]
    return {**dict(zip(names, t[2])), **dict(t[3])}


def left_insert(t, reg, name, prio):
    """The insertion index is before every item whose priority is >= the new one, after all smaller ones."""
    if t[0] == "call" and ref_name(t[1]).startswith("ext:bisect.") or t[0] == "call" and ref_name(t[1]).startswith("bisect."):
        fn = ref_name(t[1]).rsplit(".", 1)[-1]
        key = dict(t[3]).get("key")
        if fn != "bisect_left":
            return False, "newer registrations are placed behind older ones of the same priority"
        if not t[2] or not impls(t[2][0], reg, name):
            return False, "position computed on another list"
        if len(t[2]) < 2 or t[2][1] != prio:
            return False, "position is not computed from the registration's own priority"
        if len(t[2]) > 2 or set(dict(t[3])) - {"key"}:
            return False, "only a part of the list is searched"
        if key is None or not (key[0] == "closure" or fmt(key).endswith("attrgetter('priority')")):
            return None, "unknown key"
        return True, ""
    return None, "unknown position"


def register_(ctx, reg):
    p = ctx.p
    f = ctx.func(M + ".register")
    outs = run(ctx, f, inline=inline_same_module())
    bad, n = [], {"dec": 0, "fun": 0}
    NAME, PRED, KER, PRIO = (("param", x) for x in ("op_name", "predicate", "kernel", "priority"))

    def one(o, kernel, what):
        ins = [e for e in events(o, "call") if e.name in ("method:.insert", "method:.append", "method:.extend") and e.obj is not None and impls(e.obj, reg, NAME)]
        if len(ins) != 1:
            bad.append(f"{what}: {len(ins)} items are added to the operator's list")
            return None
        e = ins[0]
        it = made(ctx, e.args[-1], M + ".DispatcherItem")
        if it is None:
            ctx.skip("register", what, "item constructor not recognised")
            return e.args[-1]
        if it.get("fn") != kernel:
            bad.append(f"{what}: the kernel stored is not the one given")
        prio = it.get("priority")
        if prio != PRIO:
            bad.append(f"{what}: the item does not carry the given priority")
        pr = it.get("predicate")
        if pr is None or not (pr == PRED or o.st.holds(PRED) is False or o.st.holds(("cmp", "is", PRED, NONE)) is True or pr[0] == "bin" and pr[2] == PRED):
            bad.append(f"{what}: the given predicate is not the one stored")
        if e.name != "method:.insert":
            bad.append(f"{what}: newer registrations do not take precedence over older ones")
        else:
            ok, why = left_insert(e.args[0], reg, NAME, PRIO)
            if ok is False:
                bad.append(f"{what}: {why}")
            elif ok is None:
                if e.args[0] == const(0):
                    bad.append(f"{what}: the priority is ignored when the item is placed")
                else:
                    ctx.skip("register", what, why)
        return e.args[-1]

    for o in outs:
        if o.kind == "raise":
            bad.append("a registration is refused")
            continue
        v = o.val
        kn = o.st.holds(("cmp", "is", KER, NONE))
        if kn is None:
            kn = {True: False, False: True, None: None}[o.st.holds(KER)]
        if v[0] == "closure":
            n["dec"] += 1
            if kn is not True:
                bad.append("a decorator is returned although a kernel is given")
            df = p.funcs[v[1]]
            i = Interp(p, inline=inline_same_module())
            i.entry, i.stack, i.param_types = f, [f], {}
            K2 = ("param", "decorated")
            for r in i.call(v, [K2], [], o.st, f, f.node):
                if r.kind != "value":
                    bad.append("the decorator raises")
                    continue
                if r.val != K2:
                    bad.append("the decorator does not return the decorated kernel")
                # the decorator calls register(...) again with the kernel, or the functional form directly
                rec = [e for e in events(Out("return", r.st, r.val), "call") if e.name in ("func:" + f.qual,)]
                if rec:
                    e = rec[0]
                    got = tuple(evarg(e, k, nm) for k, nm in enumerate(("op_name", "predicate", "kernel", "priority")))
                    if got != (NAME, PRED, K2, PRIO):
                        bad.append("the decorator form does not register the decorated kernel with the given predicate and priority")
                else:
                    one(Out("return", r.st, r.val), K2, "decorator form")
        else:
            n["fun"] += 1
            it = one(o, KER, "functional form")
            h = made(ctx, v, M + ".DispatcherRegistrationHook")
            if h is None:
                bad.append("no registration hook is returned for the functional form")
            elif it is not None and (it not in h.values() or NAME not in h.values()):
                bad.append("the hook does not refer to the registered item")
    if not n["dec"] or not n["fun"]:
        bad.append("one of the two registration forms is missing")
    ctx.check("registration-order", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))
    # the default predicate accepts everything
    bad = []
    for o in outs:
        for e in events(o, "call"):
            if e.name == f"class:{M}.DispatcherItem" and o.st.holds(PRED) is False:
                pr = evarg(e, 0, "predicate")
                if pr[0] == "call" and pr[1] == ("class", M + ".Predicate"):
                    fn = arg(pr, 0, "fn")
                    if fn[0] == "call" and fn[1][0] == "func":
                        fn = next(iter(normals(run(ctx, fn[1][1], inline=no_inline)))).val
                    if fn[0] == "closure":
                        r = run(ctx, fn[1], inline=no_inline)
                        if [x.val for x in r] != [TRUE]:
                            bad.append("the default predicate is not always true")
                    else:
                        ctx.skip("default-predicate", fmt(fn)[:40], "not a closure")
    ctx.check("default-predicate", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))


def dispatch_(ctx, reg):
    f = ctx.func(M + ".dispatch")
    NAME = ("param", "op_name")
    bad, found, none = [], 0, 0
    for o in run(ctx, f, inline=inline_same_module(), loop_iters=(0, 1, 2), distinct=True, merge=False):
        if o.kind == "raise":
            bad.append("lookup raises")
            continue
        loops = [e for e in o.st.events if e.kind == "loop"]
        for e in loops:
            base = e.obj if e.obj is not None else None
            it = base if base is not None else NONE
            if contains(it, lambda x: x == reg) and not impls(strip(it, "iter"), reg, NAME):
                if contains(it, lambda x: x[0] == "call" and ref_name(x[1]) in ("builtin:reversed",)) or contains(it, lambda x: x[0] == "slice"):
                    bad.append("the registrations are not visited in list order")
                else:
                    ctx.skip("lookup", fmt(it)[:50], "unknown iteration")
        preds = [(c, b) for c, b in o.st.conds if c[0] == "call" and contains(c[1], lambda x: x[0] == "attr" and x[2] == "predicate")]
        for c, b in preds:
            if c[2] != (("star", ("param", "args")),) or c[3] != (("**", ("param", "kwargs")),):
                bad.append("a predicate does not see the call's arguments unchanged")
        if o.val == NONE:
            none += 1
            if any(b for _, b in preds):
                bad.append("a matching kernel is not returned")
            continue
        v = o.val
        if v[0] == "call" and ref_name(v[1]) == "builtin:next":
            next_form(ctx, v, reg, NAME, bad)
            found += 1
            none += 1
            continue
        if not (v[0] == "attr" and v[2] == "fn"):
            bad.append(f"lookup returns {fmt(v)[:60]} instead of the kernel of the matching item")
            continue
        found += 1
        item = v[1]
        own = [b for c, b in preds if contains(c[1], lambda x: x == ("attr", item, "predicate"))]
        if own != [True]:
            bad.append("a kernel is returned whose predicate did not accept the arguments")
        if preds and preds[-1][1] is True and any(b for c, b in preds[:-1]):
            bad.append("an earlier matching registration is passed over")
    if not found:
        bad.append("no path returns a kernel")
    if not none:
        bad.append("no path reports that nothing matches")
    ctx.check("lookup-first-match", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))


def strip(t, fn):
    while t[0] == "call" and t[1] == ("builtin", fn) and t[2]:
        t = t[2][0]
    return t


def next_form(ctx, v, reg, name, bad):
    g = v[2][0]
    if len(v[2]) < 2 or v[2][1] != NONE:
        bad.append("lookup raises when nothing matches")
    if g[0] == "comp" and len(g[3]) == 1:
        it, ifs = g[3][0][0], g[3][0][1]
        if not impls(it, reg, name):
            bad.append("the registrations are not visited in list order")
        if not (g[2][0] == "attr" and g[2][2] == "fn"):
            bad.append("lookup does not return the kernel of the matching item")
        if not any(contains(c, lambda x: x[0] == "attr" and x[2] == "predicate") for c in ifs):
            bad.append("a kernel is returned whose predicate did not accept the arguments")


def hook(ctx, reg):
    p = ctx.p
    c = p.cls(M + ".DispatcherRegistrationHook")
    ini, ex = p.find_method(c.qual, "__init__"), p.find_method(c.qual, "__exit__")
    selft = ("param", "self")
    bad = []
    for o in normals(run(ctx, ini, inline=no_inline)):
        fields = {k[1]: v for k, v in o.st.heap.items() if k[0] == selft and isinstance(k[1], str)}
        rev = {v: k for k, v in fields.items() if v[0] == "param"}
        name = next((k for v, k in rev.items() if v[1] == "op_name"), None)
        item = next((k for v, k in rev.items() if v[1] == "dispatcher_item"), None)
        if name is None or item is None:
            bad.append("the hook does not remember its operator and item")
    if not bad:
        outs = run(ctx, ex, inline=inline_same_module())
        for o in outs:
            if o.kind == "raise":
                bad.append("leaving the scope raises")
                continue
            if o.val not in (NONE, FALSE):
                bad.append("leaving the scope may hide an exception")
            rm = []
            for e in o.st.events:
                if e.kind == "call" and e.name == "method:.remove" and e.obj is not None and impls(e.obj, reg, ("attr", selft, name)):
                    rm.append(e.args[:1] == (("attr", selft, item),))
                elif e.kind == "call" and e.obj is not None and mentions(e.obj, reg) and e.name in ("method:.clear", "method:.pop", "method:.popitem", "method:.__delitem__"):
                    rm.append(False)
                elif e.kind in ("delitem", "del", "setitem") and e.obj is not None and mentions(e.obj, reg):
                    rm.append(None if e.kind == "setitem" else False)
            if False in rm:
                bad.append("something else than the hook's own item is removed")
            elif not rm:
                if o.st.conds and any(mentions(cn, ("attr", selft, item)) for cn, b in o.st.conds):
                    ctx.skip("scoped-registration", "path without removal", fmt(o.st.conds[-1][0])[:50])
                else:
                    bad.append("the registration stays active after the scope ends")
    ctx.check("scoped-registration", short(ex.qual), not bad, ex.loc, "; ".join(sorted(set(bad))))
    en = p.find_method(c.qual, "__enter__")
    bad = [1 for o in run(ctx, en, inline=inline_same_module()) for e in o.st.events if e.obj is not None and mentions(e.obj, reg)]
    ctx.check("enter-keeps-registry", short(en.qual), not bad, en.loc, "entering the scope changes the registry")


def predicates(ctx):
    """Truth tables: not / and / or of predicates, forwarding the call's arguments."""
    p = ctx.p
    base = p.cls(M + "._Predicate") if (M + "._Predicate") in p.classes else p.cls(M + ".Predicate")
    A, K = ("star", ("param", "args")), ("**", ("param", "kwargs"))
    P, Q = ("param", "P"), ("param", "Q")
    want = {"__invert__": lambda a, b: not a, "__and__": lambda a, b: a and b, "__or__": lambda a, b: a or b}
    for dn, sem in want.items():
        f = p.find_method(M + ".Predicate", dn)
        if f is None:
            ctx.check("predicate-algebra", dn, False, base.loc, f"predicates do not support {dn}")
            continue
        bad = []
        for o in run(ctx, f, inline=no_inline):
            v = o.val
            if o.kind == "raise" or not (v[0] == "call" and v[1][0] == "class"):
                bad.append("no combined predicate is returned")
                continue
            cls = v[1][1]
            sub = {("param", f.params()[0]): P}
            if len(f.params()) > 1:
                sub[("param", f.params()[1])] = Q
            args = [subst(a, sub) for a in v[2]] + [subst(a, sub) for _, a in v[3]]
            rows = table(ctx, cls, args, P, Q, A, K, bad)
            for st_truth, res in rows:
                for a, b in itertools.product((True, False), repeat=2):
                    if st_truth.get("P", a) != a or st_truth.get("Q", b) != b:
                        continue
                    r = res
                    if r == "P":
                        r = a
                    elif r == "Q":
                        r = b
                    elif r == "notP":
                        r = not a
                    elif r == "notQ":
                        r = not b
                    if r is not None and bool(r) != bool(sem(a, b)):
                        bad.append(f"wrong result when the operands are {a} and {b}" if dn != "__invert__" else f"wrong result when the operand is {a}")
                        break
        ctx.check("predicate-algebra", dn, not bad, f.loc, "; ".join(sorted(set(bad))))
    f = p.find_method(M + ".Predicate", "__call__")
    ini = p.find_method(M + ".Predicate", "__init__")
    bad = []
    rows = table(ctx, M + ".Predicate", [P], P, Q, A, K, bad)
    if any(r not in ("P", None) and not (st.get("P") == r) for st, r in rows):
        bad.append("a predicate does not return the result of the function it wraps")
    ctx.check("predicate-forwards", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def table(ctx, cls, args, P, Q, A, K, bad):
    """[(assumed truth of P/Q, result)] of instance(cls, *args)(*args, **kwargs)."""
    p = ctx.p
    c = p.cls(cls)
    ini, call = p.find_method(c.qual, "__init__"), p.find_method(c.qual, "__call__")
    S = ("param", "obj")
    i = Interp(p, inline=inline_same_module(), merge=False)
    i.entry, i.stack, i.param_types = call, [call], {}
    i.types[S] = cls
    rows = []
    st = State({})
    inits = [r for r in i.inline_call(ini, [S] + list(args), {}, st, call, call.node, raw=True)] if ini is not None else []
    for r in inits:
        if r.kind == "raise":
            bad.append("construction raises")
            continue
        for o in i.inline_call(call, [S, A], {"**": K[1]}, r.st, call, call.node, raw=True):
            if o.kind == "raise":
                bad.append("evaluation raises")
                continue
            evs = [e for e in o.st.events if e.kind == "call" and (e.name in ("param:P", "param:Q"))]
            for e in evs:
                if e.args != (A,) or e.kwargs != (K,):
                    bad.append("the operands do not see the call's arguments unchanged")
            truth = {}
            for cn, b in o.st.conds:
                for nm, t in (("P", P), ("Q", Q)):
                    if cn[0] == "call" and cn[1] == t:
                        truth[nm] = b
            rows.append((truth, result(o.val, P, Q)))
    if not rows:
        bad.append("no path")
    return rows


def result(v, P, Q):
    if v == TRUE:
        return True
    if v == FALSE:
        return False
    if v[0] == "call" and v[1] == P:
        return "P"
    if v[0] == "call" and v[1] == Q:
        return "Q"
    if v[0] == "not":
        r = result(v[1], P, Q)
        return {"P": "notP", "Q": "notQ", True: False, False: True}.get(r)
    if v[0] == "call" and v[1] == ("builtin", "bool"):
        return result(v[2][0], P, Q)
    return None


def priorities(ctx):
    c = ctx.p.cls(M + ".DispatcherPriority")
    vals = {}
    for st in c.node.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            v = st.value
            if isinstance(v, ast.Constant):
                vals[st.targets[0].id] = v.value
            elif isinstance(v, ast.Call) and ast.unparse(v.func).endswith("auto"):
                vals[st.targets[0].id] = len(vals) + 1
    order = [vals.get(n) for n in ("DEFAULT", "FALLBACK", "NOT_IMPLEMENTED_FALLBACK")]
    ok = None not in order and order == sorted(order) and len(set(order)) == 3
    ctx.check("priority-order", "DEFAULT < FALLBACK < NOT_IMPLEMENTED_FALLBACK", ok, c.loc, f"priorities are {order}")


def writers(ctx, reg):
    """Nothing but registration and its hook changes the registry."""
    p = ctx.p
    q = reg[1].rsplit(".", 1)[-1]
    allowed = {M + "._register_functional", M + ".register"}
    n = 0
    for fq, f in sorted(p.funcs.items()):
        used = any(isinstance(x, ast.Name) and x.id == q or isinstance(x, ast.Attribute) and x.attr == q for x in ast.walk(f.node))
        if not used or f.module.name.startswith("fastforward.testing"):
            continue
        n += 1
        inserts, other = [], []
        for o in run(ctx, f, inline=no_inline):
            for e in o.st.events:
                if e.obj is None or not mentions(e.obj, reg):
                    continue
                if e.kind == "call" and e.name.rsplit(".", 1)[-1] in ("insert", "append", "extend"):
                    inserts.append(e)
                elif e.kind in ("setitem", "delitem") or e.kind == "call" and e.name.rsplit(".", 1)[-1] in ("clear", "pop", "sort", "reverse", "popitem", "update"):
                    other.append(e)
        ctx.check("registry-writers", short(fq), not other, f.loc, "rewrites the operator registry outside registration")
    ctx.floor("registry-writers", 3)
