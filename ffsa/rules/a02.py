"""Temporary registrations are released.  Every place of the library that acquires a
registration (a quantizer override, a module hook, a recorder / handle object, a prepared
module of a range estimator) is found in the source and interpreted abstractly, with an
exception injected at its yield and at every call into user code after the acquisition.  On
every exit the acquired handle must have been released, be stored in an object whose release
method is shown to release everything stored, or be handed to the caller.  The registry the
handles point into is checked for the store / remove agreement that makes `remove()` undo
exactly its own registration."""
from __future__ import annotations

import ast

from .common import *

ASSUMPTIONS = ["removing a handle, registering an override and enumerating quantizers do not raise", "torch hook handles' remove() removes the hook"]

ACQ = {"register_override", "register_forward_hook", "register_forward_pre_hook", "register_full_backward_hook", "register_full_backward_pre_hook", "register_hook", "register_module_forward_hook", "register_module_forward_pre_hook"}
REL = {"remove", "__exit__", "close"}
PURE = {"append", "extend", "add", "update", "items", "values", "keys", "named_quantizers", "named_modules", "modules", "children", "named_children", "parameters", "remove", "detach", "cleanup", "setdefault", "pop", "get", "attach", "attach_to", "enter_context", "callback", "overrides", "is_", "warning", "info", "debug"} | ACQ


def last(name):
    return name.rsplit(".", 1)[-1].rsplit(":", 1)[-1]


def acquirers(ctx):
    """Functions that contain an acquiring call."""
    for q, f in sorted(ctx.p.funcs.items()):
        if f.module.name.startswith("fastforward.testing"):
            continue
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ACQ for n in own_nodes(f)):
            yield f


def own_nodes(f):
    stack = list(f.node.body)
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


def owners(ctx):
    """{class: (acquire methods, attrs holding the handles)}: classes storing handles on self."""
    out = {}
    for f in acquirers(ctx):
        if f.cls is None or f.is_static:
            continue
        selft = ("param", f.params()[0])
        attrs = set()
        for o in normals(run(ctx, f, inline=inline_same_module(), loop_iters=(0, 1))):
            for e in events(o, "call"):
                if last(e.name) not in ACQ:
                    continue
                attrs |= {a for a in stored_attrs(o.st, selft, e.value)}
        if attrs:
            out.setdefault(f.cls.qual, ([], set()))
            out[f.cls.qual][0].append(f)
            out[f.cls.qual][1].update(attrs)
    return out


def stored_attrs(st, selft, h):
    for (obj, loc), v in st.heap.items():
        if obj == selft and isinstance(loc, str) and loc != "@contents" and flows(v, h, st):
            yield loc
        if loc == "@contents" and obj[0] == "attr" and obj[1] == selft and any(flows(x, h, st) for x in v):
            yield obj[2]


def holds(c, h, st):
    """Whether container term c holds handle h."""
    return any(flows(x, h, st) for x in st.heap.get((c, "@contents"), ())) or flows(c, h, st)


def released(h, st, rel, after=-1):
    for k, e in enumerate(st.events):
        if k <= after:
            continue
        if e.kind == "call" and last(e.name) in rel:
            if e.obj == h:
                return True
            if e.obj is not None and e.obj[0] in ("elem", "val") and holds(e.obj[1], h, st):
                return True
            if e.obj is not None and e.obj[0] == "item" and e.obj[1][0] == "elem" and holds(e.obj[1][1], h, st):
                return True
        if e.kind == "exit" and e.obj == h:
            return True
    return False


def may_raise(e):
    """Calls that may run user code (everything else is assumed not to raise)."""
    n = e.name
    if n.startswith(("class:", "builtin:", "ext:")):
        return False
    return last(n) not in PURE


def check(ctx):
    p = ctx.p
    own = owners(ctx)
    # ------------------------------------------------ classes that own handles
    release_of = {}
    for cq, (acqs, attrs) in sorted(own.items()):
        c = p.classes[cq]
        rels = release_methods(ctx, c, acqs)
        for a in acqs:
            ok = bool(rels)
            ctx.check("owner-releases-everything", f"{short(a.qual)}", ok, a.loc, f"no method of {c.name} releases every handle that {a.name} stores in {sorted(attrs)}")
        release_of[cq] = ({a.name for a in acqs}, {r.name for r in rels})
        ex = c.methods.get("__exit__")
        if ex is not None and rels:
            bad = []
            for o in run(ctx, ex, inline=no_inline):
                if o.kind == "return" and not any(e.kind == "call" and last(e.name) in {r.name for r in rels} and e.obj == ("param", ex.params()[0]) for e in o.st.events) and not direct_release(ctx, c, ex, acqs):
                    bad.append(o)
            ctx.check("owner-exit-releases", short(ex.qual), not bad, ex.loc, "leaving the scope does not release the stored handles on some path")
        # a released owner can be attached again
        for a in acqs:
            for r in rels:
                ok, why = reusable(ctx, c, a, r)
                ctx.check("owner-reusable", f"{short(a.qual)}/{r.name}", ok, r.loc, why)
    ctx.floor("owner-releases-everything", 3)
    ctx.floor("owner-exit-releases", 2)
    # ------------------------------------------- acquisitions in function bodies
    acq_methods = {f"func:{cq}.{a}" for cq, (acs, _) in release_of.items() for a in acs}
    n = 0
    for q, f in sorted(p.funcs.items()):
        if f.module.name.startswith("fastforward.testing") or "<locals>" in q:
            continue
        names = {x.func.attr for x in own_nodes(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        owner_attr = {m.rsplit(".", 1)[1] for m in acq_methods}
        if not names & (ACQ | owner_attr):
            continue
        bad = function_leaks(ctx, f, acq_methods, release_of)
        if bad is None:
            continue
        n += 1
        ctx.check("acquired-is-released", short(q), not bad, f.loc, "; ".join(sorted(set(bad))))
    ctx.floor("acquired-is-released", 6)
    # ----------------------------------------------------------- range estimators
    for cq in sorted(p.subclasses("fastforward.range_setting.common.RangeEstimator", strict=True)):
        if cq.startswith("fastforward.testing"):
            continue
        prep, clean = p.find_method(cq, "prepare"), p.find_method(cq, "cleanup")
        bad = []
        hs = set()
        for o in normals(run(ctx, prep, inline=inline_same_module())):
            for e in events(o, "call"):
                if last(e.name) in ACQ:
                    hs.add(e.value)
                    if not flows(o.val, e.value, o.st):
                        bad.append("prepare registers an override whose handle is not part of the metadata it returns")
        for o in normals(run(ctx, clean, inline=inline_same_module(deny=("remove",)), loop_iters=(1,))):
            meta = ("param", clean.params()[2])
            if not any(e.kind == "call" and last(e.name) in REL and mentions(e.obj, meta) for e in o.st.events):
                bad.append("cleanup does not remove the override recorded in the metadata")
        ctx.check("estimator-cleanup", short(cq), not bad, clean.loc, "; ".join(sorted(set(bad))))
    ctx.floor("estimator-cleanup", 2)
    check_estimate_ranges(ctx)
    check_registry(ctx)
    check_apply(ctx)


def direct_release(ctx, c, ex, acqs):
    return any(r.qual == ex.qual for r in release_methods(ctx, c, acqs))


def release_methods(ctx, c, acqs):
    """Methods of class c that release every handle stored by each acquiring method."""
    p, out = ctx.p, []
    for m in c.methods.values():
        if m.name in ("__init__", "__enter__") or m in acqs or m.is_static or m.is_property or len(m.params()) == 0:
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr in REL for x in ast.walk(m.node)):
            continue
        ok = True
        for a in acqs:
            for st, hs in after_acquire(ctx, c, a):
                for s2 in stage(ctx, m, st, c):
                    for h in hs:
                        if not released(h, s2, REL):
                            ok = False
        if ok:
            out.append(m)
    return out


def stage(ctx, f, st, c):
    i = Interp(ctx.p, inline=inline_same_module(deny=("register_override",)))
    s = st.copy()
    env = {n: ("param", n) for n in f.all_params()}
    a = f.node.args
    if a.vararg:
        env[a.vararg.arg] = ("param", a.vararg.arg)
    if a.kwarg:
        env[a.kwarg.arg] = ("param", a.kwarg.arg)
    env[f.params()[0]] = ("param", "self")
    env["@func"] = ("func", f.qual)
    s.env = env
    i.entry, i.stack, i.param_types = f, [f], i._param_types(f)
    i.types[("param", "self")] = c.qual
    ctx.analysed.add(f.qual)
    return [o.st for o in i._body_result(i.block(f.node.body, s, f)) if o.kind == "return" and feasible(o.st)]


def feasible(st):
    """A handle returned by a registration is neither None nor false."""
    hs = {e.value for e in st.events if e.kind == "call" and last(e.name) in ACQ}
    return not any((c[0] == "cmp" and c[1] == "is" and c[2] in hs and c[3] == NONE and b) or (c in hs and not b) for c, b in st.conds)


def after_acquire(ctx, c, a):
    init = ctx.p.find_method(c.qual, "__init__")
    sts = [State({})]
    if init is not None:
        sts = [x for s in sts for x in stage(ctx, init, s, c)]
    for s in sts:
        for s2 in stage(ctx, a, s, c):
            hs = [e.value for e in s2.events if e.kind == "call" and last(e.name) in ACQ]
            if hs:
                yield s2, hs


def reusable(ctx, c, a, r):
    """After release the acquiring method works again (no 'already attached' refusal)."""
    for st, hs in after_acquire(ctx, c, a):
        for s2 in stage(ctx, r, st, c):
            n0 = len(s2.events)
            outs = stage(ctx, a, s2, c)
            if not any(any(e.kind == "call" and last(e.name) in ACQ for e in o.events[n0:]) for o in outs):
                return False, f"after {r.name}() the next {a.name}() cannot register again"
            # and releasing must not keep stale handles that hide the new ones
    return True, ""


def function_leaks(ctx, f, acq_methods, release_of):
    p = ctx.p
    selft = ("param", f.params()[0]) if f.cls is not None and not f.is_static and f.params() else None
    deny = ACQ | {"remove"} | {m.rsplit(".", 1)[1] for m in acq_methods} | {r for _, rs in release_of.values() for r in rs}
    outs = run(ctx, f, inline=inline_same_module(deny=tuple(deny)), exc="calls", no_exc=lambda e: not may_raise(e), yield_raises=True, loop_iters=(0, 1),
               keep=lambda e: e.kind in ("enter", "exit", "yield") or (e.kind == "call" and (last(e.name) in ACQ | REL | deny or may_raise(e))))
    bad, found = [], False
    for o in outs:
        for k, e in enumerate(o.st.events):
            if e.kind != "call":
                continue
            rel, h = None, None
            if e.name in acq_methods:
                cq = e.name[5:].rsplit(".", 1)[0]
                if e.obj == selft:
                    found = True
                    continue
                rel, h = release_of[cq][1] | {"__exit__"}, e.obj
                if h[0] == "param":
                    continue
            elif last(e.name) in ACQ and e.name != "func:" + f.qual:
                rel, h = REL, e.value
            if h is None:
                continue
            found = True
            if o.kind == "return" and flows(o.val, h, o.st):
                continue
            if selft is not None and any(True for _ in stored_attrs(o.st, selft, h)):
                continue
            if released(h, o.st, rel, after=k):
                continue
            bad.append(f"{fmt(h)[:80]} acquired at {e.loc} is still registered when the function ends by {o.kind}")
    return bad if found else None


def check_estimate_ranges(ctx):
    """Whatever was prepared is cleaned up with its own metadata."""
    f = ctx.func("fastforward.range_setting.common.estimate_ranges")
    bad, n = [], 0
    outs = run(ctx, f, inline=inline_same_module(deny=("prepare", "cleanup", "split_module")), exc="calls", yield_raises=True, loop_iters=(0, 1, 2), distinct=True,
               no_exc=lambda e: last(e.name) in (PURE - {"prepare"}) or e.name.startswith(("class:", "builtin:", "ext:")),
               keep=lambda e: e.kind == "yield" or (e.kind == "call" and last(e.name) in ("prepare", "cleanup", "split_module")))
    for o in outs:
        for k, e in enumerate(o.st.events):
            if e.kind == "call" and last(e.name) == "prepare":
                n += 1
                m = e.args[0] if e.args else None
                if not any(e2.kind == "call" and last(e2.name) == "cleanup" and pair_ok(e2, m, e.value, o.st) for e2 in o.st.events[k + 1:]):
                    bad.append(f"a prepared module is not cleaned up (with the metadata of its prepare) when the scope ends by {o.kind}")
    if not n:
        raise AnalysisBroken("estimate_ranges: no prepare call found")
    ctx.check("prepared-is-cleaned-up", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))


def pair_ok(e, m, meta, st):
    a, b = evarg(e, 0, "module"), evarg(e, 1, "metadata")
    if a is None or b is None:
        return False
    ok_b = b == meta or (b[0] in ("item", "val", "elem") and True and not mentions(b, ("const", "NoneType", None)) and flows(b, meta, st))
    return flows(a, m, st) and ok_b


def check_registry(ctx):
    """register stores under the handle's id, remove deletes exactly that entry."""
    p = ctx.p
    Q = "fastforward.nn.quantizer.Quantizer"
    reg, rem = ctx.func(Q + ".register_override"), ctx.func(Q + ".remove_override")
    H = "fastforward.forward_override.OverrideHandle"
    hrem, hinit = ctx.func(H + ".remove"), ctx.func(H + ".__init__")
    selft = ("param", "self")
    # --- register
    stores, bad = set(), []
    for o in normals(run(ctx, reg, inline=inline_same_module())):
        ms = [((obj, loc), v) for (obj, loc), v in o.st.heap.items() if isinstance(loc, tuple) and loc[0] == "item" and obj[0] == "attr" and obj[1] == selft and v == ("param", "override_fn")]
        if not ms:
            bad.append("the override function is not stored")
        for (obj, loc), _ in ms:
            stores.add(obj[2])
            hnd = loc[1][1] if loc[1][0] == "attr" else None
            if hnd is None or loc[1][2] != "handle_id" or o.val != hnd:
                bad.append("the override is not stored under the id of the returned handle")
            elif not (hnd[0] == "call" and hnd[1] == ("class", H) and hnd[2][:1] == (selft,)):
                bad.append("the returned handle does not refer to this quantizer")
    ctx.check("register-stores-under-handle", short(reg.qual), not bad, reg.loc, "; ".join(sorted(set(bad))))
    # --- remove
    bad = []
    key = ("param", rem.params()[1])
    for o in normals(run(ctx, rem, inline=inline_same_module())):
        hits = [e for e in o.st.events if e.kind == "delitem" and e.obj[0] == "attr" and e.obj[1] == selft and e.obj[2] in stores]
        absent = any(c[0] == "cmp" and c[1] == "in" and c[2] == key and not b for c, b in o.st.conds)
        if any(e.args[:1] != (key,) for e in hits):
            bad.append("another entry than the requested one is removed")
        if not hits and not absent and not any(c[0] == "cmp" and c[1] == "is" and c[3] == NONE and b and mentions(c, key) for c, b in o.st.conds):
            bad.append("the entry is not removed")
        if any(e.kind == "call" and last(e.name) in ("clear", "popitem") for e in o.st.events):
            bad.append("unrelated overrides are dropped")
    ctx.check("remove-deletes-own-entry", short(rem.qual), not bad, rem.loc, "; ".join(sorted(set(bad))))
    # --- handle
    bad = []
    for o in normals(run(ctx, hrem, inline=no_inline)):
        dead = any(c[0] == "cmp" and c[1] == "is" and c[3] == NONE and b for c, b in o.st.conds) or any(not b and c[0] == "call" for c, b in o.st.conds)
        called = [e for e in events(o, "call") if last(e.name) == "remove_override"]
        if dead and not called:
            continue
        if not any(evarg(e, 0, "override_id") == ("attr", selft, "handle_id") for e in called):
            bad.append("remove() does not remove the override registered under the handle's own id")
    ctx.check("handle-removes-own-id", short(hrem.qual), not bad, hrem.loc, "; ".join(sorted(set(bad))))
    hexit = p.find_method(H, "__exit__")
    if hexit is not None:
        bad = [o for o in run(ctx, hexit, inline=no_inline) if o.kind == "return" and not any(e.kind == "call" and last(e.name) in ("remove", "remove_override") for e in o.st.events)]
        ctx.check("handle-removes-own-id", short(hexit.qual), not bad, hexit.loc, "leaving the handle's scope does not remove the override on some path")
    # --- ids are unique: the id is the old value of a shared counter that is advanced on every path
    bad = []
    for o in normals(run(ctx, hinit, inline=inline_same_module())):
        v = o.st.heap.get((selft, "handle_id"))
        if v is None:
            bad.append("no id is assigned")
            continue
        if v[0] == "call" and v[1] == ("builtin", "next"):
            continue
        adv = [(k, x) for k, x in o.st.heap.items() if k[0][0] in ("class", "global", "call") and k != (selft, "handle_id") and x[0] == "bin" and x[1] == "+"]
        if not any(mentions(x, v) or x == v for _, x in adv):
            bad.append("two handles can receive the same id")
        if any(k[0] == selft for k in adv):
            bad.append("the id counter is per instance")
    ctx.check("handle-ids-unique", short(hinit.qual), not bad, hinit.loc, "; ".join(sorted(set(bad))))
    # --- the registry is per quantizer and only register/remove change it
    init = ctx.func(Q + ".__init__")
    attr = next(iter(stores)) if stores else "_quantizer_overrides"
    touched = {}
    for q, f in sorted(p.funcs.items()):
        if f.module.name.startswith("fastforward.testing") or q in (reg.qual, rem.qual, init.qual):
            continue
        for n in own_nodes(f):
            w = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("clear", "pop", "popitem", "update", "setdefault", "__setitem__", "__delitem__") and mentions_attr(n.func.value, attr):
                w = n.func.attr
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
                tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                if any(mentions_attr(t, attr) for t in tg):
                    w = "assignment"
            if w:
                touched.setdefault(q, (f, n, w))
    for q, (f, n, w) in touched.items():
        # helpers that a registered method delegates to are part of it
        callers = {g.qual for g in (reg, rem, init) if any(isinstance(x, ast.Attribute) and x.attr == f.name for x in ast.walk(g.node))}
        ctx.check("registry-owned", short(q), bool(callers), f"{f.module.rel}:{n.lineno}", f"{w} on another object's override registry")
    ctx.check("registry-owned", short(init.qual) + " creates", any(isinstance(n, (ast.Call, ast.Assign, ast.AnnAssign)) and attr in ast.unparse(n) for n in own_nodes(init)), init.loc, "the override registry is not created per instance")


def mentions_attr(n, attr):
    return any(isinstance(x, ast.Attribute) and x.attr == attr for x in ast.walk(n))


def check_apply(ctx):
    """Override call protocol of apply_overrides / the quantizer's forward."""
    p = ctx.p
    M = "fastforward.forward_override"
    f = ctx.func(M + ".apply_overrides")
    # every registered override is part of the returned callable unless there is none
    bad = []
    omap, base = ("param", "override_map"), ("param", "overridden_fn")
    wrapped = set()
    for o in normals(run(ctx, f, inline=no_inline)):
        none = any((c == omap or mentions(c, omap)) and not b for c, b in o.st.conds) or any(c[0] == "cmp" and c[1] == "==" and b and mentions(c, omap) for c, b in o.st.conds)
        if o.val == base:
            if not none:
                bad.append("registered overrides are ignored on some path")
            continue
        if o.val[0] == "call" and o.val[1][0] == "class":
            wrapped.add(o.val[1][1])
        if not (flows(o.val, omap, o.st) and flows(o.val, base, o.st) and flows(o.val, ("param", "context"), o.st)):
            bad.append("the wrapper does not receive the context, the overridden function and the overrides")
    ctx.check("overrides-applied", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))
    for cq in wrapped:
        c = p.classes[cq]
        call, init = c.methods["__call__"], c.methods["__init__"]
        selft = ("param", "self")
        pairs = []
        for s in stage(ctx, init, State({}), c):
            i = Interp(ctx.p, inline=inline_same_module())
            s2 = s.copy()
            s2.env = {"self": selft, "args": ("param", "args"), "kwargs": ("param", "kwargs"), "@func": ("func", call.qual)}
            va, ka = call.node.args.vararg, call.node.args.kwarg
            s2.env = {call.params()[0]: selft, "@func": ("func", call.qual)}
            if va:
                s2.env[va.arg] = ("param", "args")
            if ka:
                s2.env[ka.arg] = ("param", "kwargs")
            i.entry, i.stack, i.param_types = call, [call], i._param_types(call)
            i.types[selft] = cq
            pairs += [o for o in i._body_result(i.block(call.node.body, s2, call)) if o.kind == "return"]
        ctx.analysed.add(call.qual)
        bad, order = [], None
        bases = overs = 0
        for o in pairs:
            calls = [e for e in o.st.events if e.kind == "call" and (e.obj == base or e.value[0] == "call" and e.value[1] == base or len(e.args) == 4)]
            if o.val[0] != "call":
                bad.append("the result of the called function is not returned")
                continue
            fn, a, k = o.val[1], o.val[2], o.val[3]
            if fn == base or fn == ("param", "overridden_fn"):
                bases += 1
                if a != (("star", ("param", "args")),) or k != (("**", ("param", "kwargs")),):
                    bad.append("the overridden function does not receive the arguments unchanged")
            elif len(a) == 4 or len(k) == 4:
                overs += 1
                if a != (("param", "context"), selft, ("param", "args"), ("param", "kwargs")):
                    bad.append("an override is not called with (context, next, args, kwargs)")
                order = order or direction(ctx, fn)
                if direction(ctx, fn) == "not the registration":
                    bad.append("overrides are ordered by something else than their registration")
                if direction(ctx, fn) == "ascending":
                    bad.append("overrides run oldest first although the newest must be outermost")
            else:
                bad.append("unexpected call protocol")
        if not bases or not overs:
            bad.append("either the overridden function or the overrides are never called")
        ctx.check("override-call-protocol", short(cq), not bad, call.loc, "; ".join(sorted(set(bad))))
    fw = ctx.func("fastforward.nn.quantizer.Quantizer.forward")
    bad = []
    for o in normals(run(ctx, fw, inline=no_inline)):
        ap = [e for e in events(o, "call", "func:" + f.qual)]
        ok = False
        for e in ap:
            if evarg(e, 0, "context") == ("param", "self") and mentions(evarg(e, 1, "overridden_fn"), ("param", "self")) and evarg(e, 2, "override_map", NONE)[:1] == ("attr",):
                ok = o.val[0] == "call" and o.val[1] == e.value and ("param", "data") in o.val[2] + tuple(v for _, v in o.val[3])
        if not ok:
            bad.append("a forward path does not go through the registered overrides")
    ctx.check("overrides-applied", short(fw.qual), not bad, fw.loc, "; ".join(sorted(set(bad))))


def direction(ctx, fn):
    """Order in which override callables are taken from the sorted registry (None: unknown)."""
    if fn[0] != "call" or fn[1][0] != "attr":
        return None
    m, args = fn[1][2], fn[2]
    src = fn[1][1]
    for x in walk(src):
        # sorted by anything but the registration id itself does not give registration order
        if x[0] == "call" and ref_name(x[1]) == "builtin:sorted" and not sort_by_id(ctx, x):
            return "not the registration"
    rev = contains(src, lambda x: x[0] == "call" and ref_name(x[1]) == "builtin:reversed") ^ contains(src, lambda x: x[0] == "call" and ref_name(x[1]) == "builtin:sorted" and ("reverse", TRUE) in x[3])
    if m == "pop" and not args:
        newest_first = True
    elif m == "popleft" or (m == "pop" and args == (const(0),)):
        newest_first = False
    else:
        return None
    if rev:
        newest_first = not newest_first
    return "descending" if newest_first else "ascending"


def sort_by_id(ctx, call):
    """The sort key of the registry's items is the (integer) registration id."""
    key = dict(call[3]).get("key", NONE)
    if key == NONE:
        return True
    if key[0] == "call" and ref_name(key[1]).endswith("itemgetter"):
        return key[2] == (const(0),)
    if key[0] == "closure":
        x = ("param", "registry_item")
        return all(o.kind == "value" and o.val in (x, ("item", x, const(0))) for o in call_term(ctx, key, [x]))
    return key[0] not in ("builtin", "ext")
