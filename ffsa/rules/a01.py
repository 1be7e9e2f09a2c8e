"""Scope restoration.  Every context manager of the library (generator based and class
based, discovered from the source) and every function or hook pair that writes a global
flag is interpreted abstractly on all its exits - normal, and with an exception thrown at
the yield / reported to __exit__.  At every exit each location outside the manager itself
that was written must hold again the value it had on entry (the term read before the
first write)."""
from __future__ import annotations

import ast

from .common import *

ASSUMPTIONS = ["opaque calls inside a context manager's own set-up code do not raise", "torch runs hooks registered with always_call=True when forward raises"]

# (manager, location) pairs confirmed by reading as deliberate non-restored writes
EXEMPT = {
    ("_NonLocalBranchScope.inner_scope", "_block"): "first entry initialises the scope's own block",
    ("_NonLocalBranchScope.inner_scope", "_active_scope"): "",
}


def is_private_obj(o):
    return o[0] in ("fresh", "new", "flagctx") or (o[0] == "call" and o[1][0] in ("class", "builtin", "ext"))


def unrestored(st, own=()):
    """Written locations whose final value differs from the value on entry."""
    bad = []
    for (obj, loc), v in st.heap.items():
        if loc in ("@contents", "@esc", "@cleared") or is_private_obj(obj) or obj in own:
            continue
        if isinstance(loc, tuple) and loc[0] == "item":
            init = {("item", obj, loc[1]), ("call", ("attr", obj, "get"), (loc[1],), ()), ("absent",)}
            if obj[0] == "item" or obj[0] == "attr" or obj[0] in ("global", "param", "flag"):
                pass
            else:
                continue
            if v == ("absent",):
                # removing the key again is only a restore when the key was new on this path
                if any(c == ("cmp", "in", loc[1], obj) and b for c, b in st.conds):
                    bad.append((obj, loc, v))
                continue
        elif loc == "@value":
            init = {obj}
        elif isinstance(loc, tuple):
            init = {("attr", obj, loc[1])}
        else:
            init = {("attr", obj, loc)}
        if v in init or monotone(v, init):
            continue
        if any(e.kind == "restored" and e.obj == obj for e in st.events):
            continue
        bad.append((obj, loc, v))
    return bad


def monotone(v, init):
    """A counter that is only ever incremented is not scoped state."""
    return v[0] == "bin" and v[1] == "+" and (v[2] in init or v[3] in init)


def guard_raise(o, obj, loc, v):
    """The scope itself refuses to close: an explicit raise after the yield whose guard
    looks at the very state that is left modified."""
    if o.kind != "raise":
        return False
    seen_yield = False
    for e in o.st.events:
        if e.kind == "yield":
            seen_yield = True
        elif e.kind == "raise" and seen_yield:
            return any(mentions(c, v) or mentions(c, ("attr", obj, loc)) for c, _ in o.st.conds)
    return False


REGISTER = ("register_parameter", "register_buffer")


def reregistered(st, obj, loc):
    """A deleted parameter/buffer put back after the yield through register_parameter or
    register_buffer under its own name with the object that was registered under that name."""
    if not (isinstance(loc, tuple) and loc[0] == "dyn"):
        return False
    key, last, seen = loc[1], None, False
    for e in st.events:
        if e.kind == "yield":
            seen = True
        elif e.kind == "call" and e.name.split(".")[-1] in REGISTER and e.obj == obj and evarg(e, 0, "name") == key:
            v = evarg(e, 1, "param", evarg(e, 1, "tensor"))
            last = (seen, v)
    if last is None or not last[0] or last[1] is None:
        return False
    v = last[1]
    return (v[0] == "item" and key[0] == "item" and v[1] == key[1] and v[2] != key[2]) or v == ("call", ("builtin", "getattr"), (obj, key), ())


def from_creator(ctx, cq, init, obj, loc, v):
    """The value an __exit__ writes back was handed to the constructor: every creator passes the
    value the location holds before the creator itself writes it."""
    if init is None or v[0] != "param" or v[1] not in init.all_params():
        return False
    if isinstance(loc, tuple) and loc[0] != "item":
        return False
    cname, ps, found, ok = cq.rsplit(".", 1)[1], init.params()[1:], 0, True
    for f in ctx.p.funcs.values():
        if f.module.name.startswith("fastforward.testing") or not any(isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, "id", None) == cname or getattr(n, "attr", None) == cname) for n in ast.walk(f.node)):
            continue
        for o in normals(run(ctx, f, inline=inline_same_module())):
            for e in events(o, "call", "class:" + cq):
                vals = {n: evarg(e, k, n) for k, n in enumerate(ps)}
                target = vals.get(obj[1]) if obj[0] == "param" else obj
                found += 1
                if isinstance(loc, tuple):
                    key = vals.get(loc[1][1]) if loc[1][0] == "param" else loc[1]
                    entry = (("item", target, key), ("call", ("attr", target, "get"), (key,), ()))
                    if key is not None and vals.get(v[1]) == NONE and (("cmp", "in", key, target), False) in o.st.conds:
                        continue
                else:
                    entry = (("attr", target, loc),)
                if target is None or vals.get(v[1]) not in entry:
                    ok = False
    return found > 0 and ok


def locname(obj, loc):
    if isinstance(loc, tuple):
        return f"{fmt(obj)}[{fmt(loc[1])}]"
    return fmt(obj) if loc == "@value" else f"{fmt(obj)}.{loc}"


def check(ctx):
    p = ctx.p
    models = flag_models(p)
    keep = lambda e: e.kind in ("yield", "setflag", "raise", "call") and (e.kind != "call" or e.name.split(".")[-1] in REGISTER)
    # ---------------------------------------------------------- generator managers
    for q, f in sorted(p.funcs.items()):
        if not f.is_cm or f.module.name.startswith("fastforward.testing"):
            continue
        outs = run(ctx, f, inline=inline_same_module(), keep=keep, yield_raises=True, models=models, types={})
        name = ".".join(q.rsplit(".", 2)[-2:]) if f.cls else q.rsplit(".", 1)[1]
        bad = {}
        for o in outs:
            for obj, loc, v in unrestored(o.st):
                ln = loc if isinstance(loc, str) else "item"
                if (name, ln) in EXEMPT or guard_raise(o, obj, loc, v) or reregistered(o.st, obj, loc):
                    continue
                bad.setdefault(locname(obj, loc), (o.kind, v))
        msg = "; ".join(f"{k} left as {fmt(v)} when the scope ends by {kind}" for k, (kind, v) in bad.items())
        ctx.check("generator-scope-restores", short(q), not bad, f.loc, msg)
    ctx.floor("generator-scope-restores", 8)
    # -------------------------------------------------------------- class managers
    for q, c in sorted(p.classes.items()):
        if q.startswith("fastforward.testing"):
            continue
        ex, en = c.methods.get("__exit__"), p.find_method(q, "__enter__")
        init = p.find_method(q, "__init__")
        if ex is None or en is None:
            continue
        closure = enclosing_env(ctx, q)
        bad = class_scope(ctx, p, q, init, en, ex, closure, models)
        msg = "; ".join(f"{k} left as {fmt(v)} ({kind})" for k, (kind, v) in bad.items())
        ctx.check("class-scope-restores", short(q), not bad, ex.loc, msg)
    ctx.floor("class-scope-restores", 6)
    # ------------------------------------------------------- flag writers elsewhere
    setters = {n for n, (_, role) in flag_names(p).items() if role == "setter"}
    hook_owner = {}
    for q, f in sorted(p.funcs.items()):
        if f.module.name in ("fastforward.flags", "fastforward") or f.module.name.startswith("fastforward.testing"):
            continue
        names = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(f.node) if isinstance(n, (ast.Attribute, ast.Name))}
        if not names & setters:
            continue
        if f.cls is not None and f.name in hook_methods(f.cls):
            hook_owner.setdefault(f.cls.qual, []).append(f)
            continue
        outs = run(ctx, f, inline=inline_same_module(), keep=keep, exc="calls", yield_raises=True, models=models)
        bad = [o for o in outs if any(obj[0] == "flag" for obj, _, _ in unrestored(o.st))]
        ctx.check("flag-write-restored", short(q), not bad, f.loc, "a global flag written here keeps its new value on some exit")
    for cq, fs in sorted(hook_owner.items()):
        check_hook_pair(ctx, p, p.classes[cq], models)
    ctx.floor("hook-pair-restores", 1)
    check_flag_decorator(ctx, p)


def hook_methods(c):
    """Methods of class c handed to torch's hook registration: {method: (kind, call node)}."""
    out = {}
    for m in c.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("register_forward_pre_hook", "register_forward_hook"):
                for a in list(n.args) + [k.value for k in n.keywords if k.arg == "hook"]:
                    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "self":
                        out[a.attr] = (n.func.attr, n)
    return out


def check_hook_pair(ctx, p, c, models):
    hooks = hook_methods(c)
    pre = [m for m, (k, _) in hooks.items() if k == "register_forward_pre_hook"]
    post = [(m, n) for m, (k, n) in hooks.items() if k == "register_forward_hook"]
    name = short(c.qual)
    if not pre or not post:
        ctx.check("hook-pair-restores", name, False, c.loc, "flag is set by a forward hook without a matching pre/post hook")
        return
    f1, (m2, n2) = c.methods[pre[0]], post[0]
    f2 = c.methods[m2]
    for kw, rule, why in (("always_call", "hook-runs-on-exception", "so the flag leaks when forward raises"), ("prepend", "hook-runs-in-reverse", "so nested handles on one module restore each other's value")):
        val = next((k.value for k in n2.keywords if k.arg == kw), None)
        ctx.check(rule, name, isinstance(val, ast.Constant) and val.value is True, f"{c.module.rel}:{n2.lineno}", f"the restoring forward hook is not registered with {kw}=True, {why}")
    # the hooks bracket a call; a module attached twice or called recursively nests them
    for depth in (1, 2):
        bad, wrote = [], False
        for st in hook_states(ctx, p, [f1] * depth + [f2] * depth):
            wrote = wrote or any(k[0][0] == "flag" for k in st.heap)
            bad += [u for u in unrestored(st) if u[0][0] == "flag"]
        ctx.check("hook-pair-restores", f"{name} nested {depth}", wrote and not bad, f2.loc, f"flag value after {depth} post hook(s) differs from the value before the pre hook(s)")


def hook_states(ctx, p, fs):
    sts = [State({})]
    first = fs[0]
    for g in fs:
        ctx.analysed.add(g.qual)
        nxt = []
        for st in sts:
            i = Interp(p, inline=inline_same_module(), models=flag_models(p))
            s = st.copy()
            env = {n: ("param", n) for n in g.all_params()}
            for a, b in zip(g.params()[:2], first.params()[:2]):
                env[a] = ("param", b)
            i.entry, i.param_types, i.stack = g, i._param_types(g), [g]
            s.env = env
            for o in i._body_result(i.block(g.node.body, s, g)):
                # the value saved by the pre hook is present in the post hook
                infeasible = any(b0 and c0[0] == "cmp" and c0[1] == "is" and c0[3] == NONE and c0[2][0] == "attr" and c0[2][1][0] == "flag" for c0, b0 in o.st.conds)
                if o.kind == "return" and not infeasible:
                    nxt.append(o.st)
        sts = nxt
    return sts


def enclosing_env(ctx, q):
    """Closure environment of a class defined inside a function."""
    if ".<locals>." not in q:
        return {}
    outer = q.rsplit(".<locals>.", 1)[0]
    f = ctx.p.funcs.get(outer)
    if f is None:
        return {}
    for o in Interp(ctx.p, inline=no_inline).run(f):
        if o.kind == "return":
            env = {k: v for k, v in o.st.env.items() if not k.startswith("@")}
            # calls through closures of the same frame
            return env
    return {}


def class_scope(ctx, p, cq, init, en, ex, closure, models):
    ctx.analysed.update(x.qual for x in (init, en, ex) if x is not None)
    selft = ("param", "self")
    bad = {}
    i = Interp(p, inline=inline_same_module(), models=models)

    def stage(f, states, argmap):
        res = []
        for st in states:
            s = st.copy()
            env = dict(closure)
            a = f.node.args
            for n in f.all_params():
                env[n] = argmap.get(n, ("param", n))
            if a.vararg:
                env[a.vararg.arg] = argmap.get("*", ("param", a.vararg.arg))
            if a.kwarg:
                env[a.kwarg.arg] = ("param", a.kwarg.arg)
            env[f.params()[0]] = selft
            env["@func"] = ("func", f.qual)
            s.env = env
            i.entry, i.stack = f, [f]
            i.param_types = i._param_types(f)
            i.types[selft] = cq
            for o in i._body_result(i.block(f.node.body, s, f)):
                if o.kind == "return":
                    res.append(o.st)
        return res

    sts = [State({})]
    if init is not None:
        sts = stage(init, sts, {})
    sts = stage(en, sts, {})
    for kind in ("normal", "exception"):
        ps = ex.params()[1:]
        vals = [NONE, NONE, NONE] if kind == "normal" else [("top", "etype"), ("top", "exc"), ("top", "tb")]
        am = dict(zip(ps, vals))
        am["*"] = ("tuple",) + tuple(vals)
        for st in sts:
            s0 = st
            if kind == "exception":
                for v in vals:
                    s0 = s0.cond(("cmp", "is", v, NONE), False).cond(v, True)
            for st2 in stage(ex, [s0], am):
                for obj, loc, v in unrestored(st2, own=(selft,)):
                    if not from_creator(ctx, cq, init, obj, loc, v):
                        bad.setdefault(locname(obj, loc), (kind + " exit", v))
    return bad


def check_flag_decorator(ctx, p):
    """Decorators of the flags module run the wrapped callable inside the scope."""
    m = p.module("fastforward.flags")
    for q, f in sorted(p.funcs.items()):
        if f.module.name != m.name or f.cls is not None or "<locals>" in q or f.name.startswith("_"):
            continue
        # decorator factories: return a function returning a wrapper that calls its argument
        outs = normals(run(ctx, f, inline=no_inline))
        for o in outs:
            if o.val[0] != "closure":
                continue
            i = Interp(p, inline=no_inline, exc="calls")
            i.entry, i.param_types, i.stack = f, {}, [f]
            fn = ("param", "func")
            r1 = [x for x in i.call(o.val, [fn], [], State({}), f, f.node) if x.kind == "value"]
            for x in r1:
                w = x.val
                while w[0] == "call" and w[2] and w[2][0][0] == "closure":
                    w = w[2][0]
                if w[0] != "closure":
                    continue
                i.stack = [f]
                ok = True
                for y in i.call(w, [("star", ("param", "args"))], [("**", ("param", "kwargs"))], x.st, f, f.node):
                    evs = [e for e in y.st.events if e.kind in ("enter", "exit") or (e.kind == "call" and e.name == "param:func")]
                    kinds = [e.kind for e in evs]
                    if "call" in kinds and not (kinds.index("enter") < kinds.index("call") if "enter" in kinds else False):
                        ok = False
                    if kinds.count("enter") != kinds.count("exit"):
                        ok = False
                    if y.kind == "value" and "call" not in kinds:
                        ok = False
                    if any(e.kind == "enter" and not any(flows(e.obj, ("param", pn)) for pn in f.params()[:1]) for e in evs):
                        ok = False
                ctx.check("flag-decorator-scopes-call", short(q), ok, f.loc, "the wrapped function is not called inside the flag's scope on every path")
