"""Shared helpers of the rules."""
from __future__ import annotations

import ast

from ..absint import _CLOSURES, Budget, Ev, Interp, Out, State, contains, fmt, mentions, neg, ref_name, walk
from ..project import FALSE, NONE, TRUE, AnalysisBroken, Func, const

FLAGMOD = "fastforward.flags"


def size(f: Func):
    return sum(isinstance(n, ast.stmt) for n in ast.walk(f.node))


def inline_same_module(*extra, maxsize=80, deny=()):
    """Inline helpers of the entry function's module (plus listed modules)."""

    def pol(f, i):
        if f.qual in deny or f.name in deny:
            return False
        return (f.module.name == i.entry.module.name or f.module.name in extra) and size(f) <= maxsize

    return pol


def inline_pkg(*prefixes, maxsize=80, deny=()):
    def pol(f, i):
        if f.qual in deny or f.name in deny:
            return False
        return any(f.module.name == p or f.module.name.startswith(p + ".") for p in prefixes) and size(f) <= maxsize

    return pol


def no_inline(f, i):
    return False


def flag_names(p):
    """Flags created in the flags module: {flag: (setter, getter, context)} derived from source."""
    m = p.module(FLAGMOD)
    tmp, out = {}, {}
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            tgt, v = st.targets[0].id, st.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.args and isinstance(v.args[0], ast.Constant):
                tmp[tgt] = v.args[0].value
            elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id in tmp:
                out[tgt] = (tmp[v.value.id], v.attr)
    return out


def flag_models(p):
    """Interpreter models: flag setters write, getters read, an abstract flag location."""
    models = {}
    for name, (flag, role) in flag_names(p).items():
        g = f"global:{FLAGMOD}.{name}"
        obj = ("flag", flag)
        if role == "setter":
            def setter(i, fn, args, kw, st, loc, f, obj=obj, flag=flag):
                v = args[0] if args else next(iter(kw.values()), NONE)
                old = st.heap.get((obj, "value"), ("attr", obj, "value"))
                st = i.emit(st, Ev("setflag", flag, obj, (), (), v, loc, f.qual)).hset((obj, "value"), v)
                return i.V(st, ("flagctx", obj, old))
            models[g] = setter
        elif role == "getter":
            def getter(i, fn, args, kw, st, loc, f, obj=obj):
                return i.V(st, st.heap.get((obj, "value"), ("attr", obj, "value")))
            models[g] = getter
    return models


def events(out, kind=None, name=None):
    for e in out.st.events:
        if (kind is None or e.kind == kind) and (name is None or e.name == name or (isinstance(name, (set, tuple, frozenset)) and e.name in name)):
            yield e


def run(ctx, f, **kw):
    if isinstance(f, str):
        f = ctx.func(f)
    args = kw.pop("args", None)
    i = Interp(ctx.p, **kw)
    outs = i.run(f, args)
    ctx.analysed.add(f.qual)
    ctx.analysed.update(i.inlined)
    return outs


def normals(outs):
    return [o for o in outs if o.kind == "return"]


def short(q):
    return q.replace("fastforward.", "", 1)


def calls_in(t, name=None):
    """Call subterms of a term, optionally by canonical callee name."""
    for x in walk(t):
        if x[0] == "call" and len(x) == 4 and (name is None or ref_name(x[1]) == name or (isinstance(name, (set, frozenset, tuple)) and ref_name(x[1]) in name)):
            yield x


def flows(t, sub, st=None):
    """Whether `sub` occurs in `t`, looking into contents of fresh containers."""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x == sub:
            return True
        if not isinstance(x, tuple) or x in seen:
            continue
        seen.add(x)
        if st is not None and x and x[0] == "fresh":
            stack.extend(st.heap.get((x, "@contents"), ()))
        stack.extend(y for y in x if isinstance(y, tuple))
    return False


def contents(t, st):
    """Element terms of a list-like term (fresh list, literal, comprehension)."""
    if t[0] == "fresh":
        return list(st.heap.get((t, "@contents"), ()))
    if t[0] in ("tuple", "list", "set"):
        return list(t[1:])
    if t[0] == "comp":
        return [t[2]]
    if t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("list", "tuple", "set", "sorted") and len(t[2]) == 1:
        return contents(t[2][0], st)
    return []


def arg(call, i, name, default=None):
    """Argument of a call term by position or keyword."""
    for k, v in call[3]:
        if k == name:
            return v
    if i is not None and i < len(call[2]) and not any(a[0] == "star" for a in call[2][: i + 1]):
        return call[2][i]
    return default


def evarg(ev, i, name, default=None):
    return arg(("call", NONE, ev.args, ev.kwargs), i, name, default)


def call_term(ctx, t, args, st=None, **kw):
    """Outcomes of calling the callable term `t` (a lambda, local function, ...) with the given terms."""
    df = _CLOSURES[t[1]][1] if t[0] == "closure" else next(iter(ctx.p.funcs.values()))
    i = Interp(ctx.p, inline=kw.pop("inline", inline_same_module()), **kw)
    i.entry, i.stack, i.param_types = df, [], {}
    return i.call(t, list(args), [], st or State({}), df, df.node)
