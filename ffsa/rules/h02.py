"""Export pipelines.  Every operation on the stage graph is interpreted for an arbitrary stage and
dependency; what it leaves in the dependency tables is compared with what the operation promises.  The
traversal, the execution loop and the result table are interpreted for an arbitrary stage.  The built-in
pipelines are evaluated to their stage graphs and checked against the signatures of the stages."""
from __future__ import annotations

from .common import *
from .g01 import FALSE, NONE, SELF, TRUE, fact, fun, meth, method, norm, paths, unwrap

ASSUMPTIONS = ["stage functions do not change the pipeline that runs them", "dictionaries keep insertion order"]
PIPE = "fastforward.export.pipeline"
CORE, ORCH, REGM = f"{PIPE}.core", f"{PIPE}.orchestrator", f"{PIPE}.registry"
P, SR, CTX = f"{CORE}.Pipeline", f"{CORE}.StageReference", f"{CORE}._ExecutionContext"
REG = f"{REGM}.PipelineRegistry"
STAGES = ("attr", SELF, "_stages")
TABLES = ("_stages", "_result_stages", "_evaluation_stages")


def check(ctx):
    references(ctx)
    registering(ctx)
    lookup(ctx)
    inserting(ctx)
    edges(ctx)
    reaching(ctx)
    building(ctx)
    executing(ctx)
    inputs(ctx)
    results(ctx)
    evaluation(ctx)
    registry(ctx)
    orchestrating(ctx)
    wiring(ctx)


def par(f, i):
    ps = f.params()
    return ("param", ps[i])


def pol(deny=()):
    return inline_same_module(deny=tuple(deny))


def deps(s):
    return ("attr", s, "_dependencies")


def keys_of(t):
    """The mapping whose keys, in order, the term is."""
    while True:
        t = unwrap(t)
        if meth(t, "keys") is not None:
            t = meth(t, "keys")
        elif t[0] == "comp" and len(t[3]) == 1 and not t[3][0][1] and t[2] == ("elem", t[3][0][0]):
            t = t[3][0][0]
        elif t[0] == "attr" and t[2] == "dependencies":
            return deps(t[1])
        else:
            return t


def table(t, name):
    return t == ("attr", SELF, name)


def is_call(e, cls, name):
    """Receiver of a call of this method, resolved or not."""
    return e.kind == "call" and (e.name == f"func:{cls}.{name}" or e.name == f"method:.{name}")


def cyc(o):
    return o.kind == "raise"


# ------------------------------------------------------------------ references
def references(ctx):
    f = method(ctx, "deps.add", SR, "depends_on")
    if f is not None:
        var = ("param", f.node.args.vararg.arg) if f.node.args.vararg else par(f, 1)
        el = ("elem", var)
        n = 0
        for o in paths(ctx, f, inline=pol(), loop_iters=(0, 1)):
            if o.kind != "return":
                ctx.check("deps.add", "depends_on", False, f.loc, f"adding a dependency fails: {fmt(o.val)[:80]}")
                continue
            ctx.check("deps.add", "result", o.val == SELF, f.loc, "depends_on does not return the stage")
            loops = [e for e in o.st.events if e.kind == "loop"]
            for e in loops:
                ctx.check("deps.add", "all dependencies", unwrap(e.obj) == var, f.loc, f"only {fmt(e.obj)[:80]} are added")
            had = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == el)
            puts = [e for e in o.st.events if e.kind == "setitem" and e.obj == deps(SELF)]
            dels = [e for e in o.st.events if e.kind in ("delitem", "setattr") and e.obj in (deps(SELF), SELF)]
            upd = [e for e in o.st.events if e.kind == "call" and e.name in ("method:.update", "method:.setdefault") and e.obj == deps(SELF)]
            if loops:
                n += 1
                if dels or upd:
                    ok = not dels
                    ctx.check("deps.add", "order", ok, f.loc, "adding a dependency moves dependencies it already has")
                    if not ok:
                        continue
                if had is not True:
                    ctx.check("deps.add", "new dependency", upd or any(e.args and e.args[0] == el for e in puts), f.loc, "a new dependency is not added")
                for e in puts:
                    ctx.check("deps.add", "key", e.args[0] == el, f.loc, f"{fmt(e.args[0])[:80]} is added instead of the dependency")
            else:
                ctx.check("deps.add", "nothing to add", not dels, f.loc, "depends_on without dependencies changes the dependencies")
        ctx.floor("deps.add", 1)
    f = method(ctx, "deps.order", SR, "dependencies")
    if f is not None:
        for o in normals(paths(ctx, f, inline=pol())):
            ctx.check("deps.order", "dependencies", keys_of(o.val) == deps(SELF), f.loc, f"the dependencies are given as {fmt(o.val)[:80]}")
    f = method(ctx, "deps.remove", SR, "_remove_dependency")
    if f is not None:
        D = par(f, 1)
        for o in paths(ctx, f, inline=pol()):
            has = fact(o, lambda c: c == ("cmp", "in", D, deps(SELF)))
            gone = [e for e in o.st.events if e.kind == "delitem" and e.obj == deps(SELF)]
            if o.kind == "return":
                if not any(e.kind == "setattr" for e in o.st.events):
                    ctx.check("deps.remove", "removed", len(gone) == 1 and gone[0].args[:1] == (D,), f.loc, "removing a dependency does not remove exactly it")
                ctx.check("deps.remove", "unknown", has is True or bool(gone) and not (gone[0].name == "pop" and has is None and len(gone[0].args) > 1), f.loc, "removing a dependency a stage does not have is not refused")
            else:
                ctx.check("deps.remove", "known", has is not True, f.loc, "removing a dependency a stage has is refused")


# ------------------------------------------------------------------ registration
def added(o):
    """Keys added to the tables of the pipeline."""
    out = {}
    for e in o.st.events:
        for t in TABLES:
            if e.kind == "setitem" and table(e.obj, t):
                out.setdefault(t, []).append((e.args[0], e.value))
    return out


def is_ref(t, fn, name):
    return t[0] == "call" and t[1] == ("class", SR) and arg(t, 0, "stage_fn") == fn and arg(t, 1, "name") == name


def registering(ctx):
    for mname, evaluates in (("register_stage", False), ("register_eval_stage", True)):
        f = method(ctx, "register.stage", P, mname)
        if f is None:
            continue
        fn, name, cap = par(f, 1), par(f, 2), par(f, 3)
        n = 0
        for o in paths(ctx, f, inline=pol()):
            dup = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == name)
            if dup is None:
                dup = fact(o, lambda c: c[0] == "cmp" and c[1] == "==" and name in c[2:])
            tabs = added(o)
            if o.kind == "raise":
                ctx.check("register.unique", mname, dup is True, f.loc, "a stage with a new name is refused")
                ctx.check("register.unique", mname + " state", not tabs, f.loc, "a refused stage is registered")
                continue
            n += 1
            ctx.check("register.unique", mname, dup is False, f.loc, "a second stage with the same name is accepted")
            ctx.check("register.stage", mname, is_ref(o.val, fn, name), f.loc, f"the registered stage is {fmt(o.val)[:80]}")
            c = fact(o, lambda c: c == cap or c[0] == "cmp" and c[1] in ("is", "==") and c[2] == cap and c[3] == TRUE)
            for t, want in (("_stages", True), ("_result_stages", c), ("_evaluation_stages", evaluates)):
                got = [k for k, _ in tabs.get(t, ())]
                if want is None:
                    ctx.check("register.capture", f"{mname} {t}", False, f.loc, "whether the output of a stage is captured does not depend on the request")
                    continue
                ctx.check("register.capture" if t == "_result_stages" else "register.stage", f"{mname} {t}", got == ([o.val] if want else []), f.loc, f"the stage is {'missing from' if want else 'put in'} {t}")
        ctx.floor("register.stage", 1)


def lookup(ctx):
    f = method(ctx, "lookup.stage", P, "get_stage")
    if f is None:
        return
    name = par(f, 1)
    el = ("elem", STAGES)
    n = 0

    def same(c):
        return c[0] == "cmp" and c[1] == "==" and set(c[2:]) <= {name, ("attr", el, "name"), ("val", STAGES), ("item", STAGES, el)} and name in c[2:] and len(set(c[2:])) == 2

    for o in paths(ctx, f, inline=pol(), loop_iters=(0, 1)):
        hit = fact(o, same)
        loops = [e for e in o.st.events if e.kind == "loop"]
        for e in loops:
            ctx.check("lookup.stage", "all stages", keys_of(e.obj) == STAGES or meth(e.obj, "items") == STAGES, f.loc, f"only {fmt(e.obj)[:80]} are looked at")
        v = o.val
        found = v if o.kind == "return" else next((c[2] for c, b in (norm(*x) for x in o.st.conds) if c[0] == "cmp" and c[1] == "is" and c[3] == NONE), None)
        if found is not None and found[0] == "call" and found[1] == ("builtin", "next") and found[2][0][0] == "comp":
            sub = seq(o, found[2][0])
            n += 1
            if sub is None or len(sub) != 1:
                ctx.skip("lookup.stage", "stage", f"{fmt(found)[:80]} was not recognised")
                continue
            ctx.check("lookup.stage", "name", len(sub[0][3]) == 1 and (x := norm(*sub[0][3][0]))[1] and same(x[0]) and sub[0][1] == STAGES, f.loc, "a stage is found under another name")
            ctx.check("lookup.stage", "stage", sub[0][2] == el, f.loc, f"{fmt(sub[0][2])[:80]} is found")
            continue
        if o.kind == "return":
            n += 1
            ctx.check("lookup.stage", "name", hit is True, f.loc, f"{fmt(o.val)[:80]} is found under another name")
            ctx.check("lookup.stage", "stage", o.val in (el, ("key", STAGES)), f.loc, f"{fmt(o.val)[:80]} is found")
        else:
            ctx.check("lookup.stage", "unknown", hit is not True, f.loc, "a registered stage is not found")
    ctx.floor("lookup.stage", 1)


# ------------------------------------------------------------------ inserting, replacing
def stage_of(t, name):
    """Whether the term is the stage registered under the name."""
    return t[0] == "call" and meth(t, "get_stage") == SELF and arg(t, 0, "name") == name


def new_of(o, fn):
    """The stage the operation creates."""
    out = []
    for e in o.st.events:
        if e.kind == "call" and e.name in (f"func:{P}.register_stage", f"func:{P}.register_eval_stage"):
            out.append((e, e.value))
    return out


STAGE_DENY = ("get_stage", "register_stage", "register_eval_stage", "depends_on")
EL = ("elem", STAGES)


def subst(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple):
        return t
    return tuple(subst(x, a, b) for x in t)


def canon(t):
    """`dependencies` is a view of the table of dependencies."""
    if not isinstance(t, tuple):
        return t
    t = tuple(canon(x) for x in t)
    return deps(t[1]) if len(t) == 3 and t[0] == "attr" and t[2] == "dependencies" else t


def seq(o, t, depth=0, calls=False):
    """What a term holds, in order: ("one", x) and ("each", source, element, conditions); None if unknown."""
    if depth > 6:
        return None
    t = canon(t)
    while True:
        t = unwrap(t)
        if t[0] == "call" and (t[1] == ("builtin", "reversed") and len(t[2]) == 1 or t[1] == ("builtin", "sorted") and t[2]):
            sub = seq(o, t[2][0], depth + 1, calls)
            flip = {"each": "reversed", "reversed": "each", "sorted": "sorted", "one": "one"} if t[1][1] == "reversed" else {"each": "sorted", "reversed": "sorted", "sorted": "sorted", "one": "sorted"}
            return None if sub is None else [(flip[x[0]],) + x[1:] for x in reversed(sub)]
        if t[0] == "call" and meth(t, "keys") is not None:
            t = meth(t, "keys")
        elif t[0] == "call" and t[1][0] in ("attr", "bound", "builtin", "ext") and str(t[1][-1] if t[1][0] != "bound" else t[1][1]).endswith("fromkeys") and t[2]:
            t = t[2][0]
        elif t[0] == "call" and t[1] == ("builtin", "dict") and len(t[2]) == 1:
            t = t[2][0]
        else:
            break
    if t[0] in ("attr", "param") or calls and (t[0] == "call" and t[1][0] in ("func", "bound", "builtin", "attr") or t[0] == "item" and t[2][0] == "slice"):
        return [("each", t, ("elem", t), ())]
    if t[0] in ("list", "tuple", "set", "dict"):
        out = []
        for x in t[1:]:
            if x[0] in ("star", "dstar"):
                sub = seq(o, x[1], depth + 1, calls)
                if sub is None:
                    return None
                out += sub
            else:
                out.append(("one", x[1] if x[0] == "pair" else x))
        return out
    if t[0] == "comp" and len(t[3]) == 1:
        it, conds = t[3][0]
        sub = seq(o, it, depth + 1, calls)
        if sub is None:
            return None
        elt = t[2][1] if t[1] == "dict" else t[2]
        out = []
        for x in sub:
            v = x[1] if x[0] == "one" else x[2]
            e, c = subst(elt, ("elem", it), v), tuple((subst(k, ("elem", it), v), b) for k, b in conds)
            if x[0] == "one":
                if c:
                    return None
                out.append(("one", e))
            else:
                out.append((x[0], x[1], e, x[3] + c))
        return out
    if t[0] == "fresh":
        out, loops = [], []
        for e in o.st.events:
            if e.kind == "loop":
                loops.append(e.obj)
            elif e.kind == "endloop" and loops:
                loops.pop()
            got = None
            if e.kind == "call" and e.obj == t:
                m = e.name.rsplit(".", 1)[-1]
                if m in ("append", "add"):
                    got = [("one", e.args[0])]
                elif m in ("extend", "update"):
                    got = seq(o, e.args[0], depth + 1, calls)
                elif m in ("keys", "values", "items", "get", "copy"):
                    continue
                else:
                    return None
                if got is None:
                    return None
            elif e.kind == "setitem" and e.obj == t:
                got = [("one", e.args[0])]
            elif e.kind == "aug" and e.obj == t and e.name in ("+", "|") and e.args:
                got = seq(o, e.args[0], depth + 1, calls)
                if got is None:
                    return None
            elif e.kind == "aug" and e.obj == t or e.kind == "delitem" and e.obj == t:
                return None
            if got is None:
                continue
            for it in reversed(loops):
                sub = seq(o, it, depth + 1, calls)
                if sub is None or len(sub) != 1:
                    return None
                if sub[0][0] == "one":
                    continue
                if any(x[0] != "one" for x in got):
                    return None
                if mentions_loop(got, sub[0]) or it == loops[-1] and len(loops) == 1:
                    got = [(sub[0][0], sub[0][1], x[1], sub[0][3]) for x in got]
                    break
                if it == loops[-1]:
                    got = [(sub[0][0], sub[0][1], x[1], sub[0][3]) for x in got]
                    break
            out += got
        return out
    return None


def mentions_loop(got, seg):
    return any(contains(x[1], lambda t: t == ("elem", seg[1])) for x in got)


def final(o, s, start):
    """The dependencies a stage ends with, and the last event that set them."""
    cur, last = list(start) if start is not None else None, None
    for e in o.st.events:
        add = None
        if e.kind == "call" and e.obj == s and (is_call(e, SR, "depends_on") or e.name == "@depends"):
            add = []
            for a in e.args:
                sub = seq(o, a[1]) if a[0] == "star" else [("one", a)]
                add = None if add is None or sub is None else add + sub
        elif e.kind == "setattr" and e.name == "_dependencies" and e.obj == s:
            cur, last = seq(o, e.value), e
            continue
        elif e.kind == "setitem" and e.obj == deps(s):
            add = [("one", e.args[0])]
        elif e.kind == "delitem" and e.obj == deps(s):
            last = e
            cur = None if cur is None else [("without", e.args[0])] + cur
            continue
        elif e.kind == "call" and e.obj == deps(s) and e.name.rsplit(".", 1)[-1] in ("clear", "update", "setdefault", "popitem"):
            return None, e
        else:
            continue
        last = e
        if add is None or cur is None:
            cur = None
        else:
            cur = cur + [x for x in add if x not in cur]
    return cur, last


def is_empty(o, src):
    for c, b in ((canon(c), b) for c, b in o.st.conds):
        c, b = norm(c, b)
        if c[0] == "nonempty":
            c = c[1]
            while c[0] == "comp" and len(c[3]) == 1 and not c[3][0][1]:
                c = c[3][0][0]
        if not b and c == src:
            return True
    return False


def holds(o, got, want):
    """Whether what was found is what is wanted, sources known to be empty left out; None if unknown."""
    if got is None:
        return None
    a = [x for x in got if x[0] == "one" or not is_empty(o, x[1])]
    b = [x for x in want if x[0] == "one" or not is_empty(o, x[1])]
    return a == b


def verdict(ctx, rule, con, ok, loc, msg):
    if ok is None:
        ctx.skip(rule, con, "what is left in the table was not recognised")
    else:
        ctx.check(rule, con, ok, loc, msg)


def chained(i, fn, args, kw, st, loc, g):
    """depends_on gives back the stage (which rule deps.add decides)."""
    base = fn[2] if fn[0] == "bound" else fn[1]
    kws = dict(kw) if not isinstance(kw, dict) else kw
    return i.V(i.emit(st, Ev("call", "@depends", base, tuple(args), tuple(kws.items()), NONE, loc, g.qual)), base)


CHAIN = {"method:.depends_on": chained, f"func:{SR}.depends_on": chained, f"bound:{SR}.depends_on": chained}


def stage_paths(ctx, f, deny=()):
    return paths(ctx, f, inline=pol(STAGE_DENY + tuple(deny)), types={EL: SR}, models=CHAIN, comp_events=True)


def rewired(ctx, rule, con, f, o, target, new):
    """Every stage that depends on `target` depends on `new` instead, at the same position."""
    S = EL
    loops = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "loop"]
    mine = []
    for k, e in loops:
        sub = seq(o, e.obj)
        if sub is not None and len(sub) == 1 and sub[0][0] == "each" and sub[0][1] == STAGES and sub[0][2] == S:
            mine.append((k, e, sub[0][3]))
        elif sub is None and contains(canon(e.obj), lambda t: t == STAGES):
            ctx.skip(rule, con, f"{fmt(e.obj)[:80]} was not recognised")
            return
    depends = ("cmp", "in", target, deps(S))
    cur, last = final(o, S, [("each", deps(S), ("elem", deps(S)), ())])
    if not mine:
        none = any(c[0] == "nonempty" and not b for c, b in (norm(*x) for x in o.st.conds)) or fact(o, lambda c: canon(c) == depends) is False
        other = last is None and any(canon(e.obj) is not None and contains(canon(e.obj), lambda t: t == STAGES) for e in o.st.events if e.obj is not None and e.kind == "loop")
        verdict(ctx, rule, con, None if other else none, f.loc, "the stages that depend on the target are not rewired")
        return
    k, e, conds = mine[-1]
    conds = [norm(canon(c), b) for c, b in conds]
    left = [c for c in conds if c != (depends, True) and not same_stage(c, S, new)]
    ctx.check(rule, con + " all dependents", not left, f.loc, f"stages that depend on the target are left out: {[fmt(c)[:60] for c, _ in left]}")
    if new is not None:
        # when the dependents are determined: by the first pass over the stages
        at = min([j for j, _, _ in mine] + [j for j, x in enumerate(o.st.events) if x.kind == "comp" and contains(x.value, lambda t: t == STAGES)])
        late = [j for j, x in enumerate(o.st.events) if x.kind == "call" and x.obj == new and (is_call(x, SR, "depends_on") or x.name == "@depends") and target in x.args]
        spared = any(same_stage(norm(c, b), S, new) for c, b in list(o.st.conds) + conds)
        ctx.check(rule, con + " itself", spared or not (late and at > late[0]), f.loc, "the new stage is rewired to depend on itself")
    has = True if (depends, True) in conds else fact(o, lambda c: canon(c) == depends)
    if has is False or is_empty(o, deps(S)) and has:
        return
    if any(same_stage(norm(c, not b), S, new) for c, b in o.st.conds):
        return
    if last is None:
        ended = any(x.kind == "endloop" for x in o.st.events[k:])
        ctx.check(rule, con, has is None or not ended, f.loc, "a stage that depends on the target is not rewired")
        return
    if cur is None:
        ctx.skip(rule, con, "what is left in the table was not recognised")
        return
    if cur and cur[0][0] == "without":
        ctx.check(rule, con + " order", False, f.loc, "the new stage is put behind the other dependencies of a dependent, whose inputs are positional" if ("one", new) in cur else "the new stage is no input of a dependent")
        return
    el = ("elem", deps(S))
    it = fact(o, lambda c: canon(c)[0] == "cmp" and c[1] in ("is", "==") and set(canon(c)[2:]) == {el, target})
    walked = any(x.kind == "loop" and (q := seq(o, x.obj)) is not None and len(q) == 1 and q[0][:2] == ("each", deps(S)) for x in o.st.events)
    segs = [("each", deps(S), x[1], ()) if x[0] == "one" and walked else x for x in cur]
    if len(segs) != 1 or segs[0][0] != "each" or segs[0][1] != deps(S) or segs[0][3]:
        ctx.check(rule, con + " other dependencies", False, f.loc, "a dependent loses or gains other dependencies")
        return
    key = segs[0][2]
    if key == new:
        ctx.check(rule, con + " edge", it is True, f.loc, "a dependency on another stage is replaced by the new stage")
    elif key == el:
        ctx.check(rule, con + " edge", it is False, f.loc, "the dependency on the target is kept")
    else:
        ctx.check(rule, con + " edge", False, f.loc, f"a dependency becomes {fmt(key)[:80]}")


def same_stage(c, S, new):
    return c in ((("cmp", "is", S, new), False), (("cmp", "==", S, new), False), (("cmp", "is", new, S), False), (("cmp", "==", new, S), False))


def inserting(ctx):
    f = method(ctx, "insert.before", P, "insert_stage_before")
    if f is not None:
        tgt, fn, name = par(f, 1), par(f, 2), par(f, 3)
        D = ("param", "depends_on")
        for o in stage_paths(ctx, f):
            if o.kind != "return":
                continue
            made = new_of(o, fn)
            if len(made) != 1:
                ctx.check("insert.before", "new stage", False, f.loc, f"{len(made)} stages are registered")
                continue
            e, new = made[0]
            created(ctx, "insert.before", f, o, e, new, fn, name, ("param", "capture_stage_output"))
            T = target_of(o, tgt)
            if T is None:
                ctx.check("insert.before", "target", False, f.loc, "the target is not looked up")
                continue
            mine, _ = final(o, new, [])
            its, touched = final(o, T, [("each", deps(T), ("elem", deps(T)), ())])
            auto = fact(o, lambda c: c == ("cmp", "is", D, NONE))
            if auto is None and fact(o, lambda c: c == D) is not None:
                ctx.check("insert.before", "explicit dependencies", False, f.loc, "an empty list of explicit dependencies counts as none given")
                continue
            if auto is True:
                verdict(ctx, "insert.before", "inherits", holds(o, mine, [("each", deps(T), ("elem", deps(T)), ())]), f.loc, "the new stage does not inherit the dependencies of the target in order")
                verdict(ctx, "insert.before", "target", holds(o, its, [("one", new)]), f.loc, "the target does not depend on exactly the new stage")
            else:
                ctx.check("insert.before", "target untouched", touched is None, f.loc, "the dependencies of the target change although they were given explicitly")
                want = {("call", ("bound", f"{P}.get_stage", SELF), (("elem", D),), ()), ("call", ("attr", SELF, "get_stage"), (("elem", D),), ())}
                ok = None if mine is None else any(holds(o, mine, [("each", D, w, ())]) for w in want)
                verdict(ctx, "insert.before", "explicit dependencies", ok, f.loc, "the new stage does not depend on exactly the stages that were named")
        ctx.floor("insert.before", 1)
    f = method(ctx, "insert.after", P, "insert_stage_after")
    if f is not None:
        tgt, fn, name = par(f, 1), par(f, 2), par(f, 3)
        for o in stage_paths(ctx, f):
            if o.kind != "return":
                continue
            made = new_of(o, fn)
            if len(made) != 1:
                ctx.check("insert.after", "new stage", False, f.loc, f"{len(made)} stages are registered")
                continue
            e, new = made[0]
            created(ctx, "insert.after", f, o, e, new, fn, name, ("param", "capture_stage_output"))
            T = target_of(o, tgt)
            if T is None:
                ctx.check("insert.after", "target", False, f.loc, "the target is not looked up")
                continue
            verdict(ctx, "insert.after", "dependency", holds(o, final(o, new, [])[0], [("one", T)]), f.loc, "the new stage does not depend on exactly the target")
            ctx.check("insert.after", "target", final(o, T, [])[1] is None, f.loc, "the dependencies of the target change")
            rewired(ctx, "insert.after", "dependents", f, o, T, new)
        ctx.floor("insert.after", 1)
    f = method(ctx, "replace.stage", P, "replace_stage")
    if f is not None:
        tgt, fn, name = par(f, 1), par(f, 2), par(f, 3)
        cap = ("param", "capture_stage_output")
        for o in stage_paths(ctx, f):
            T = target_of(o, tgt)
            if T is None:
                ctx.check("replace.stage", "target", False, f.loc, "the target is not looked up")
                continue
            gone = {t: [k for k, e in enumerate(o.st.events) if e.kind == "delitem" and table(e.obj, t) and e.args[:1] == (T,)] for t in TABLES}
            other = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] in (name, ("attr", T, "name")) and contains(c[3], lambda t: t == STAGES))
            if o.kind == "raise":
                if any(gone.values()) and next((e.func for e in reversed(o.st.events) if e.kind == "raise"), f.qual) != f.qual:
                    continue
                ctx.check("replace.stage", "refused", not any(gone.values()), f.loc, "a refused replacement removes the stage")
                ctx.check("replace.stage", "refused", other is True, f.loc, "a replacement with a free name is refused")
                continue
            ctx.check("replace.stage", "unique name", own_name(o, name, T) or other is False, f.loc, "the name of another stage is accepted")
            made = new_of(o, fn)
            if len(made) != 1:
                ctx.check("replace.stage", "new stage", False, f.loc, f"{len(made)} stages are registered")
                continue
            e, new = made[0]
            was_eval = fact(o, lambda c: c == ("cmp", "in", T, ("attr", SELF, "_evaluation_stages")))
            ctx.check("replace.stage", "evaluation", was_eval is (e.name.endswith("register_eval_stage")), f.loc, "a replacement of an evaluation stage is none, or the other way round")
            given_name = fact(o, lambda c: c == ("cmp", "is", name, NONE))
            want = name if given_name is False else ("attr", T, "name")
            got = evarg(e, 1, "name")
            if given_name is None and fact(o, lambda c: c == name) is not None:
                want = name if fact(o, lambda c: c == name) else ("attr", T, "name")
            ctx.check("replace.stage", "name", got == want or got == name and own_name(o, name, T), f.loc, f"the replacement is called {fmt(got)[:60]}")
            ctx.check("replace.stage", "callable", evarg(e, 0, "stage_fn") == fn, f.loc, "the replacement has another callable")
            inherits = fact(o, lambda c: c == ("cmp", "is", cap, NONE))
            c = evarg(e, 2, "capture_stage_output", FALSE)
            was = ("cmp", "in", T, ("attr", SELF, "_result_stages"))
            w = fact(o, lambda c: c == was)
            if inherits is None:
                ctx.check("replace.stage", "capture", False, f.loc, "whether the output is captured does not depend on the request")
            elif inherits:
                ctx.check("replace.stage", "capture", c == was or w is not None and c == const(w), f.loc, f"the replacement captures its output if {fmt(c)[:80]}")
            else:
                ctx.check("replace.stage", "capture", c == cap, f.loc, f"the replacement captures its output if {fmt(c)[:80]}")
            at = o.st.events.index(e)
            for t in TABLES:
                known = True if t == "_stages" else was_eval if t == "_evaluation_stages" else w
                ctx.check("replace.stage", f"removed {t}", known is False or len(gone[t]) == 1, f.loc, f"the replaced stage stays in {t}")
            ctx.check("replace.stage", "name freed", not gone["_stages"] or gone["_stages"][0] < at, f.loc, "the replacement is registered while its name is still taken")
            verdict(ctx, "replace.stage", "inherits", holds(o, final(o, new, [])[0], [("each", deps(T), ("elem", deps(T)), ())]), f.loc, "the replacement does not inherit the dependencies of the stage in order")
            ctx.check("replace.stage", "result", o.val == new, f.loc, "another stage is returned")
            rewired(ctx, "replace.stage", "dependents", f, o, T, new)
        ctx.floor("replace.stage", 1)


def own_name(o, name, T):
    """Whether the path knows that the name is the target's own."""
    if fact(o, lambda c: c == ("cmp", "is", name, NONE)) is True:
        return True
    return fact(o, lambda c: c[0] == "cmp" and c[1] == "==" and name in c[2:] and ("attr", T, "name") in c[2:]) is True


def target_of(o, name):
    return next((x.value for x in o.st.events if x.kind == "call" and x.value is not None and stage_of(x.value, name)), None)


def created(ctx, rule, f, o, e, new, fn, name, cap):
    ctx.check(rule, "new stage", evarg(e, 0, "stage_fn") == fn and evarg(e, 1, "name") == name and evarg(e, 2, "capture_stage_output", FALSE) == cap and e.name == f"func:{P}.register_stage", f.loc, f"the new stage is registered with {[fmt(a)[:40] for a in e.args]}")
    ctx.check(rule, "result", o.val == new, f.loc, "another stage is returned")
    at = o.st.events.index(e)
    late = [x for x in o.st.events[at:] if x.kind == "call" and x.name == f"func:{P}.get_stage"]
    ctx.check(rule, "atomic", not late, f.loc, "the stage is registered before all names are known to exist")


def edges(ctx):
    f = method(ctx, "edges.acyclic", P, "add_dependency")
    if f is not None:
        S, D = par(f, 1), par(f, 2)
        n = 0
        for o in paths(ctx, f, inline=pol(STAGE_DENY + ("_reaches",))):
            reach = [(c, b) for c, b in (norm(*x) for x in o.st.conds) if c[0] == "call" and meth(c, "_reaches") is not None]
            adds = [e for e in o.st.events if is_call(e, SR, "depends_on")]
            if o.kind == "raise":
                ctx.check("edges.acyclic", "refused", not adds, f.loc, "a refused dependency is added")
                continue
            n += 1
            ctx.check("edges.acyclic", "edge", len(adds) == 1 and stage_of(adds[0].obj, S) and len(adds[0].args) == 1 and stage_of(adds[0].args[0], D), f.loc, "another edge is added")
            if not reach:
                ctx.skip("edges.acyclic", "add_dependency", "the test for cycles was not found") if any(c[0] == "call" for c, _ in o.st.conds) else ctx.check("edges.acyclic", "cycle", False, f.loc, "an edge is added without looking for a cycle")
                continue
            c, b = reach[0]
            ctx.check("edges.acyclic", "cycle", b is False and len(c[2]) == 2 and stage_of(c[2][0], D) and stage_of(c[2][1], S), f.loc, "an edge is added although the dependency depends on the stage")
        ctx.floor("edges.acyclic", 1)
    f = method(ctx, "edges.remove", P, "remove_dependency")
    if f is not None:
        S, D = par(f, 1), par(f, 2)
        for o in normals(paths(ctx, f, inline=pol(STAGE_DENY + ("_remove_dependency",)))):
            rem = [e for e in o.st.events if is_call(e, SR, "_remove_dependency") or e.kind == "delitem"]
            ctx.check("edges.remove", "remove_dependency", len(rem) == 1 and (stage_of(rem[0].obj, S) or rem[0].obj[0] == "attr" and stage_of(rem[0].obj[1], S)) and len(rem[0].args) == 1 and stage_of(rem[0].args[0], D), f.loc, "another edge is removed")


def reaching(ctx):
    """The search for cycles looks at every stage behind the dependency."""
    f = method(ctx, "edges.reach", P, "_reaches")
    if f is None:
        return
    src, dst = par(f, 1), par(f, 2)
    n = 0
    for o in paths(ctx, f, inline=pol(), loop_iters=(0, 1)):
        if o.kind != "return":
            ctx.check("edges.reach", "search", False, f.loc, "the search fails")
            continue
        if o.val == TRUE or o.val == FALSE:
            pass
        elif o.val[0] not in ("const",):
            ctx.skip("edges.reach", "search", f"{fmt(o.val)[:80]} was not recognised")
            continue
        eqs = [(c, b) for c, b in (norm(*x) for x in o.st.conds) if c[0] == "cmp" and c[1] in ("is", "==") and dst in c[2:]]
        hit = [b for c, b in eqs]
        ctx.check("edges.reach", "found", (o.val == TRUE) == (True in hit), f.loc, f"the search says {fmt(o.val)} although the stage was {'' if True in hit else 'not '}found")
        n += 1
        for c, b in eqs:
            if b:
                continue
            cur = c[2] if c[3] == dst else c[3]
            seen = fact(o, lambda x: x[0] == "cmp" and x[1] == "in" and x[2] == cur)
            if seen is True:
                continue
            ext = [e for e in o.st.events if e.kind == "call" and e.name in ("method:.extend", "method:.update", "method:.append", "method:.add", "method:.extendleft")]
            more = [e for e in ext if e.args and any(keys_of(a) == deps(cur) or a == ("elem", deps(cur)) for a in e.args)]
            ctx.check("edges.reach", "continues", bool(more) or is_empty(o, deps(cur)) or any(e.kind == "loop" and keys_of(e.obj) == deps(cur) for e in o.st.events), f.loc, "the search does not continue with all dependencies of a stage")
    ctx.floor("edges.reach", 1)


# ------------------------------------------------------------------ order
def building(ctx):
    """Depth first traversal: a stage is placed once, after all of its dependencies."""
    f = method(ctx, "build.order", P, "_build_pipeline")
    if f is None:
        return
    cands = [g for q, g in ctx.p.funcs.items() if q.startswith(f.qual + ".<locals>.") or q.startswith(CORE + ".") and "<locals>" not in q and q != f.qual]
    called = {x.func.id if isinstance(x.func, ast.Name) else x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute))}

    def recursive(g):
        return any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == g.name or isinstance(x.func, ast.Attribute) and x.func.attr == g.name) for x in ast.walk(g.node))

    rec = [g for g in cands if g.name in called and recursive(g)]
    if len(rec) != 1:
        ctx.skip("build.order", "_build_pipeline", "the traversal was not recognised")
        return
    visit(ctx, f, rec[0])
    tgt = par(f, 1)
    name = rec[0].name

    def visited(i, fn, args, kw, st, loc, g):
        return i.V(i.emit(st, Ev("call", "@visit", NONE, tuple(args), tuple(kw.items()) if isinstance(kw, dict) else tuple(kw), NONE, loc, g.qual)), NONE)

    n = 0
    for o in paths(ctx, f, inline=lambda g, i: g.qual != rec[0].qual and g.module.name == CORE, loop_iters=(0, 1), models={p + rec[0].qual: visited for p in ("closure:", "func:", "bound:")} | {f"method:.{name}": visited}):
        known = fact(o, lambda c: c == ("cmp", "in", tgt, STAGES))
        given = fact(o, lambda c: c in (tgt,))
        if given is None:
            isn = fact(o, lambda c: c == ("cmp", "is", tgt, NONE))
            given = None if isn is None else not isn
        if o.kind == "raise":
            ctx.check("build.target", "unknown target", known is False, f.loc, "a known target is refused")
            continue
        n += 1
        if given:
            ctx.check("build.target", "known target", known is True, f.loc, "an unknown target is accepted")
        calls = [e for e in o.st.events if e.kind == "call" and e.name == "@visit"]
        loops = [e for e in o.st.events if e.kind == "loop"]
        for e in loops:
            base = keys_of(e.obj)
            whole = base == STAGES or e.obj == ("list", tgt) or e.obj == ("tuple", tgt) or e.obj[0] == "call" and unwrap(e.obj) in (("list", tgt), ("tuple", tgt))
            ctx.check("build.all", "stages", whole and not (given is not True and base != STAGES) or given is True and whole, f.loc, f"the pipeline is built from {fmt(e.obj)[:80]}")
        if not loops and not calls and not any(c[0] == "nonempty" and not b for c, b in o.st.conds):
            ctx.check("build.all", "stages", False, f.loc, "no stage is visited")
    ctx.floor("build.target", 1)


def visit(ctx, f, g):
    i = Interp(ctx.p, inline=lambda h, i: h.module.name == CORE and h.qual != g.qual, merge=False, distinct=True, loop_iters=(0, 1))
    outs = i.run(g)
    ctx.analysed.add(g.qual)
    pos = [k for k, x in enumerate(g.params()) if any(contains(e.obj, lambda t: t == deps(("param", x))) for o in outs for e in o.st.events if e.kind == "loop")]
    if not pos:
        ctx.check("build.all", "dependencies", False, g.loc, "the dependencies of a stage are not visited")
        return
    s = ("param", g.params()[pos[0]])
    n = 0
    el = ("elem", deps(s))
    for o in outs:
        if any((c, not b) in {norm(*x) for x in o.st.conds} for c, b in (norm(*x) for x in o.st.conds)):
            continue
        ins = [(c, b) for c, b in (norm(*x) for x in o.st.conds) if c[0] == "cmp" and c[1] == "in" and c[2] == s]
        puts = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "call" and e.name in ("method:.append",) and e.args == (s,)]
        recs = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "call" and e.name.rsplit(".", 1)[-1].rsplit(":", 1)[-1] == g.name]
        loops = [(k, e) for k, e in enumerate(o.st.events) if e.kind == "loop"]
        known = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == el and keys_of(c[3])[0] == "attr" and keys_of(c[3])[2] == "_stages")
        if o.kind == "raise":
            ctx.check("build.refused", "refused", True in [b for _, b in ins] or known is False, g.loc, "a stage is refused without a cycle or an unknown dependency")
            ctx.check("build.refused", "refused", not puts, g.loc, "a refused stage is placed")
            continue
        n += 1
        if not puts:
            ctx.check("build.once", "skipped", True in [b for _, b in ins] and not recs, g.loc, "a stage that was not placed before is left out")
            continue
        # the sets the stage is looked for in and put into
        looked = [c[3] for c, b in ins if not b]
        addset = [e.obj for e in o.st.events if e.kind == "call" and e.name == "method:.add" and e.args == (s,)]
        addset += [e.obj for _, e in puts]
        addset += [e.obj for e in o.st.events if e.kind == "setitem" and e.args[:1] == (s,)]
        last = {}
        for k, e in enumerate(o.st.events):
            if e.kind == "call" and e.name == "method:.add" and e.args == (s,):
                last[e.obj] = True
            if e.kind == "call" and e.name in ("method:.remove", "method:.discard") and e.args == (s,) or e.kind == "delitem" and e.args[:1] == (s,):
                last[e.obj] = False
        done = [x for x in looked if last.get(x) or any(e.obj == x for _, e in puts)]
        ctx.check("build.once", "placed once", len(puts) == 1 and bool(done), g.loc, "a stage can be placed twice")
        pend = [x for x in looked if x in addset and any(k < (recs[0][0] if recs else 10**9) for k, e in enumerate(o.st.events) if e.kind == "call" and e.name == "method:.add" and e.obj == x and e.args == (s,))]
        if recs:
            ctx.check("build.cycle", "cycle", bool(pend), g.loc, "a cycle is not noticed before its dependencies are visited")
        for k, e in loops:
            ctx.check("build.all", "dependencies", keys_of(e.obj) == deps(s), g.loc, f"only {fmt(e.obj)[:80]} are visited")
        empty = any(c == ("nonempty", deps(s)) and not b for c, b in o.st.conds) or any(c[0] == "nonempty" and not b for c, b in o.st.conds)
        if not loops:
            ctx.check("build.all", "dependencies", empty, g.loc, "the dependencies of a stage are not visited")
            continue
        good = [k for k, e in recs if el in e.args]
        ctx.check("build.order", "dependency", bool(good), g.loc, "a dependency is not visited")
        ctx.check("build.order", "after its dependencies", good and puts[0][0] > max(good) and not any(e.kind == "loop" for k, e in enumerate(o.st.events) if k > puts[0][0]), g.loc, "a stage is placed before its dependencies")
        ends = [k for k, e in enumerate(o.st.events) if e.kind == "endloop"]
        ctx.check("build.order", "all dependencies", bool(ends) and ends[0] < puts[0][0] and o.st.events[ends[0]].name == "for", g.loc, "a stage is placed before all its dependencies are visited")
        ctx.check("build.unknown", "unknown dependency", known is True, g.loc, "a dependency that is not part of the pipeline is run")
    ctx.floor("build.order", 1)


# ------------------------------------------------------------------ execution
def executing(ctx):
    f = method(ctx, "run.stages", P, "_execute_pipeline")
    if f is None:
        return
    pl, mod, smp = par(f, 1), par(f, 2), par(f, 3)
    st = ("elem", pl)
    n = 0
    for o in paths(ctx, f, inline=pol(("resolve_stage_inputs", "save_result")), loop_iters=(0, 1), types={st: SR}):
        if o.kind != "return":
            continue
        X = o.val
        if not (X[0] == "call" and X[1] == ("class", CTX)):
            ctx.skip("run.stages", "_execute_pipeline", f"{fmt(X)[:80]} was not recognised")
            continue
        ctx.check("run.context", "input", arg(X, 0, "pipeline_input") == mod, f.loc, "the pipeline runs on another module")
        ctx.check("run.context", "samples", arg(X, 2, "sample_inputs") == smp, f.loc, "the pipeline runs on other samples")
        kw = arg(X, 1, "pipeline_kwargs")
        opts = ("attr", SELF, "_pipeline_kwargs")
        ctx.check("run.context", "options", kw is not None and contains(kw, lambda t: t == opts), f.loc, "the stages do not see the options")
        ctx.check("run.context", "options copied", kw != opts, f.loc, "a stage that changes the options changes the pipeline")
        res = arg(X, 3, "results")
        ctx.check("run.context", "results", res is None or res in (("dict",), ("call", ("builtin", "dict"), (), ())) or res[0] == "fresh", f.loc, "the results of a run are shared with others")
        loops = [e for e in o.st.events if e.kind == "loop"]
        for e in loops:
            ctx.check("run.stages", "order", unwrap(e.obj) == pl, f.loc, f"the stages are run as {fmt(e.obj)[:80]}")
        if not loops:
            continue
        n += 1
        ins = [e for e in o.st.events if is_call(e, CTX, "resolve_stage_inputs")]
        runs = [e for e in o.st.events if e.kind == "call" and e.value is not None and e.value[0] == "call" and e.value[1] == ("attr", st, "stage_fn")]
        saves = [e for e in o.st.events if is_call(e, CTX, "save_result")] + [e for e in o.st.events if e.kind == "setitem" and e.obj == ("attr", X, "results")]
        ctx.check("run.stages", "once", len(runs) == 1, f.loc, f"a stage is run {len(runs)} times")
        ctx.check("run.stages", "inputs", len(ins) == 1 and ins[0].args[:1] == (st,) and ins[0].obj == X, f.loc, "a stage gets the inputs of another one")
        if len(runs) == 1 and len(ins) == 1:
            v = runs[0].value
            I = ins[0].value
            ok = v[2] == (("star", ("item", I, const(0))),) and v[3] in ((("**", ("item", I, const(1))),), ((None, ("item", I, const(1))),))
            if not ok and v[2] and v[2][0][0] == "star":
                ok = v[2][0][1][0] in ("item", "idx", "elem") and len(v[3]) == 1 and contains(v[3][0][1], lambda t: t == I) and contains(v[2][0][1], lambda t: t == I) and v[2][0][1] != v[3][0][1]
            ctx.check("run.stages", "arguments", ok, f.loc, f"a stage is called as {fmt(v)[:120]}")
            ctx.check("run.stages", "saved", len(saves) == 1 and saves[0].args[:1] == (st,) and (saves[0].args[1:] == (v,) or saves[0].value == v), f.loc, "the result of a stage is not saved under it")
            ctx.check("run.stages", "complete", any(e.kind == "endloop" and e.name == "for" for e in o.st.events), f.loc, "the run stops before all stages ran")
    ctx.floor("run.stages", 1)
    f = method(ctx, "run.results", CTX, "save_result")
    if f is not None:
        for o in normals(paths(ctx, f, inline=pol())):
            puts = [e for e in o.st.events if e.kind == "setitem" and e.obj == ("attr", SELF, "results")]
            ctx.check("run.results", "save_result", len(puts) == 1 and puts[0].args[0] == par(f, 1) and puts[0].value == par(f, 2), f.loc, "the result is not saved under its stage")
    f = method(ctx, "run.results", CTX, "get_results")
    if f is not None:
        for o in normals(paths(ctx, f, inline=pol())):
            ctx.check("run.results", "get_results", o.val == ("item", ("attr", SELF, "results"), par(f, 1)), f.loc, f"{fmt(o.val)[:80]} is given as the result")


def inputs(ctx):
    f = method(ctx, "run.inputs", CTX, "resolve_stage_inputs")
    if f is None:
        return
    s = par(f, 1)
    n = 0
    res = ("attr", SELF, "results")
    for o in normals(paths(ctx, f, inline=pol(), types={s: SR})):
        v = o.val
        if v[0] != "tuple" or len(v) != 3:
            ctx.skip("run.inputs", "resolve_stage_inputs", f"{fmt(v)[:80]} was not recognised")
            continue
        a, kw = v[1], v[2]
        has = None
        for c, b in o.st.conds:
            c, b = norm(c, b)
            if c in (("nonempty", deps(s)), deps(s), ("attr", s, "dependencies")) or c[0] == "nonempty" and keys_of(c[1]) == deps(s) or c[0] == "call" and c[1] == ("builtin", "tuple") and keys_of(c) == deps(s):
                has = b
        if a[0] == "tuple" and len(a) == 2:
            m = a[1]
        else:
            ctx.check("run.inputs", "argument", False, f.loc, f"a stage gets {fmt(a)[:80]} instead of one tuple")
            continue
        n += 1
        if m == ("tuple", ("attr", SELF, "pipeline_input")):
            ctx.check("run.inputs", "roots", has is False, f.loc, "a stage with dependencies gets the module")
        else:
            c = unwrap(m)
            ok = c[0] == "comp" and len(c[3]) == 1 and not c[3][0][1] and keys_of(c[3][0][0]) == deps(s) and c[2] in (("item", res, ("elem", c[3][0][0])), ("call", ("bound", f"{CTX}.get_results", SELF), (("elem", c[3][0][0]),), ()))
            if not ok and m[0] == "call" and m[1] == ("builtin", "tuple") and m[2]:
                inner = m[2][0]
                ok = inner[0] == "call" and inner[1] == ("builtin", "map") and len(inner[2]) == 2 and keys_of(inner[2][1]) == deps(s)
            ctx.check("run.inputs", "dependencies", ok, f.loc, f"a stage gets {fmt(m)[:100]} instead of the results of its dependencies in order")
            ctx.check("run.inputs", "roots", has is not False, f.loc, "a stage without dependencies does not get the module")
        pairs = {}
        if kw[0] == "dict":
            for e in kw[1:]:
                if e[0] == "pair" and e[1][0] == "const":
                    pairs[e[1][2]] = e[2]
                elif len(e) == 2 and e[0][0] == "const":
                    pairs[e[0][2]] = e[1]
        elif kw[0] == "fresh":
            for (ob, k), val in o.st.heap.items():
                if ob == kw and isinstance(k, tuple) and k[0] == "item" and k[1][0] == "const":
                    pairs[k[1][2]] = val
        else:
            ctx.skip("run.inputs", "keywords", f"{fmt(kw)[:80]} was not recognised")
            continue
        ctx.check("run.inputs", "samples", pairs.get("sample_inputs") == ("attr", SELF, "sample_inputs"), f.loc, "a stage does not get the samples")
        ctx.check("run.inputs", "options", pairs.get("context") == ("attr", SELF, "pipeline_kwargs"), f.loc, "a stage does not get the options")
    ctx.floor("run.inputs", 1)


def results(ctx):
    f = method(ctx, "run.outputs", P, "__call__")
    if f is None:
        return
    mod, smp = par(f, 1), par(f, 2)
    last = ("param", "_return_last")
    n = 0
    for o in normals(paths(ctx, f, inline=pol(("_build_pipeline", "_execute_pipeline", "_compare_eval_stages", "get_results")))):
        runs = [e for e in o.st.events if is_call(e, P, "_execute_pipeline")]
        builds = [e for e in o.st.events if is_call(e, P, "_build_pipeline")]
        if len(runs) != 1 or len(builds) != 1:
            ctx.check("run.outputs", "run", len(runs) == 1, f.loc, f"the pipeline runs {len(runs)} times")
            continue
        n += 1
        B, X = builds[0].value, runs[0].value
        ctx.check("run.outputs", "all stages", not builds[0].args and not builds[0].kwargs or builds[0].args == (NONE,), f.loc, "only a part of the pipeline is built")
        ctx.check("run.outputs", "run", evarg(runs[0], 0, "pipeline") == B and evarg(runs[0], 1, "module") == mod and evarg(runs[0], 2, "sample_inputs") == smp, f.loc, "the pipeline is run on something else")
        v = o.val
        if v[0] != "tuple" or len(v) != 3:
            ctx.check("run.outputs", "outputs", False, f.loc, f"a run gives {fmt(v)[:80]}")
            continue
        ev = [e for e in o.st.events if is_call(e, P, "_compare_eval_stages")]
        ctx.check("run.outputs", "evaluation", len(ev) == 1 and v[2] == ev[0].value and evarg(ev[0], 0, "results") == ("attr", X, "results"), f.loc, "the comparison of the evaluation stages is not given")
        if len(ev) == 1:
            m = evarg(ev[0], 1, "eval_metric")
            dflt = fact(o, lambda c: c == ("cmp", "is", ("param", "eval_metric"), NONE))
            given = not dflt if dflt is not None else fact(o, lambda c: c == ("param", "eval_metric"))
            ctx.check("run.outputs", "metric", m is not None and (given is not False if m == ("param", "eval_metric") else given is False or m[0] != "ext" and contains(m, lambda t: t == ("param", "eval_metric"))), f.loc, "the comparison uses another metric")
        wants = fact(o, lambda c: c == last)
        d = v[1]
        if wants is True:
            lastst = [t for t in walk(d) if t[0] == "item" and t[1] == B]
            ctx.check("run.outputs", "last stage", bool(lastst) and all(t[2] == const(-1) for t in lastst), f.loc, f"the last stage is {[fmt(t) for t in lastst][:2]}")
            continue
        ok = d[0] == "comp" and d[1] == "dict" and d[2][0] == "pair" and len(d[3]) == 1 and not d[3][0][1] and keys_of(d[3][0][0]) == ("attr", SELF, "_result_stages")
        if d[0] != "comp":
            ctx.skip("run.outputs", "outputs", f"{fmt(d)[:80]} was not recognised")
            continue
        el = ("elem", d[3][0][0])
        ok = ok and d[2][1] == ("attr", el, "name") and (d[2][2] == ("item", ("attr", X, "results"), el) or meth(d[2][2], "get_results") == X and d[2][2][2] == (el,))
        ctx.check("run.outputs", "captured", ok, f.loc, f"a run gives {fmt(d)[:120]} instead of the results of the captured stages by name")
    ctx.floor("run.outputs", 1)


def evaluation(ctx):
    f = method(ctx, "eval.stages", P, "_compare_eval_stages")
    if f is not None:
        R, M = par(f, 1), par(f, 2)
        for o in normals(paths(ctx, f, inline=no_inline)):
            v = o.val
            comps = [t for t in walk(v) if t[0] == "comp" and t[1] == "dict"]
            if contains(v, lambda t: t == R) and not contains(v, lambda t: t == ("attr", SELF, "_evaluation_stages")) and not any(t[0] == "fresh" for t in walk(v)):
                ctx.check("eval.stages", "stages", False, f.loc, "stages that are not evaluation stages are compared")
                continue
            if v[0] != "call" or len(comps) != 1:
                ctx.skip("eval.stages", "_compare_eval_stages", f"{fmt(v)[:80]} was not recognised")
                continue
            c = comps[0]
            it = c[3][0][0]
            el = ("elem", it)
            ok = keys_of(it) == ("attr", SELF, "_evaluation_stages") and c[2] == ("pair", el, ("item", R, el)) and all(norm(*x) == (("cmp", "in", el, R), True) for x in c[3][0][1])
            ctx.check("eval.stages", "stages", ok, f.loc, f"the comparison is between {fmt(c)[:120]}")
            ctx.check("eval.stages", "metric", contains(v, lambda t: t == M), f.loc, "the comparison does not use the metric")
    q = f"{CORE}._EvaluationAggregator"
    f = method(ctx, "eval.pairs", q, "__call__") if q in ctx.p.classes else None
    if f is not None:
        R = par(f, 1)
        n = 0
        for o in normals(paths(ctx, f, inline=no_inline, loop_iters=(1,))):
            loops = [e for e in o.st.events if e.kind == "loop"]
            src = loops[0].obj if loops else None
            if src is None or src[0] != "call" or ref_name(src[1]).rsplit(".", 1)[-1] != "combinations":
                ctx.skip("eval.pairs", "pairs", "the pairs of stages were not recognised")
                continue
            n += 1
            ctx.check("eval.pairs", "pairs", meth(src[2][0], "items") == R and src[2][1:] == (const(2),), f.loc, f"the pairs are {fmt(src)[:80]}")
            puts = [e for e in o.st.events if e.kind == "setitem"]
            el = ("elem", src)

            def piece(i, j):
                return ("item", ("item", el, const(i)), const(j))

            for e in puts:
                ctx.check("eval.pairs", "key", e.args[0] == ("tuple", piece(0, 0), piece(1, 0)), f.loc, f"a comparison is stored under {fmt(e.args[0])[:80]}")
                zs = [t for t in walk(e.value) if t[0] == "call" and t[1] == ("builtin", "zip")]
                ctx.check("eval.pairs", "samples", len(set(zs)) == 1 and zs[0][2] == (piece(0, 1), piece(1, 1)), f.loc, "the outputs of the two stages are not compared sample by sample")
                ms = [t for t in walk(e.value) if t[0] == "call" and t[1] == ("attr", SELF, "metric_fn")]
                if zs and ms:
                    z = ("elem", zs[0])
                    sides = [[k for k in (0, 1) if contains(a, lambda t: t in (("item", z, const(k)), ("elem", piece(k, 1))))] for a in ms[0][2]]
                    ctx.check("eval.pairs", "sides", sides == [[0], [1]], f.loc, "the metric does not compare the output of one stage with that of the other")
            ctx.check("eval.pairs", "stored", len(puts) == 1, f.loc, "a comparison is not stored")
        ctx.floor("eval.pairs", 1)


# ------------------------------------------------------------------ registry and orchestrator
def registry(ctx):
    F = ("attr", SELF, "_factories")
    f = method(ctx, "registry.key", REG, "_key")
    if f is not None:
        a, b = [("param", x) for x in f.params() if x not in ("self", "cls")][:2]

        def pure(t, x):
            ops = set()
            while t != x:
                if t[0] == "call" and t[1][0] == "attr" and not t[2] and not t[3]:
                    ops.add(t[1][2])
                    t = t[1][1]
                else:
                    return None
            return ops

        for o in normals(paths(ctx, f, inline=no_inline)):
            v = o.val
            ok = v[0] == "tuple" and len(v) == 3
            pa, pb = (pure(v[1], a), pure(v[2], b)) if ok else (None, None)
            if ok and pa is None and pb is None and {t for t in walk(v) if t in (a, b)} == {a, b} and contains(v[1], lambda t: t == a) and not contains(v[1], lambda t: t == b):
                ctx.skip("registry.key", "key", f"{fmt(v)[:80]} was not recognised")
                continue
            ctx.check("registry.key", "key", pa is not None and pa == pb, f.loc, f"pipelines are kept under {fmt(v)[:80]}")
            ctx.check("registry.key", "spelling", pa is not None and bool({"lower", "casefold", "upper"} & pa) and "strip" in pa, f.loc, "spellings of target or format that were the same are different")

    def key(t, f):
        ps = [("param", x) for x in f.params() if x != "self"][:2]
        return t[0] == "call" and (t[1][0] in ("bound", "func", "attr")) and str(t[1][1 if t[1][0] != "attr" else 2]).endswith("_key") and t[2] == tuple(ps)

    f = method(ctx, "registry.register", REG, "register")
    if f is not None:
        fac, rep = ("param", "factory"), ("param", "replace")
        n = 0
        for o in paths(ctx, f, inline=pol(("_key",))):
            puts = [e for e in o.st.events if e.kind == "setitem" and e.obj == F]
            has = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[3] == F and key(c[2], f))
            if has is None:
                has = fact(o, lambda c: meth(c, "has") == SELF)
            may = fact(o, lambda c: c == rep)
            if o.kind == "raise":
                ctx.check("registry.register", "refused", has is True and may is not True and not puts, f.loc, "a new pipeline is refused, or one that may be replaced")
                continue
            n += 1
            ctx.check("registry.register", "twice", may is True or has is False, f.loc, "a pipeline is replaced without being asked to")
            ctx.check("registry.register", "stored", len(puts) == 1 and key(puts[0].args[0], f) and puts[0].value == fac, f.loc, "the pipeline is not kept under its target and format")
        ctx.floor("registry.register", 1)
    f = method(ctx, "registry.get", REG, "get")
    if f is not None:
        for o in normals(paths(ctx, f, inline=pol(("_key",)))):
            ok = o.val[0] == "item" and o.val[1] == F and key(o.val[2], f)
            ctx.check("registry.get", "get", ok, f.loc, f"{fmt(o.val)[:80]} is given for a target and format")
    f = method(ctx, "registry.get", REG, "has")
    if f is not None:
        for o in normals(paths(ctx, f, inline=pol(("_key",)))):
            v, b = norm(o.val, True)
            if v[0] == "const":
                c = [x for x in (norm(*y) for y in o.st.conds) if x[0][0] == "cmp" and x[0][1] == "in"]
                v, b = (c[0][0], c[0][1] == v[2]) if c else (v, b)
            ctx.check("registry.get", "has", b and v[0] == "cmp" and v[1] == "in" and v[3] == F and key(v[2], f), f.loc, f"has is {fmt(o.val)[:80]}")


def orchestrating(ctx):
    q = f"{ORCH}.ExportOrchestrator"
    f = method(ctx, "export.request", q, "export")
    if f is not None:
        R = par(f, 1)
        n = 0
        own = ("attr", R, "pipeline_factory")
        for o in normals(paths(ctx, f, inline=pol(("_build_output_dir",)))):
            runs = [e for e in o.st.events if e.kind == "call" and e.value is not None and e.value[0] == "call" and e.value[2] == (("attr", R, "model"), ("attr", R, "sample_inputs"))]
            if len(runs) != 1:
                ctx.check("export.request", "run", False, f.loc, "the pipeline is not run once on the model and samples of the request")
                continue
            n += 1
            pipe = runs[0].value[1]
            fac = pipe[1] if pipe[0] == "call" else None
            isn = fact(o, lambda c: c == ("cmp", "is", own, NONE))
            if isn is None and (t := fact(o, lambda c: c == own)) is not None:
                isn = not t
            if fac == own:
                ctx.check("export.request", "factory", isn is False, f.loc, "a factory that was not given is used")
            else:
                ok = fac is not None and fac[0] == "call" and (meth(fac, "get") is not None) and fac[2] == (("attr", R, "target"), ("attr", R, "format"))
                ctx.check("export.request", "factory", ok and isn is True, f.loc, f"the pipeline is made by {fmt(fac)[:80] if fac else None}")
            c = pipe[2][0] if pipe[0] == "call" and pipe[2] else None
            ctx.check("export.request", "options", c is not None and carried(o, c, R), f.loc, "the pipeline does not get directory, name and options of the request")
        ctx.floor("export.request", 1)


def carried(o, c, R):
    """Whether the context holds output directory, model name and, over them, the options."""
    opts = ("attr", R, "options")
    text = [c]
    ev = [e for e in o.st.events if e.kind == "call" and e.name == "method:.update" and e.obj == c and e.args and contains(e.args[0], lambda t: t == opts)]
    pairs = {}
    if c[0] == "dict":
        for e in c[1:]:
            if e[0] == "pair" and e[1][0] == "const":
                pairs[e[1][2]] = e[2]
            elif len(e) == 2 and e[0][0] == "const":
                pairs[e[0][2]] = e[1]
    for (ob, k), val in o.st.heap.items():
        if ob == c and isinstance(k, tuple) and k[0] == "item" and isinstance(k[1], tuple) and k[1][0] == "const":
            pairs[k[1][2]] = val
    return pairs.get("model_name") == ("attr", R, "model_name") and "output_dir" in pairs and (bool(ev) or contains(c, lambda t: t == opts))


# ------------------------------------------------------------------ the built-in pipelines
FACTORIES = {
    "qnn_onnx_pipeline": f"{PIPE}.qnn_onnx_pipeline.qnn_onnx_pipeline",
    "qnn_onnx_qdq_pipeline": f"{PIPE}.qnn_onnx_qdq_pipeline.qnn_onnx_qdq_pipeline",
    "gguf_llama_cpp_pipeline": f"{PIPE}.gguf_llama_cpp_pipeline.gguf_llama_cpp_pipeline",
}
# what has to have happened (directly or indirectly) before a stage runs
BEFORE = {
    "qnn_onnx_pipeline": [
        ("stage_capture_impl_ff", "stage_fuse_qdq_weights"),
        ("stage_capture_model_io", "stage_fuse_qdq_weights"),
        ("stage_passthrough_ff_module", "stage_fuse_qdq_weights"),
        ("stage_alter_onnx_node_names", "stage_add_ff_quantization_metadata"),
        ("stage_rename_onnx_input_output_names", "stage_add_ff_quantization_metadata"),
        ("stage_rename_onnx_input_output_names", "stage_alter_onnx_node_names"),
        ("stage_onnx_program_to_proto", "stage_alter_onnx_node_names"),
        ("stage_onnx_program_to_proto", "stage_fix_onnx_reshape_allowzero"),
        ("stage_onnx_program_to_proto", "stage_rename_onnx_input_output_names"),
        ("stage_onnx_program_to_proto", "stage_add_ff_quantization_metadata"),
        ("stage_fx_to_onnx_program", "stage_cleanup_ff_quantizer_artifacts"),
        ("stage_save_onnx_proto", "stage_copy_metadata_from_ir_to_proto"),
        ("stage_onnx_proto_to_encodings", "stage_copy_metadata_from_ir_to_proto"),
        ("stage_onnx_proto_to_encodings", "stage_save_onnx_proto"),
    ],
    "qnn_onnx_qdq_pipeline": [
        ("stage_capture_impl_ff", "stage_fuse_qdq_weights"),
        ("stage_capture_model_io", "stage_fuse_qdq_weights"),
        ("stage_fx_to_onnx_program_qdq", "stage_convert_captured_impl_ff_qdq"),
        ("stage_onnx_program_to_proto", "stage_fx_to_onnx_program_qdq"),
        ("stage_save_onnx_proto", "stage_onnx_program_to_proto"),
    ],
    "gguf_llama_cpp_pipeline": [
        ("stage_map_tensor_names", "stage_apply_target_transforms"),
        ("stage_pack_gguf_blocks", "stage_apply_target_transforms"),
        ("stage_write_gguf", "stage_map_tensor_names"),
        ("stage_write_gguf", "stage_pack_gguf_blocks"),
    ],
}
CAPTURED = {
    "qnn_onnx_pipeline": ("stage_capture_model_io", "stage_onnx_proto_to_encodings"),
    "qnn_onnx_qdq_pipeline": ("stage_capture_model_io", "stage_save_onnx_proto"),
    "gguf_llama_cpp_pipeline": ("stage_write_gguf",),
}
# two inputs that have to belong together: (stage, input, stage its other input has to come from)
NEVER = {"qnn_onnx_qdq_pipeline": ("stage_convert_captured_impl_ff", "stage_cleanup_ff_quantizer_artifacts")}


def graph(ctx, f):
    """Stages of the pipeline a factory builds: [(stage term, function, name, dependencies, captured)]."""

    outs = [o for o in run(ctx, f, inline=inline_pkg(PIPE, "fastforward.export", deny=tuple(STAGE_DENY) + ("insert_stage_before", "insert_stage_after", "replace_stage", "add_dependency", "remove_dependency")), merge=False, distinct=True, models=CHAIN) if o.kind == "return"]
    if len(outs) != 1:
        return None
    o = outs[0]
    stages = []
    for e in o.st.events:
        if e.kind != "call":
            continue
        m = e.name.rsplit(".", 1)[-1]
        if m in ("register_stage", "register_eval_stage"):
            if o.val != e.obj:
                continue
            fn, name, cap = evarg(e, 0, "stage_fn"), evarg(e, 1, "name"), evarg(e, 2, "capture_stage_output", FALSE)
            if fn is None or fn[0] != "func" or name is None or name[0] != "const":
                return None
            stages.append([e.value, fn[1], name[2], [], cap])
        elif e.name == "@depends":
            hit = [s for s in stages if s[0] == e.obj]
            if len(hit) != 1:
                return None
            for a in e.args:
                if a not in [s[0] for s in stages]:
                    return None
                if a not in hit[0][3]:
                    hit[0][3].append(a)
        elif m in ("insert_stage_before", "insert_stage_after", "replace_stage", "add_dependency", "remove_dependency"):
            return None
    return stages or None


def unpacked(ctx, q, depth=0):
    """How many inputs a stage takes apart: ('==', n), ('>', n) or None."""
    f = ctx.p.funcs.get(q)
    if f is None or not f.params() or depth > 3:
        return None
    m = f.params()[0]
    most = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == m and isinstance(n.targets[0], (ast.Tuple, ast.List)):
            if not any(isinstance(x, ast.Starred) for x in n.targets[0].elts):
                return ("==", len(n.targets[0].elts))
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == m and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            most = max(most or 0, n.slice.value)
        if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == m and isinstance(n.func, ast.Name):
            t = ctx.p.resolve_expr(n.func, f) if hasattr(ctx.p, "resolve_expr") else None
            if t is not None and t[0] == "func":
                sub = unpacked(ctx, t[1], depth + 1)
                if sub is not None:
                    return sub
    return None if most is None else (">", most)


def names(t):
    """Last components of the types an annotation allows; None if it allows anything."""
    if t is None:
        return None
    if isinstance(t, ast.Constant) and isinstance(t.value, str):
        try:
            t = ast.parse(t.value, mode="eval").body
        except SyntaxError:
            return None
    if isinstance(t, ast.BinOp) and isinstance(t.op, ast.BitOr):
        a, b = names(t.left), names(t.right)
        return None if a is None or b is None else a | b
    if isinstance(t, ast.Subscript):
        head = names(t.value)
        if head and head & {"Union", "Optional", "Annotated"}:
            return None
        return head
    if isinstance(t, ast.Attribute):
        return {t.attr}
    if isinstance(t, ast.Name):
        return None if t.id in ("Any", "object") else {t.id}
    return {ast.unparse(t)}


SUPER = {"GraphModule": {"Module"}, "QuantizedModule": {"Module"}}


def input_type(f, k):
    a = f.node.args.posonlyargs + f.node.args.args
    t = a[0].annotation if a else None
    if not isinstance(t, ast.Subscript) or names(t.value) not in ({"tuple"}, {"Tuple"}):
        return None
    el = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
    if len(el) == 2 and isinstance(el[1], ast.Constant) and el[1].value is Ellipsis:
        return names(el[0])
    return names(el[k]) if k < len(el) else set()


def wiring(ctx):
    for label, q in FACTORIES.items():
        f = fun(ctx, "wiring.graph", q)
        if f is None:
            continue
        g = graph(ctx, f)
        if g is None:
            ctx.skip("wiring.graph", label, "the stages were not recognised")
            continue
        by = {s[0]: s for s in g}
        seen = [s[2] for s in g]
        ctx.check("wiring.graph", f"{label} names", len(set(seen)) == len(seen), f.loc, "two stages have the same name")

        def up(s, acc=None):
            acc = [] if acc is None else acc
            for d in s[3]:
                if d not in acc:
                    acc.append(d)
                    up(by[d], acc)
            return acc

        fns = {}
        for s in g:
            fns.setdefault(s[1].rsplit(".", 1)[-1], []).append(s)
            sf = ctx.p.funcs.get(s[1])
            if sf is None:
                continue
            ctx.analysed.add(sf.qual)
            n, k = max(1, len(s[3])), unpacked(ctx, s[1])
            if k is not None:
                ctx.check("wiring.inputs", f"{label} {s[2]}", k[1] == n if k[0] == "==" else k[1] < n, f.loc, f"stage {s[2]} takes {k[1] if k[0] == '==' else k[1] + 1} inputs but gets {n}")
            for pos, d in enumerate(s[3]):
                df = ctx.p.funcs.get(by[d][1])
                have, want = names(df.node.returns) if df is not None else None, input_type(sf, pos)
                if have is None or want is None:
                    continue
                ok = all(h in want or SUPER.get(h, set()) & want for h in have)
                ctx.check("wiring.types", f"{label} {s[2]} input {pos}", ok, f.loc, f"input {pos} of stage {s[2]} is the {'/'.join(sorted(have))} of {by[d][2]}, it takes {'/'.join(sorted(want)) or 'no such input'}")
        for later, earlier in BEFORE[label]:
            L, E = fns.get(later, []), fns.get(earlier, [])
            if not L or not E:
                ctx.skip("wiring.order", f"{label} {later}", "the stage was not found")
                continue
            for s in L:
                done = {by[d][1].rsplit(".", 1)[-1] for d in up(s)}
                ctx.check("wiring.order", f"{label} {later} after {earlier}", earlier in done, f.loc, f"stage {s[2]} can run before {E[0][2]}")
        for n in CAPTURED[label]:
            for s in fns.get(n, []):
                ctx.check("wiring.captured", f"{label} {n}", s[4] == TRUE, f.loc, f"the output of {s[2]} is not part of the results")
        for n in NEVER.get(label, ()):
            ctx.check("wiring.order", f"{label} without {n}", n not in fns, f.loc, f"{n} is part of a pipeline that keeps the quantizers in the graph")
        # stages that join two branches
        for s in fns.get("stage_add_ff_quantization_metadata", []):
            if len(s[3]) == 2:
                onnx = by[s[3][0]]
                ctx.check("wiring.join", f"{label} metadata", onnx[1].rsplit(".", 1)[-1] == "stage_fx_to_onnx_program" and onnx[3][:1] == [s[3][1]], f.loc, "the metadata is taken from another graph than the one that was converted")
        for s in fns.get("stage_copy_metadata_from_ir_to_proto", []):
            if len(s[3]) == 2:
                proto = by[s[3][1]]
                ctx.check("wiring.join", f"{label} copy", proto[1].rsplit(".", 1)[-1] == "stage_onnx_program_to_proto" and s[3][0] in up(proto), f.loc, "the metadata is copied to another model than the one it was written for")
        for s in fns.get("stage_cleanup_ff_quantizer_artifacts", []):
            if len(s[3]) == 2:
                ctx.check("wiring.join", f"{label} cleanup", bool(set(up(by[s[3][0]])) & set(up(by[s[3][1]]) + [s[3][1]])), f.loc, "the captured graph and the source module are not of the same model")
    ctx.floor("wiring.order", 15)
    ctx.floor("wiring.inputs", 15)
    ctx.floor("wiring.types", 10)
    f = fun(ctx, "wiring.registry", f"{REGM}.create_default_pipeline_registry")
    if f is None:
        cands = [g for q, g in ctx.p.funcs.items() if g.module.name == REGM and g.cls is None and "<locals>" not in q and any(isinstance(n, ast.Attribute) and n.attr == "register" for n in ast.walk(g.node))]
        f = cands[0] if len(cands) == 1 else None
        ctx.skipped[:] = [x for x in ctx.skipped if f is None or x["rule"] != "wiring.registry"]
    if f is not None:
        want = {("qnn", "onnx"): "qnn_onnx_pipeline", ("qnn", "onnx_qdq"): "qnn_onnx_qdq_pipeline", ("gguf", "llama_cpp"): "gguf_llama_cpp_pipeline"}
        for o in normals(paths(ctx, f, inline=no_inline)):
            got = {}
            for e in o.st.events:
                if e.kind == "call" and e.name.rsplit(".", 1)[-1] == "register":
                    a, b, c = evarg(e, 0, "target"), evarg(e, 1, "format"), evarg(e, 2, "factory")
                    if a and b and c and a[0] == b[0] == "const":
                        got[(a[2], b[2])] = c
            if not got:
                ctx.skip("wiring.registry", "default", "the registrations were not recognised")
                continue
            for k, n in want.items():
                ctx.check("wiring.registry", f"{k[0]} {k[1]}", got.get(k) == ("func", FACTORIES[n]), f.loc, f"the pipeline for {k[0]}/{k[1]} is {fmt(got[k])[:80] if k in got else 'missing'}")
