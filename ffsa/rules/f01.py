"""Queries for modules.  One step of the matcher, the nullability test, the simplification, the search
loop, the combination of results and the parser are interpreted for arbitrary queries and modules; what
each path yields is compared with the derivative rules of path patterns."""
from __future__ import annotations

from .common import *

ASSUMPTIONS = ["fragments given by users are pure functions of name and module", "modules form no cycle"]
M = "fastforward.mpath"
SEL, FRAG, SEARCH, PARSER = f"{M}.selector", f"{M}.fragments", f"{M}._search", f"{M}._parser"
VIRTUAL = ("match", "must_advance", "simplify", "matches_and_continuations", "fragment_list", "fragments", "remove_multi_wildcard_root", "has_multi_wildcard_root", "update_module")
WILD = ("class", f"{FRAG}.WildcardFragment")
MULTI = ("class", f"{SEL}.MultiSelector")


def recursive(f):
    return any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == f.name) for n in ast.walk(f.node))


def pol(deny=()):
    base = inline_same_module(deny=tuple(VIRTUAL) + tuple(deny))
    return lambda f, i: base(f, i) and not recursive(f)


def check(ctx):
    fragments(ctx)
    step(ctx)
    nullable(ctx)
    extend(ctx)
    simplify(ctx)
    identity(ctx)
    search(ctx)
    collection(ctx)
    parser(ctx)
    frames(ctx)


def meth(t, name):
    """Receiver if the term is a call of this method, resolved or not."""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == name:
        return t[1][1]
    if t[0] == "call" and t[1][0] == "bound" and t[1][1].endswith("." + name):
        return t[1][2]
    return None


def margs(t):
    return t[2]


def norm(c, b):
    """A condition without negation; truth of an optional value counts as not None."""
    while c[0] == "not":
        c, b = c[1], not b
    if c[0] == "cmp" and c[1] in ("is", "==") and NONE in c[2:]:
        x = c[2] if c[3] == NONE else c[3]
        return ("given", x), not b
    if c[0] == "attr" and c[2] == "next":
        return ("given", c), b
    return c, b


def paths(ctx, f, **kw):
    """Outcomes whose conditions do not contradict each other."""
    for o in run(ctx, f, **kw):
        cs = {norm(c, b) for c, b in o.st.conds}
        if not any((c, not b) in cs for c, b in cs):
            yield o


def given(o, x):
    """Whether an optional value is there, as far as the path knows."""
    for c, b in o.st.conds:
        c, b = norm(c, b)
        if c in (("given", x), x):
            return b
    return None


def quantified(ctx, rule, con, f, kind, over, elem, inline, what):
    """The result is the `all`/`any` of a test over all elements."""
    n = 0

    def is_elem(c):
        return elem(c)

    for o in paths(ctx, f, inline=inline, merge=False, loop_iters=(0, 1, 2), distinct=True):
        if o.kind != "return":
            continue
        pos, v = True, o.val
        while v[0] in ("not",) or v[0] == "un" and v[1] == "not":
            pos, v = not pos, v[-1]
        if v[0] == "call" and v[1] in (("builtin", "all"), ("builtin", "any")) and len(v[2]) == 1:
            c = v[2][0]
            if c[0] == "call" and c[1] in (("builtin", "list"), ("builtin", "tuple")):
                c = c[2][0]
            k, neg_in, e = v[1][1], False, c[2] if c[0] == "comp" else None
            while e is not None and e[0] == "not":
                neg_in, e = not neg_in, e[1]
            if e is None or len(c[3]) != 1:
                ctx.skip(rule, con, f"{fmt(v)[:80]} was not recognised")
                continue
            eff = k if pos else {"all": "any", "any": "all"}[k]
            flip = neg_in != (not pos)
            n += 1
            ctx.check(rule, con, eff == kind and not flip and c[3][0][0] == over and not c[3][0][1] and is_elem(e), f.loc, f"{what} is {fmt(o.val)[:120]}")
            continue
        vals = []
        for c, b in o.st.conds:
            while c[0] == "not":
                c, b = c[1], not b
            if is_elem(c):
                vals.append(b)
        if v[0] == "const" and isinstance(v[2], bool):
            res = v[2] == pos
        elif is_elem(v):
            n += 1
            done = not any(e.kind == "loop" for e in o.st.events) or [e.kind for e in o.st.events if e.kind in ("loop", "endloop")][-1] == "endloop"
            for u in (True, False):
                ctx.check(rule, con + " last", (u == pos) == (all(vals + [u]) if kind == "all" else any(vals + [u])) and (done or (u == pos) == (kind == "any")), f.loc, f"{what} is what the part looked at last says")
            continue
        else:
            ctx.skip(rule, con, f"{fmt(v)[:80]} was not recognised")
            continue
        n += 1
        ended = any(e.kind == "endloop" and e.name == "for" for e in o.st.events) or not any(e.kind == "loop" for e in o.st.events)
        want = all(vals) if kind == "all" else any(vals)
        ctx.check(rule, con, res == want, f.loc, f"{what} is {res} if its parts are {vals}")
        if not ended:
            ctx.check(rule, con + " decided", res == (kind == "any"), f.loc, f"{what} is decided before all parts were looked at")
    if not n and not any(r == rule and c == con for r, c, *_ in ctx.skipped):
        ctx.check(rule, con, False, f.loc, f"{what} does not depend on its parts")


# ------------------------------------------------------------------ fragments
def stored(ctx, cls, pname):
    """Attribute that holds a constructor parameter."""
    init = ctx.p.find_method(cls, "__init__")
    if init is None:
        return None
    for o in paths(ctx, init, inline=no_inline, yield_raises=False):
        for e in o.st.events:
            if e.kind == "setattr" and e.value is not None and e.value[0] == "param" and e.value[1] == pname:
                return ("attr", ("param", init.params()[0]), e.name)
    return None


def init_params(ctx, cls):
    init = ctx.p.find_method(cls, "__init__")
    if init is None:
        return []
    va = init.node.args.vararg
    ps = [x.lstrip("*") for x in init.params()[1:]]
    return ps + ([va.arg] if va is not None and va.arg not in ps else [])


def fragments(ctx):
    def cls(n):
        return f"{FRAG}.{n}"

    def sig(f):
        ps = f.params()
        return [("param", x) for x in ps[:3]]

    # single values
    for name, spec in (("PathFragment", path_spec), ("RegexPathFragment", regex_spec), ("ClassFragment", class_spec), ("PredicateFragment", pred_spec), ("WildcardFragment", wild_spec), ("InvertedFragment", inv_spec)):
        if cls(name) not in ctx.p.classes:
            ctx.skip("fragment.match", name, "not found")
            continue
        ps = init_params(ctx, cls(name))
        own = stored(ctx, cls(name), ps[0]) if ps else None
        f = ctx.p.find_method(cls(name), "match")
        for o in paths(ctx, f, inline=pol(), merge=False):
            if o.kind == "return":
                S, N, MOD = sig(f)
                ctx.check("fragment.match", name, spec(ctx, o, S, N, MOD, own), f.loc, f"{name} matches if {fmt(o.val)}")
        g = ctx.p.find_method(cls(name), "must_advance")
        for o in paths(ctx, g, inline=pol(), merge=False):
            if o.kind != "return":
                continue
            if name == "WildcardFragment":
                ok = truth(o, own, False)
            elif name == "InvertedFragment":
                ok = meth(o.val, "must_advance") is not None and meth(o.val, "must_advance") == own
            else:
                ok = o.val == TRUE
            ctx.check("fragment.advance", name, ok, g.loc, f"{name} repeats unless {fmt(o.val)}")
    for name, kind in (("JointFragment", "all"), ("DisjointFragment", "any")):
        if cls(name) not in ctx.p.classes:
            ctx.skip("fragment.match", name, "not found")
            continue
        ps = init_params(ctx, cls(name))
        own = stored(ctx, cls(name), ps[0]) if ps else None
        f = ctx.p.find_method(cls(name), "match")
        S, N, MOD = sig(f)

        def part(c, N=N, MOD=MOD, own=own):
            r = meth(c, "match")
            return r is not None and r[0] in ("elem", "val") and r[1] == own and margs(c) == (N, MOD)

        quantified(ctx, "fragment.match", name, f, kind, own, part, pol(), f"a match of {name}")
        g = ctx.p.find_method(cls(name), "must_advance")

        def adv(c, own=own):
            r = meth(c, "must_advance")
            return r is not None and r[0] in ("elem", "val") and r[1] == own

        quantified(ctx, "fragment.advance", name, g, "all", own, adv, pol(), f"not repeating {name}")
    ctx.floor("fragment.match", 6)
    # operators
    f = ctx.p.find_method(f"{SEL}.Selector", "__and__")
    S, R = ("param", f.params()[0]), ("param", f.params()[1])
    for o in paths(ctx, f, inline=pol(), merge=False):
        if o.kind == "return" and o.val != ("builtin", "NotImplemented") and "NotImplemented" not in fmt(o.val):
            long = [x for x in (S, R) if given(o, ("attr", x, "next")) is not False]
            ctx.check("operator.and", "&", not long, f.loc, "queries of several fragments are joined")
            j = next((x for x in walk(o.val) if x[0] == "call" and x[1] == ("class", cls("JointFragment"))), None)
            ok = j is not None and set(j[2]) == {("attr", S, "fragment"), ("attr", R, "fragment")}
            ctx.check("operator.and", "& parts", ok, f.loc, f"& gives {fmt(o.val)}")
    f = ctx.p.find_method(f"{SEL}.BaseSelector", "__or__")
    S, R = ("param", f.params()[0]), ("param", f.params()[1])
    for o in normals(paths(ctx, f, inline=pol(), merge=False)):
        ok = any(x[0] == "tuple" and set(x[1:]) == {S, R} for x in walk(o.val)) and o.val[0] == "call" and o.val[1] == MULTI and arg(o.val, 0, "next") == NONE
        ctx.check("operator.or", "|", ok, f.loc, f"| gives {fmt(o.val)}")
    f = ctx.p.find_method(f"{SEL}.Selector", "__invert__")
    S = ("param", f.params()[0])
    for o in paths(ctx, f, inline=pol(), merge=False):
        if o.kind != "return":
            continue
        ctx.check("operator.invert", "~", given(o, ("attr", S, "next")) is False, f.loc, "a query of several fragments is inverted")
        fr = dict(o.val[3]).get("fragment") if o.val[0] == "call" else None
        inv = fr is not None and (fr[0] == "un" and fr[1] in ("~", "invert") and fr[2] == ("attr", S, "fragment") or fr[0] == "call" and fr[1] == ("class", cls("InvertedFragment")) and fr[2] == (("attr", S, "fragment"),))
        ctx.check("operator.invert", "~ fragment", inv or fr is None and "Inver" in fmt(o.val), f.loc, f"~ gives {fmt(o.val)}")
    f = ctx.p.find_method(f"{SEL}.Fragment", "__invert__")
    for o in normals(paths(ctx, f, inline=pol(), merge=False)):
        ctx.check("operator.invert", "fragment", o.val == ("call", ("class", cls("InvertedFragment")), (("param", f.params()[0]),), ()), f.loc, f"the inverse of a fragment is {fmt(o.val)}")


def within(t, sub):
    return any(x == sub for x in walk(t))


def truth(o, x, want):
    """The result is (the negation of) a value."""
    v, pos = o.val, True
    while v[0] == "not":
        v, pos = v[1], not pos
    if v == x:
        return pos == want
    if v[0] == "const" and isinstance(v[2], bool):
        for c, b in o.st.conds:
            c, b = norm(c, b)
            if c == x:
                return (v[2] == pos) == (b == want)
    return False


def path_spec(ctx, o, S, N, MOD, own):
    c = ("cmp", "==", N, own), ("cmp", "==", own, N)
    return own is not None and any(truth(o, x, True) for x in c)


def regex_spec(ctx, o, S, N, MOD, own):
    v, pos = o.val, True
    cand = [x for t in [o.val] + [c for c, _ in o.st.conds] for x in walk(t) if x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("fullmatch", "match", "search")]
    if not cand:
        cand = [x for t in [o.val] + [c for c, _ in o.st.conds] for x in walk(t) if x[0] == "call" and ref_name(x[1]).startswith("ext:re.")]
        return bool(cand) and all(ref_name(x[1]) == "ext:re.fullmatch" and x[2][-1:] == (N,) for x in cand)
    if any(x[1][2] != "fullmatch" or x[2] != (N,) for x in cand):
        return False
    x = cand[0]
    while v[0] == "not":
        v, pos = v[1], not pos
    if v[0] == "cmp" and v[1] == "is" and NONE in v[2:]:
        return not pos
    if v[0] == "const" and isinstance(v[2], bool):
        return (v[2] == pos) == (given(o, x) is True)
    return v == ("call", ("builtin", "bool"), (x,), ()) and pos


def class_spec(ctx, o, S, N, MOD, own):
    v = o.val
    return own is not None and (truth(o, ("isinstance", MOD, own), True) or truth(o, ("call", ("builtin", "isinstance"), (MOD, own), ()), True))


def pred_spec(ctx, o, S, N, MOD, own):
    t = ("call", own, (N, MOD), ())
    v = o.val
    if v[0] == "call" and v[1] == ("builtin", "bool"):
        v = v[2][0]
    return v == t or truth(o, t, True)


def wild_spec(ctx, o, S, N, MOD, own):
    return o.val == TRUE


def inv_spec(ctx, o, S, N, MOD, own):
    for x in [y for t in [o.val] + [c for c, _ in o.st.conds] for y in walk(t)]:
        if meth(x, "match") is not None and meth(x, "match") == own and margs(x) == (N, MOD):
            return truth(o, x, False)
    return False


# ------------------------------------------------------------------ one step
def unwrap_next(t):
    """A selector without simplification, which keeps what it matches."""
    r = meth(t, "simplify")
    return r if r is not None else t


def is_nullable(c, nxt):
    return c[0] == "call" and c[1][0] == "func" and c[2] == (nxt,)


def step(ctx):
    f = ctx.func(f"{SEL}.Selector.matches_and_continuations")
    S, N, MOD = (("param", x) for x in f.params()[:3])
    FR, NX = ("attr", S, "fragment"), ("attr", S, "next")
    seen = set()
    names = set()
    for o in paths(ctx, f, inline=pol(), merge=False, loop_iters=(0, 1)):
        if o.kind != "return":
            continue
        con = "step"
        hit = adv = nx = nul = None
        odd = None
        for c, b in o.st.conds:
            c, b = norm(c, b)
            if meth(c, "match") == FR and margs(c) == (N, MOD):
                hit = b
            elif meth(c, "must_advance") == FR:
                adv = b
            elif c in (("given", NX), NX):
                nx = b
            elif is_nullable(c, NX):
                nul = b
                names.add(c[1][1])
            else:
                odd = c
        if odd is not None:
            ctx.skip("step.matches", con, f"the condition {fmt(odd)[:80]} was not recognised")
            continue
        if o.val[0] != "tuple" or len(o.val) != 3:
            ctx.skip("step.matches", con, "the result was not recognised")
            continue
        ms, cs = (contents(x, o.st) for x in o.val[1:])
        got = set()
        bad = False
        for c in cs:
            if c[0] != "call" or c[1] != ("class", f"{SEL}._SelectorContinuation"):
                bad = True
                continue
            consume = arg(c, 2, "consume", TRUE)
            who = unwrap_next(arg(c, 0, "selector", NONE))
            if who not in (S, NX):
                bad = True
            got.add(("self" if who == S else "next", consume == TRUE))
            ctx.check("step.fragment", con, arg(c, 1, "fragment") == FR, f.loc, "a continuation does not hold the fragment that matched")
        ctx.check("step.continuations", con + " kinds", not bad, f.loc, "a continuation goes on with something that is neither this query nor its rest")
        if hit is None:
            ctx.check("step.matches", con, not ms and not cs, f.loc, "something matches without looking at the fragment")
            continue
        if not hit:
            seen.add("miss")
            ctx.check("step.matches", con + " no match", not ms and not cs, f.loc, "a module that the fragment does not match is followed")
            continue
        if nx is None:
            ctx.check("step.matches", con, False, f.loc, "it is not looked at whether the query has a rest")
            continue
        if nx and nul is None and ms:
            ctx.check("step.matches", con + " rest", False, f.loc, "a module matches although the query has a rest")
        if nx and nul is None and not ms:
            ctx.check("step.matches", con + " rest", False, f.loc, "a module whose remaining query matches nothing more is left out")
        want = (not nx) or bool(nul)
        if not nx or nul is not None:
            ctx.check("step.matches", con + (" end" if not nx else " rest may be empty" if nul else " rest"), bool(ms) == want, f.loc, "a match is lost" if want else "a partial match counts as a match")
        for m in ms:
            ctx.check("step.fragment", con + " match", m[0] == "call" and arg(m, 0, "fragment") == FR, f.loc, "a match does not hold the fragment that matched")
        if adv is None:
            ctx.check("step.continuations", con, False, f.loc, "it is not looked at whether the fragment repeats")
            continue
        seen.add((adv, nx))
        if adv:
            need = {("next", True)} if nx else set()
            may = need
        else:
            need = {("self", True)} | ({("next", False)} if nx else set())
            may = need | ({("next", True)} if nx else set())
        what = ("fixed" if adv else "repeating") + (" with rest" if nx else " at end")
        ctx.check("step.continuations", f"{con} {what}", need <= got, f.loc, f"continuations after a {what} fragment are {sorted(got)}")
        ctx.check("step.continuations", f"{con} {what} only", got <= may, f.loc, f"continuations after a {what} fragment are {sorted(got)}")
    ctx.nullable_names = sorted(names)
    if not any(r.startswith("step") for r, *_ in ctx.skipped):
        ctx.check("step.continuations", "all cases", {(True, True), (True, False), (False, True), (False, False), "miss"} <= seen, f.loc, f"cases distinguished: {sorted(map(str, seen))}")
    # alternatives
    f = ctx.func(f"{SEL}.MultiSelector.matches_and_continuations")
    S, N, MOD = (("param", x) for x in f.params()[:3])
    ALT, NX = ("attr", S, "selectors"), ("attr", S, "next")
    n = 0
    for o in paths(ctx, f, inline=pol(), merge=False, loop_iters=(2,), distinct=True):
        if o.kind != "return":
            continue
        con = "alternatives"
        E = ("elem", ALT)
        if any(norm(c, b) == (("given", E), False) for c, b in o.st.conds):
            continue
        if o.val[0] != "tuple" or len(o.val) != 3:
            ctx.skip("step.alternatives", con, "the result was not recognised")
            continue
        for k, part in ((0, o.val[1]), (1, o.val[2])):
            srcs = [x for x in walk_all(part, o) if x[0] == "call" and meth(x, "matches_and_continuations") is not None]
            if not srcs:
                ctx.check("step.alternatives", con, False, f.loc, "results of an alternative are dropped")
                continue
            n += 1
            looped = sum(e.kind == "loop" for e in o.st.events)
            if looped:
                ctx.check("step.alternatives", con + " every", len(set(srcs)) == looped, f.loc, "results of some alternatives are dropped")
            for x in srcs:
                r = meth(x, "matches_and_continuations")
                ok = margs(x) == (N, MOD) and (within(r, E) or within(r, E + (const(1),))) and within(r, NX) and r != E
                ctx.check("step.alternatives", con, ok, f.loc, f"an alternative goes on with {fmt(r)[:100]}")
            used = [y for y in walk_all(part, o) if y[0] == "item" and y[1] in srcs]
            ctx.check("step.alternatives", con + " sorted", all(y[2] == const(k) for y in used) and bool(used), f.loc, "matches and continuations of alternatives are mixed up")
        conds = [c for c, b in o.st.conds if not (c[0] == "nonempty" or norm(c, b)[0] in (("given", E), ("given", E + (const(1),)), ("given", NX)))]
        ctx.check("step.alternatives", con + " all", not conds and all(e.name == "for" for e in o.st.events if e.kind == "endloop"), f.loc, "alternatives are left out")
    ctx.floor("step.alternatives", 1)


def walk_all(t, o):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or x in seen or not x:
            continue
        seen.add(x)
        if isinstance(x[0], str):
            yield x
        if x[0] == "fresh":
            todo.extend(o.st.heap.get((x, "@contents"), ()))
        todo.extend(y for y in x if isinstance(y, tuple))


def nullable(ctx):
    """A query matches zero modules iff all its fragments are `**`, for alternatives in one of them."""
    for q in getattr(ctx, "nullable_names", ()):
        f = ctx.func(q)
        P = ("param", f.params()[0])
        NX = ("attr", P, "next")
        for o in paths(ctx, f, inline=pol(), merge=False, loop_iters=(0, 1)):
            if o.kind != "return":
                continue
            con = "nullable"
            multi = head = nx = rest = None
            odd = False
            conds = [norm(c, b) for c, b in o.st.conds]
            v, pos = o.val, True
            while v[0] == "not":
                v, pos = v[1], not pos
            # the result is one more condition, true or false
            cases = [(conds, v[2] == pos)] if v[0] == "const" and isinstance(v[2], bool) else [(conds + [norm(v, True)], pos), (conds + [norm(v, False)], not pos)]
            for cs, res in cases:
                if any((c, not b) in cs for c, b in cs):
                    continue
                multi = head = nx = rest = None
                wild = mm = None
                for c, b in cs:
                    if c[0] == "isinstance" and c[1] == P and c[2] == MULTI:
                        multi = b
                    elif c[0] == "isinstance" and c[1] == P and c[2] == ("class", f"{SEL}.Selector"):
                        multi = not b
                    elif c in (("given", NX), NX):
                        nx = b
                    elif is_nullable(c, NX) and c[1][1] == q:
                        rest = b
                    elif meth(c, "has_multi_wildcard_root") == P and multi is not True:
                        head = b
                    elif c[0] == "isinstance" and c[2] == WILD and c[1] == ("attr", P, "fragment"):
                        wild = b
                    elif c == ("attr", ("attr", P, "fragment"), "match_multiple"):
                        mm = b
                    elif alternatives(c, P, q) is not None:
                        head = b
                        ctx.check("nullable", con + " some", alternatives(c, P, q), f.loc, "alternatives can be empty if one of them can")
                    elif c[0] == "nonempty":
                        pass
                    else:
                        odd = True
                if wild is False or mm is False:
                    head = False
                elif wild and mm:
                    head = True
                if head is not None and len([1 for c, b in cs if c[0] == "elem"]) == 0:
                    pass
                if odd:
                    ctx.skip("nullable", con, "a condition was not recognised")
                    break
                if head is False or nx and rest is False:
                    want = False
                elif head and (nx is False or rest):
                    want = True
                else:
                    want = None
                if want is None:
                    ctx.check("nullable", con, not res, f.loc, "a query counts as empty although not all of it was looked at")
                else:
                    ctx.check("nullable", con + (" alternatives" if multi else ""), res == want, f.loc, f"a query that {'can' if want else 'cannot'} match zero modules counts as {'one' if res else 'none'}")
    if not getattr(ctx, "nullable_names", ()):
        ctx.skip("nullable", "rest", "no test of the rest of a query was recognised")


def alternatives(c, P, q):
    """True for `any(nullable(a) for a in alternatives)`, False for another quantifier, None if unrelated."""
    if c[0] == "call" and c[1] in (("builtin", "any"), ("builtin", "all")) and len(c[2]) == 1:
        x = c[2][0]
        e = ("elem", ("attr", P, "selectors"))
        if x[0] == "comp" and x[3] and x[3][0][0] == ("attr", P, "selectors") or x[0] == "call" and x[1] == ("builtin", "map"):
            ok = x[0] == "comp" and x[2] == ("call", ("func", q), (e,), ()) and not x[3][0][1] or x[0] == "call" and x[2] == (("func", q), ("attr", P, "selectors"))
            return c[1][1] == "any" and ok
    return None


# ------------------------------------------------------------------ composing and simplifying
def extend(ctx):
    """Concatenation keeps all fragments in order."""
    name = f"{SEL}._duplicate_extend"
    g = ctx.func(f"{SEL}.BaseSelector.extends")
    for o in normals(paths(ctx, g, inline=no_inline, merge=False)):
        S, R = ("param", g.params()[0]), ("param", g.params()[1])
        if o.val[0] == "call" and o.val[1][0] == "func":
            name = o.val[1][1]
            ctx.check("extend", "extends", o.val[2] == (S, R), g.loc, f"two queries are joined as {fmt(o.val)}")
    if name not in ctx.p.funcs:
        ctx.skip("extend", "chain", "the concatenation was not recognised")
        return
    f = ctx.func(name)
    A, B = (("param", x) for x in f.params()[:2])
    for o in normals(paths(ctx, f, inline=pol(), merge=False)):
        ga = given(o, A)
        if ga is False:
            ctx.check("extend", "end", o.val == B, f.loc, f"the end of a query becomes {fmt(o.val)}")
        elif ga is None or any(e.kind == "loop" for e in o.st.events):
            ctx.skip("extend", "chain", "the concatenation was not recognised")
        else:
            nx = ("attr", A, "next")
            rec = ("call", ("func", name), (nx, B), ())
            end = o.val[0] == "call" and ref_name(o.val[1]).endswith("dataclasses.replace") and o.val[2][:1] == (A,) and (dict(o.val[3]) == {"next": rec} or dict(o.val[3]) == {"next": B} and given(o, nx) is False)
            ctx.check("extend", "chain", end, f.loc, f"a query is extended to {fmt(o.val)}")
    for m in ("__truediv__", "__rtruediv__"):
        f = ctx.p.find_method(f"{SEL}.BaseSelector", m)
        S, R = ("param", f.params()[0]), ("param", f.params()[1])
        for o in normals(paths(ctx, f, inline=pol(deny=("extends", f"{SEL}.BaseSelector.extends")), merge=False)):
            first, second = (S, R) if m == "__truediv__" else (R, S)
            r = meth(o.val, "extends")
            if r is None:
                ctx.skip("extend.operator", m, "the concatenation was not recognised")
                continue
            a = margs(o.val)[0]
            ctx.check("extend.operator", m, within(r, first) and within(a, second) and not within(r, second), f.loc, f"queries are joined in the order {fmt(o.val)[:120]}")


def simplify(ctx):
    f = ctx.func(f"{SEL}.BaseSelector.simplify")
    S = ("param", f.params()[0])
    for o in normals(paths(ctx, f, inline=pol(), merge=False)):
        root = rem = None
        for c, b in o.st.conds:
            c, b = norm(c, b)
            if meth(c, "has_multi_wildcard_root") == S:
                root = b
            r = c[1] if c[0] == "given" else c
            if meth(r, "remove_multi_wildcard_root") == S:
                rem = b
        con = "simplify"
        if o.val == S:
            ctx.check("simplify", con, True, f.loc)
            continue
        ctx.check("simplify.root", con, root is True, f.loc, "a query that does not start with ** is rewritten")
        used = [x for x in walk(o.val) if meth(x, "remove_multi_wildcard_root") == S]
        star = "'**'" in fmt(o.val) or "WildcardFragment" in fmt(o.val)
        ctx.check("simplify.root", con + " kept", star, f.loc, f"** is removed from {fmt(o.val)}")
        wildcalls = [x for x in walk(o.val) if x[0] == "call" and x[1] == WILD]
        ctx.check("simplify.root", con + " multiple", all(arg(x, 0, "match_multiple", TRUE) == TRUE for x in wildcalls), f.loc, "** becomes *")
        if rem is True or used:
            first = o.val[2] if o.val[0] == "bin" else None
            ctx.check("simplify.rest", con, bool(used) and (first is None or first in (const("**"),) or within(first, WILD)), f.loc, f"the rest of the query is lost: {fmt(o.val)}")
        elif rem is False:
            ctx.check("simplify.rest", con + " only **", not used, f.loc, "")
        else:
            ctx.check("simplify.rest", con, False, f.loc, f"the rest of the query is lost: {fmt(o.val)}")
    # a selector
    f = ctx.p.find_method(f"{SEL}.Selector", "has_multi_wildcard_root")
    S = ("param", f.params()[0])
    FR = ("attr", S, "fragment")
    for o in normals(paths(ctx, f, inline=pol(), merge=False)):
        cs = [norm(c, b) for c, b in o.st.conds]
        isw = next((b for c, b in cs if c == ("isinstance", FR, WILD)), None)
        mm = ("attr", FR, "match_multiple")
        mmv = next((b for c, b in cs if c == mm), None)
        v = o.val
        if v == ("isinstance", FR, WILD):
            good = isw is False or any(c == mm and b for c, b in cs)
        elif v == mm:
            good = isw is True
        elif v == TRUE:
            good = isw is True and mmv is True
        elif v == FALSE:
            good = isw is False or mmv is False
        else:
            good = None
        if good is None:
            ctx.skip("simplify.head", "selector", f"{fmt(v)[:80]} was not recognised")
        else:
            ctx.check("simplify.head", "selector", good, f.loc, f"starting with ** is decided as {fmt(v)}")
    f = ctx.p.find_method(f"{SEL}.Selector", "remove_multi_wildcard_root")
    S = ("param", f.params()[0])
    NX, FR = ("attr", S, "next"), ("attr", S, "fragment")
    for o in normals(paths(ctx, f, inline=inline_same_module(deny=[x for x in VIRTUAL if x != "has_multi_wildcard_root"]), merge=False)):
        cs = [norm(c, b) for c, b in o.st.conds]
        root = None
        for c, b in cs:
            if meth(c, "has_multi_wildcard_root") == S:
                root = b
        if root is None:
            isw = next((b for c, b in cs if c == ("isinstance", FR, WILD)), None)
            mm = next((b for c, b in cs if c == ("attr", FR, "match_multiple")), None)
            root = False if isw is False or mm is False else True if isw and mm else None
        nx = given(o, NX)
        if root is None:
            ctx.check("simplify.remove", "selector", o.val == S, f.loc, "a fragment is removed without looking whether it is **")
        elif not root:
            ctx.check("simplify.remove", "selector without **", o.val == S, f.loc, f"a query that does not start with ** becomes {fmt(o.val)}")
        elif nx is False:
            ctx.check("simplify.remove", "selector only **", o.val in (NONE, NX), f.loc, f"** becomes {fmt(o.val)}")
        else:
            ctx.check("simplify.remove", "selector with **", o.val == NX or meth(o.val, "remove_multi_wildcard_root") == NX, f.loc, f"the rest after ** becomes {fmt(o.val)}")
    # alternatives
    f = ctx.p.find_method(f"{SEL}.MultiSelector", "has_multi_wildcard_root")
    S = ("param", f.params()[0])
    quantified(ctx, "simplify.head", "alternatives", f, "all", ("attr", S, "selectors"), lambda c: meth(c, "has_multi_wildcard_root") in (("elem", ("attr", S, "selectors")), ("val", ("attr", S, "selectors"))), pol(), "alternatives starting with **")
    f = ctx.p.find_method(f"{SEL}.MultiSelector", "remove_multi_wildcard_root")
    S = ("param", f.params()[0])
    NX, ALT = ("attr", S, "next"), ("attr", S, "selectors")
    for o in normals(paths(ctx, f, inline=pol(), merge=False, loop_iters=(1,))):
        con = "alternatives"
        v = o.val
        if v == NONE:
            ctx.check("simplify.alternatives", con + " only **", given(o, NX) is False, f.loc, "alternatives with a rest are removed")
            continue
        r = meth(v, "remove_multi_wildcard_root")
        v = r if r is not None else v
        if v[0] != "call" or len(v[2]) + len(v[3]) < 2:
            ctx.skip("simplify.alternatives", con, f"{fmt(o.val)[:80]} was not recognised")
            continue
        nx, alts = arg(v, 0, "next"), arg(v, 1, "selectors")
        srcs = [x for x in walk_all(alts, o) if x == ALT]
        ctx.check("simplify.alternatives", con, bool(srcs), f.loc, "alternatives are dropped")
        tail = nx == NX or nx == NONE and within_all(alts, NX, o)
        ctx.check("simplify.alternatives", con + " rest", tail or given(o, NX) is False, f.loc, "what follows the alternatives is dropped")
        for x in walk_all(alts, o):
            if x[0] == "comp":
                for it, ifs in x[3]:
                    allgood = any(b and c[0] == "call" and c[1] == ("builtin", "all") for c, b in o.st.conds)
                    ctx.check("simplify.alternatives", con + " none dropped", not ifs or allgood, f.loc, "alternatives made up of ** only are dropped, and with them all they match")
        drop = [c for c, b in o.st.conds if norm(c, b)[0][0] in ("call", "given") and norm(c, b)[1] is False and any(meth(x, "remove_multi_wildcard_root") is not None for x in walk(c))]
        if alts[0] == "call" and len(contents(alts, o.st)) == 0 or alts[0] == "fresh" and not contents(alts, o.st):
            ctx.check("simplify.alternatives", con + " none dropped", not drop, f.loc, "alternatives made up of ** only are dropped, and with them all they match")


def within_all(t, sub, o):
    return any(x == sub for x in walk_all(t, o))


def identity(ctx):
    """What tells states of the search apart holds every fragment and how they are nested."""
    f = ctx.p.find_method(f"{SEL}.Selector", "fragment_list")
    S = ("param", f.params()[0])
    NX = ("attr", S, "next")
    for o in normals(paths(ctx, f, inline=pol(), merge=False)):
        con = "selector"
        has = within(o.val, ("attr", S, "fragment"))
        rest = any(meth(x, "fragment_list") == NX for x in walk(o.val))
        ctx.check("identity", con, has and (rest or given(o, NX) is False), f.loc, f"a query is identified by {fmt(o.val)}")
    f = ctx.p.find_method(f"{SEL}.MultiSelector", "fragment_list")
    S = ("param", f.params()[0])
    NX, ALT = ("attr", S, "next"), ("attr", S, "selectors")
    for o in normals(paths(ctx, f, inline=pol(), merge=False, loop_iters=(2,), distinct=True)):
        con = "alternatives"
        alt = [x for x in walk_all(o.val, o) if meth(x, "fragment_list") is not None and meth(x, "fragment_list")[:2] == ("elem", ALT)]
        rest = any(meth(x, "fragment_list") == NX for x in walk_all(o.val, o))
        ctx.check("identity", con, bool(alt) and (rest or given(o, NX) is False), f.loc, f"alternatives are identified by {fmt(o.val)}")
        if alt:
            nested = any(x[0] in ("tuple", "list") and any(y in alt for y in x[1:]) or x[0] == "comp" and x[2] in alt or x[0] == "fresh" and any(y in alt for y in o.st.heap.get((x, "@contents"), ())) for x in walk_all(o.val, o))
            ctx.check("identity", con + " nesting", nested, f.loc, "{a,b} and {a/b} have the same identity")
        first = o.val
        while first[0] == "bin" and first[1] == "+":
            first = first[2]
        if sum(e.kind == "loop" for e in o.st.events) > 1:
            ctx.check("identity", con + " every", len(set(alt)) > 1, f.loc, "alternatives are dropped from the identity")
        if alt and first[0] == "tuple" and len(set(alt)) > 1:
            ctx.check("identity", con + " grouped", len(first) == 2, f.loc, "alternatives and what follows them have the same identity as other alternatives")
    ctx.floor("identity", 2)


# ------------------------------------------------------------------ the search
def search(ctx):
    f = ctx.func(f"{SEARCH}.search")
    ROOT = ("param", f.params()[1])
    n = {"match": 0, "cont": 0}
    FRES = ("class", f"{SEARCH}.FilterResult")
    for o in paths(ctx, f, inline=pol(deny=("query_for_module",)), merge=False, loop_iters=(1,), cap=6000):
        if o.kind != "return":
            continue
        ev = list(o.st.events)
        steps = [e for e in ev if e.kind == "call" and e.name.endswith("matches_and_continuations")]
        if not steps or len(steps[0].args) != 2:
            ctx.skip("search", "search", "the step of the matcher was not recognised")
            break
        st0 = steps[0]
        sel = meth(st0.value, "matches_and_continuations")
        item = sel[1] if sel[0] == "attr" else None
        name, child = st0.args
        pair = child[1] if child[0] == "item" and child[2] == const(1) else None
        con = "search"
        if item is None or pair is None or name != ("item", pair, const(0)):
            ctx.skip("search", con, "the enumeration of children was not recognised")
            continue
        kids = pair[1]
        res = meth(kids, "named_children")
        ctx.check("search.children", con, res is not None and within(res, item), st0.loc, f"modules are taken from {fmt(kids)[:100]}")
        if res is None:
            continue
        PM = res                          # module whose children are looked at
        PR = res[1] if res[0] == "attr" else None
        MT, CT = (("elem", ("item", st0.value, const(k))) for k in (0, 1))
        # what was collected
        outs = [e for e in ev if e.kind == "call" and e.name.endswith(".append") and e.args and e.args[0][0] == "call" and e.args[0][1] == FRES and within(e.args[0], child)]
        known = None
        for c, b in o.st.conds:
            if c[0] == "cmp" and c[1] == "in" and c[2] == child:
                known = b
        full = [e for e in outs if not any(x[0] == "call" and "_ActiveSearchItem" in fmt(x[1]) for x in walk(e.args[0]))]
        hits = [e for e in outs if within(e.args[0], ("attr", MT, "fragment"))]
        if known is not True:
            n["match"] += 1
            ctx.check("search.matches", con, len(hits) >= 1 and within_all(o.val, hits[0].args[0], o) or len(hits) >= 1 and hits[0].obj == o.val, f.loc, "a match is not part of the result")
        else:
            ctx.check("search.matches", con + " once", not hits, f.loc, "a module is found twice")
        if known is None and hits and not any(within(c, child) and not within(c, CT) and c[0] != "nonempty" for c, b in o.st.conds):
            ctx.check("search.matches", con + " new", False, f.loc, "it is not looked at whether a module was found before")
        for e in hits:
            entry(ctx, o, e.args[0], PR, PM, name, child, e.loc)
        # where the search goes on
        nxt = [x for e in ev if e.kind == "call" and e.name.rsplit(".", 1)[-1] in ("append", "appendleft", "extend", "insert", "add", "put") for x in e.args if x[0] == "call" and within(x, ("attr", CT, "selector")) and x[1][0] == "class"]
        marks = [(c, b) for c, b in o.st.conds if c[0] == "cmp" and c[1] in ("in", "==") and any(within(x, ("attr", CT, "selector")) for x in c[2:])]
        cons = next((b for c, b in o.st.conds if c == ("attr", CT, "consume")), None)
        if cons is None:
            ctx.check("search.continue", con, False, f.loc, "it is not looked at whether a continuation goes on in the child")
            continue
        n["cont"] += 1
        for c, b in marks:
            key = next(x for x in c[2:] if within(x, ("attr", CT, "selector")))
            at = child if cons else PM
            mod = any(places(x, at, PR) for x in (key[1:] if key[0] == "tuple" else (key,)))
            idq = any(meth(x, "fragment_list") == ("attr", CT, "selector") for x in walk(key)) or any(x == ("attr", CT, "selector") for x in (key[1:] if key[0] == "tuple" else ()))
            ctx.check("search.marker", con + (" child" if cons else " same"), mod and idq, f.loc, f"a state of the search is identified by {fmt(key)[:120]}")
            added = any(e.kind == "call" and e.name.endswith(".add") and e.args[:1] == (key,) for e in ev)
            if not b:
                ctx.check("search.marker", con + " recorded", added or not [e for e in ev if e.name.endswith(".add")], f.loc, "a state that was followed is not recorded")
        old = any(b for c, b in marks)
        if not old:
            ctx.check("search.continue", con + (" child" if cons else " same"), len(nxt) >= 1, f.loc, "a continuation is not followed")
        else:
            ctx.check("search.continue", con + " known", True, f.loc)
        for x in nxt[:1]:
            rs = [y for y in walk(x) if y[0] == "call" and y[1] == FRES] or [y for y in walk(x) if y[0] == "call" and ref_name(y[1]).endswith("dataclasses.replace")]
            q = [y for y in (x[2] + tuple(v for _, v in x[3])) if y == ("attr", CT, "selector")]
            ctx.check("search.continue", con + " query", bool(q), f.loc, "the search goes on with another query")
            if cons:
                if rs and rs[0][1] == FRES:
                    entry(ctx, o, rs[0], PR, PM, name, child, f.loc)
                else:
                    ctx.check("search.continue", con + " place", within(x, child), f.loc, "the search does not go on in the child")
            else:
                other = [y for y in walk(x) if y == child]
                at = [y for y in walk(x) if y in (PR, PM)]
                ctx.check("search.continue", con + " place", not [y for y in rs if y[1] == FRES and arg(y, 1, "module") == child] and bool(at), f.loc, "a continuation that stays at its module goes on in the child")
        brk = [e for e in ev if e.kind == "endloop" and e.name == "break"]
        ctx.check("search.exhaustive", con, not brk, f.loc, "the search stops early")
    for e, k in (("search.matches", "match"), ("search.continue", "cont")):
        if not n[k] and not any(r == "search" for r, *_ in ctx.skipped):
            ctx.check(e, "search", False, f.loc, "nothing is found, or the search does not go on")
    start(ctx, f, ROOT)
    update(ctx)


def places(x, at, PR):
    """Whether this part of a key names the module at which the search is."""
    if x == at or x == ("attr", PR, "module"):
        return x == at
    if x[0] == "call" and x[1] == ("builtin", "id"):
        return places(x[2][0], at, PR)
    if x[0] == "attr" and x[2] == "module" and x[1][0] == "call":
        r = x[1]
        if ref_name(r[1]).endswith("dataclasses.replace"):
            return dict(r[3]).get("module", ("attr", r[2][0], "module")) in (at, ("attr", PR, "module"))
        return arg(r, 1, "module") == at
    return False


def entry(ctx, o, r, PR, PM, name, child, loc):
    """A search result names its module, its parent and the attribute it was found under."""
    con = "result"
    ctx.check("result.module", con, arg(r, 1, "module") == child, loc, f"the module of a result is {fmt(arg(r, 1, 'module', NONE))[:80]}")
    ctx.check("result.parent", con, arg(r, 2, "parent") == PM, loc, f"the parent of a result is {fmt(arg(r, 2, 'parent', NONE))[:80]}")
    ctx.check("result.attribute", con, arg(r, 3, "parent_attribute") == name, loc, f"the attribute of a result is {fmt(arg(r, 3, 'parent_attribute', NONE))[:80]}")
    full = arg(r, 0, "full_name", NONE)
    pn = ("attr", PR, "full_name")
    has = given(o, pn)
    parts = flat(full)
    if has is False:
        ctx.check("result.name", con + " top", [p for p in parts if p != const("")] in ([name], [pn, name]), loc, f"the name of a result is {fmt(full)[:100]}")
    elif has:
        ctx.check("result.name", con, parts == [pn, const("."), name], loc, f"the name of a result is {fmt(full)[:100]}")
    elif all(p in (pn, name) or p[0] == "const" for p in parts):
        ctx.check("result.name", con, False, loc, f"the name of a result is {fmt(full)[:100]} also below the root")
    else:
        ctx.skip("result.name", con, "the name was not recognised")


def flat(t):
    """Concatenated parts of a string."""
    if t[0] == "bin" and t[1] == "+":
        out = flat(t[2]) + flat(t[3])
    elif t[0] == "fstr":
        out = [y for x in t[1:] for y in (flat(x) if x[0] in ("fstr", "bin") else [x])]
        out = [y for x in out for y in ((x,) if x[0] != "tuple" else x[1:])]
    elif t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and t[1][1][0] == "const" and t[2] and t[2][0][0] in ("tuple", "list"):
        xs = t[2][0][1:]
        out = [y for i, x in enumerate(xs) for y in ([t[1][1]] if i else []) + flat(x)]
    else:
        return [t]
    merged = []
    for x in out:
        if merged and x[0] == "const" and merged[-1][0] == "const":
            merged[-1] = const(str(merged[-1][2]) + str(x[2]))
        else:
            merged.append(x)
    return [x for x in merged if x != const("")]


def start(ctx, f, ROOT):
    """The search starts at the root with the whole query and the caller's aliases."""
    for o in paths(ctx, f, inline=pol(deny=("query_for_module",)), merge=False, loop_iters=(0,)):
        qs = [e for e in o.st.events if e.kind == "call" and e.name == f"func:{SEARCH}.query_for_module"]
        if not qs:
            ctx.skip("search.start", "search", "the preparation of the query was not recognised")
            continue
        e = qs[0]
        ctx.check("search.start", "query", evarg(e, 0, "query") == ("param", f.params()[0]) and evarg(e, 1, "root") == ROOT, e.loc, "another query or root is used")
        for p in ("aliases", "root_aliases_attribute"):
            ctx.check("search.start", p, evarg(e, 9, p) == ("param", p), e.loc, f"{p} is not used")
        items = [x for x in o.st.events if x.kind == "call" and any(within(a, e.value) for a in x.args + tuple(v for _, v in x.kwargs)) and x.name.startswith("class:")]
        ctx.check("search.start", "root", any(within(x.value, ROOT) for x in items) or not items, f.loc, "the search does not start at the root")
        break
    g = ctx.func(f"{SEARCH}.query_for_module")
    Q, R, A = ("param", "query"), ("param", "root"), ("param", "aliases")
    for o in paths(ctx, g, inline=pol(), merge=False):
        if o.kind != "return":
            continue
        src = meth(o.val, "simplify") or o.val
        isstr = next((b for c, b in o.st.conds if c[0] == "isinstance" and c[1] == Q), None)
        if isstr is False:
            ctx.check("search.query", "given query", src == Q, g.loc, f"a given query becomes {fmt(o.val)}")
            continue
        if src[0] != "call":
            ctx.check("search.query", "string", False, g.loc, f"a query string becomes {fmt(o.val)}")
            continue
        ctx.check("search.query", "string", arg(src, 0, "raw") == Q, g.loc, f"a query string becomes {fmt(o.val)}")
        al = arg(src, 2, "aliases", NONE)
        if any(c == A and not b for c, b in o.st.conds) and not any(norm(c, b) == (("given", A), False) for c, b in o.st.conds):
            ctx.check("search.aliases", "empty", not any(x[0] == "call" and x[1] == ("builtin", "getattr") for x in walk(al)), g.loc, "no aliases were asked for, and those of the root are used")
        elif given(o, A):
            ctx.check("search.aliases", "given", al == A, g.loc, "given aliases are not used")
        elif given(o, A) is False:
            attr = [x for x in walk(al) if x[0] == "call" and x[1] == ("builtin", "getattr")]
            if attr:
                ctx.check("search.aliases", "of root", attr[0][2][:2] == (R, ("param", "root_aliases_attribute")), g.loc, f"aliases are taken from {fmt(al)}")
                isd = next((b for c, b in o.st.conds if c[0] == "isinstance" and c[1] == attr[0] or c[0] == "call" and attr[0] in c[2]), None)
                ctx.check("search.aliases", "of root checked", isd is True, g.loc, "anything under that attribute is used as aliases")
            else:
                ctx.check("search.aliases", "none", al in (NONE, ("dict",)) or al[0] in ("fresh", "dict"), g.loc, f"aliases are {fmt(al)}")
        else:
            ctx.check("search.aliases", "given", al == A, g.loc, "given aliases are not used")
    ctx.floor("search.query", 2)


def update(ctx):
    f = ctx.p.find_method(f"{SEARCH}.FilterResult", "update_module")
    S, R, SAFE = (("param", x) for x in f.params()[:3])
    P, A, MO = (("attr", S, x) for x in ("parent", "parent_attribute", "module"))
    cur = ("call", ("builtin", "getattr"), (P, A), ())
    for o in paths(ctx, f, inline=pol(), merge=False):
        sets = [e for e in o.st.events if e.kind == "setattr" or e.kind == "call" and e.name in ("builtin:setattr",)]
        sets = [e for e in sets if e.obj == P or e.args[:1] == (P,)]
        safe = next((b for c, b in ((norm(c, b)) for c, b in o.st.conds) if c == SAFE), None)
        same = next((b for c, b in o.st.conds if c[0] == "cmp" and c[1] == "is" and MO in c[2:] and any(x[0] == "call" and x[1] == ("builtin", "getattr") and x[2][:2] == (P, A) for x in c[2:])), None)
        if o.kind == "raise":
            ctx.check("update.safe", "refused", not sets and (safe is not False) and same is False, f.loc, "an update is refused or partially done for no reason")
            continue
        ctx.check("update.safe", "update", safe is False or same is True, f.loc, "a module that is no longer there is overwritten")
        ok = len(sets) == 1 and (sets[0].args[:1] == (A,) and sets[0].value == R or sets[0].args == (P, A, R))
        ctx.check("update.place", "update", ok, f.loc, "the replacement is not put where the module was found")
        ctx.check("update.result", "update", o.val[0] == "call" and dict(o.val[3]).get("module", arg(o.val, 1, "module")) == R, f.loc, f"the result refers to {fmt(o.val)[:80]}")
    ctx.floor("update.place", 1)


# ------------------------------------------------------------------ collections of results
SETOPS = {"union": ("|", "union"), "intersection": ("&", "intersection"), "difference": ("-", "difference"), "symmetric_difference": ("^", "symmetric_difference")}
OPERATORS = {"__or__": "union", "__and__": "intersection", "__sub__": "difference", "__xor__": "symmetric_difference"}


def collection(ctx):
    C = f"{SEARCH}.MPathCollection"
    init = ctx.p.find_method(C, "__init__")
    IS = ("param", init.params()[0])
    RES = ROOTA = None
    for o in paths(ctx, init, inline=no_inline, yield_raises=False):
        for e in o.st.events:
            if e.kind == "setattr" and e.value is not None:
                if e.value == ("param", "root"):
                    ROOTA = e.name
                elif within(e.value, ("param", "results")):
                    RES = e.name
                    ctx.check("collection.copy", "constructor", e.value[0] in ("call", "comp"), e.loc, "a collection shares the list it was made from")
    if RES is None or ROOTA is None:
        ctx.skip("collection", "constructor", "the results were not recognised")
        return
    inl = pol(deny=("update_module",))
    for m, (op, word) in SETOPS.items():
        f = ctx.p.find_method(C, m)
        if f is None:
            continue
        S, O = ("param", f.params()[0]), ("param", f.params()[1])
        a, b = ("attr", S, RES), ("attr", O, RES)
        for o in paths(ctx, f, inline=inl, merge=False):
            root = next((bb for c, bb in o.st.conds if c[0] == "cmp" and c[1] in ("is", "==") and set(c[2:]) == {("attr", S, ROOTA), ("attr", O, ROOTA)}), None)
            if o.kind == "raise":
                ctx.check("collection.root", m, root is False, f.loc, "collections of the same model cannot be combined")
                continue
            ctx.check("collection.root", m, root is True, f.loc, "collections of different models are combined")
            r = arg(o.val, 1, "results", NONE) if o.val[0] == "call" else NONE
            ctx.check("collection.root", m + " result", o.val[0] == "call" and arg(o.val, 0, "root") in (("attr", S, ROOTA), ("attr", O, ROOTA)), f.loc, "the result belongs to another model")
            k = setop(r)
            if k is None:
                ctx.skip("collection.setop", m, f"{fmt(r)[:80]} was not recognised")
            else:
                good = k[0] == m and (k[1:] == (a, b) or m != "difference" and k[1:] == (b, a))
                ctx.check("collection.setop", m, good, f.loc, f"the {m} is computed as {fmt(r)[:100]}")
    for m, word in OPERATORS.items():
        f = ctx.p.find_method(C, m)
        if f is None:
            continue
        S, O = ("param", f.params()[0]), ("param", f.params()[1])
        for o in paths(ctx, f, inline=no_inline, merge=False):
            if o.kind != "return" or "NotImplemented" in fmt(o.val):
                continue
            r = meth(o.val, word)
            ctx.check("collection.operator", m, r is not None and (r == S and margs(o.val) == (O,) or word != "difference" and r == O and margs(o.val) == (S,)), f.loc, f"{m} is {fmt(o.val)[:80]}")
    f = ctx.p.find_method(C, "__getitem__")
    S, K = ("param", f.params()[0]), ("param", f.params()[1])
    for o in normals(paths(ctx, f, inline=inl, merge=False)):
        it = ("item", ("attr", S, RES), K)
        ctx.check("collection.item", "item", within(o.val, it), f.loc, f"an element is {fmt(o.val)[:80]}")
    for m, want in (("__len__", lambda S: ("call", ("builtin", "len"), (("attr", S, RES),), ())),):
        f = ctx.p.find_method(C, m)
        for o in normals(paths(ctx, f, inline=inl, merge=False)):
            ctx.check("collection.item", m, o.val == want(("param", f.params()[0])), f.loc, f"the length is {fmt(o.val)}")
    # enumeration
    E = lambda S: ("elem", ("attr", S, RES))
    for m, shape in (("named_modules", lambda e: ("tuple", ("attr", e, "full_name"), ("attr", e, "module"))), ("parents", lambda e: ("tuple", ("attr", e, "parent"), ("attr", e, "module"))), ("modules", lambda e: ("attr", e, "module"))):
        f = ctx.p.find_method(C, m)
        S = ("param", f.params()[0])
        n = 0
        for o in normals(paths(ctx, f, inline=inl, merge=False, loop_iters=(1,))):
            for e in o.st.events:
                if e.kind == "yield":
                    n += 1
                    v = e.value
                    want = shape(E(S))
                    got = v
                    if m == "modules" and v[0] == "item" and v[2] == const(1):
                        got = ("attr", E(S), "module") if meth(v[1][1] if v[1][0] == "elem" else NONE, "named_modules") == S else v
                    ctx.check("collection.enumerate", m, got == want, e.loc, f"{m} yields {fmt(v)[:80]}")
            ctx.check("collection.enumerate", m + " all", all(e.name == "for" for e in o.st.events if e.kind == "endloop"), f.loc, f"{m} stops early")
        if not n:
            ctx.skip("collection.enumerate", m, "nothing was recognised")
    apply(ctx, C, RES, inl)


def setop(r):
    while r[0] == "call" and r[1] in (("builtin", "list"), ("builtin", "tuple"), ("builtin", "set"), ("builtin", "sorted")) and len(r[2]) == 1 and r[2][0][0] in ("bin", "call"):
        if r[1] == ("builtin", "set") and r[2][0][0] == "attr":
            break
        r = r[2][0]

    def plain(x):
        return x[2][0] if x[0] == "call" and x[1] in (("builtin", "set"), ("builtin", "frozenset")) and len(x[2]) == 1 else x

    if r[0] == "bin":
        for m, (op, _) in SETOPS.items():
            if r[1] == op:
                return (m, plain(r[2]), plain(r[3]))
    if r[0] == "call" and r[1][0] == "attr":
        for m, (_, w) in SETOPS.items():
            if r[1][2] == w and len(r[2]) == 1:
                return (m, plain(r[1][1]), plain(r[2][0]))
    return None


def apply(ctx, C, RES, inl):
    f = ctx.p.find_method(C, "apply")
    S, FN = ("param", f.params()[0]), ("param", f.params()[1])
    E = ("elem", ("attr", S, RES))
    n = 0
    for o in normals(paths(ctx, f, inline=inl, merge=False, loop_iters=(1,))):
        calls = [e for e in o.st.events if e.kind == "call" and e.obj == FN]
        ctx.check("apply.called", "apply", len(calls) == 1 and calls[0].args == (("attr", E, "full_name"), ("attr", E, "module")), f.loc, "the function is not called once with the name and module of every result")
        if not calls:
            continue
        NEW = calls[0].value
        up = [e for e in o.st.events if e.kind == "call" and e.name.endswith("update_module")]
        upd = next((b for c, b in (norm(c, b) for c, b in o.st.conds) if c == ("param", "update")), None)
        got = given(o, NEW)
        want = upd is True and got is True
        n += bool(up)
        ctx.check("apply.update", "apply", bool(up) == want, f.loc, "a module is replaced by nothing or although it was not to be updated" if up else "a module is not replaced")
        for e in up:
            r = meth(e.value, "update_module")
            ctx.check("apply.update", "apply arguments", r == E and evarg(e, 0, "replacement") == NEW and evarg(e, 1, "safe") == ("param", "safe"), e.loc, "another module is replaced, or safety is not passed on")
        new = None
        for e in o.st.events:
            if e.kind == "setattr" and e.name == RES and e.obj == S:
                new = e.value
        if new is not None:
            keep = contents(new, o.st)
            ctx.check("apply.results", "apply", len(keep) == 1 and (keep[0] == up[0].value if up else keep[0] == E), f.loc, "the collection does not follow the replacement")
        else:
            w = [e for e in o.st.events if e.kind == "setitem" and e.obj == ("attr", S, RES)]
            ctx.check("apply.results", "apply", not up or bool(w), f.loc, "the collection does not follow the replacement")
    ctx.check("apply.update", "any", n > 0, f.loc, "no module is ever replaced")
    f = ctx.p.find_method(C, "map")
    S, FN = ("param", f.params()[0]), ("param", f.params()[1])
    for o in normals(paths(ctx, f, inline=inl, merge=False, loop_iters=(1,))):
        calls = [e for e in o.st.events if e.kind == "call" and e.obj == FN]
        ctx.check("map.called", "map", len(calls) == 1 and not [e for e in o.st.events if e.kind == "endloop" and e.name == "break"], f.loc, "the function is not called once for every result")
        ctx.check("map.result", "map", bool(calls) and [calls[0].value] == contents(o.val, o.st), f.loc, f"the result is {fmt(o.val)[:80]}")


# ------------------------------------------------------------------ parser
def parser(ctx):
    P = f"{PARSER}.Parser"
    if P not in ctx.p.classes:
        ctx.skip("parse", "Parser", "not found")
        return
    TT = lambda n: ("attr", ("class", f"{PARSER}.TokenType"), n)

    def is_tok(t, n):
        return t == TT(n) or t[0] in ("global", "enum", "attr", "const") and fmt(t).endswith("." + n)

    alias(ctx, P, is_tok)
    extension(ctx, P, is_tok)
    register(ctx)
    # single characters
    m = ctx.p.module(PARSER)
    table = next((st.value for st in m.tree.body if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == "SINGLE_CHAR_TOKENS" and isinstance(st.value, ast.Dict)), None)
    if table is None:
        ctx.skip("parse.tokens", "table", "the table of characters was not recognised")
    else:
        want = {"(": "LEFT_PAREN", ")": "RIGHT_PAREN", "[": "LEFT_BRACKET", "]": "RIGHT_BRACKET", "{": "LEFT_BRACE", "}": "RIGHT_BRACE", ":": "COLON", ",": "COMMA", "~": "TILDE", "&": "AMPERSAND", "/": "FORWARD_SLASH", "\\": "BACKWARD_SLASH", "*": "ASTERISK"}
        got = {ast.literal_eval(k): v.attr for k, v in zip(table.keys, table.values) if isinstance(v, ast.Attribute)}
        for ch, t in want.items():
            ctx.check("parse.tokens", ch, got.get(ch) == t, f"{m.path}:{table.lineno}", f"{ch} is read as {got.get(ch)}")
    peek(ctx, is_tok)
    until(ctx, P, is_tok)
    fragment(ctx, P, is_tok)
    sequence(ctx, P, is_tok)


def peek(ctx, is_tok):
    T = f"{PARSER}.Tokenizer"
    f = ctx.p.find_method(T, "next")
    if f is None:
        ctx.skip("parse.next", "next", "not found")
        return
    S = ("param", f.params()[0])
    for o in normals(paths(ctx, f, inline=no_inline, merge=False)):
        eol = next((b for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and any(is_tok(x, "EOL") for x in c[2:])), None)
        cleared = [e for e in o.st.events if e.kind == "setattr" and e.obj == S and e.value == NONE]
        ctx.check("parse.next", "next", meth(o.val, "peek") == S, f.loc, f"the next token is {fmt(o.val)}")
        if eol is False:
            ctx.check("parse.next", "next advances", len(cleared) == 1, f.loc, "a token is read again")
        elif eol is None:
            ctx.check("parse.next", "next end", False, f.loc, "reading does not stop at the end")
    f = ctx.p.find_method(f"{PARSER}.Parser", "consume")
    S, K = ("param", f.params()[0]), ("param", f.params()[1])
    for o in normals(paths(ctx, f, inline=no_inline, merge=False)):
        same = next((b for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] == "==" and K in c[2:]), None)
        adv = any(e.kind == "call" and e.name.endswith("next") for e in o.st.events)
        ctx.check("parse.consume", "consume", (o.val != NONE) == bool(same) and adv == bool(same), f.loc, "a token of another kind is consumed" if not same else "a token is not consumed")


def until(ctx, P, is_tok):
    """An input runs to the first closing bracket that is not escaped."""
    f = ctx.p.find_method(P, "consume_until")
    if f is None:
        ctx.skip("parse.until", "until", "not found")
        return
    S, K, X = (("param", x) for x in f.params()[:3])
    seen = set()
    def look(i, fn, args, kw, st, loc, f):
        """The token looked at changes with every token read."""
        k = sum(e.kind == "call" and e.name.endswith("next") for e in st.events)
        return i.V(st, ("call", fn, args, (("after", const(k)),)))

    peeks = {k: look for k in ("method:.peek", f"func:{PARSER}.Tokenizer.peek")}
    for o in paths(ctx, f, inline=no_inline, merge=False, loop_iters=(1, 2, 3, 4), distinct=True, models=peeks):
        con = "until"
        # the tokens in order: kind == sentinel, is EOL, is escape
        toks, cur = [], None
        for c, b in o.st.conds:
            c, b = norm(c, b)
            src = [x for x in walk(c) if meth(x, "peek") is not None or x[0] == "call" and ref_name(x[1]).endswith("peek")]
            if not src:
                continue
            what = "kind" if c[0] == "cmp" and c[1] == "==" and K in c[2:] else "eol" if c[0] == "cmp" and any(is_tok(y, "EOL") for y in c[2:]) else "esc" if c[0] == "cmp" and c[1] == "in" and X in c[2:] else None
            if what is None:
                continue
            if not toks or what in toks[-1]:
                toks.append({})
            toks[-1][what] = b
        if o.kind != "return" or not toks:
            continue
        nexts = [e for e in o.st.events if e.kind == "call" and e.name.endswith("next")]
        seen.add(len(toks))
        ctx.check("parse.until", con, toks[-1].get("kind") is True, f.loc, "reading stops at another token")
        ctx.check("parse.until", con + " all", len(nexts) == len(toks), f.loc, "tokens are skipped or read twice")
        esc = False
        for t in toks[:-1]:
            if t.get("kind") and not esc:
                ctx.check("parse.until", con + " first", False, f.loc, "reading goes past the closing token")
            esc = bool(t.get("esc")) and not esc
        ctx.check("parse.until", con + " escaped", not esc, f.loc, "reading stops at an escaped token")
    if not seen:
        ctx.skip("parse.until", "until", "no path was recognised")


def extension(ctx, P, is_tok):
    f = ctx.p.find_method(P, "_parse_extension")
    if f is None:
        ctx.skip("parse.extension", "extension", "not found")
        return
    S = ("param", f.params()[0])
    n = 0
    for o in paths(ctx, f, inline=no_inline, merge=False):
        if o.kind != "return":
            continue
        con = "extension"
        calls = [e for e in o.st.events if e.kind == "call" and ("from_raw_string" in e.name or "from_raw_string" in fmt(e.value[1]))]
        ctx.check("parse.extension", con, len(calls) == 1 and o.val == calls[0].value, f.loc, f"an extension gives {fmt(o.val)[:80]}")
        if not calls:
            continue
        e = calls[0]
        n += 1
        spec = e.args[0]
        sl = spec if spec[0] == "item" else next((x for x in walk(spec) if x[0] == "item" and x[2][0] == "slice"), None)
        exp = [x for x in o.st.events if x.kind == "call" and x.name.endswith("expect")]
        unt = [x for x in o.st.events if x.kind == "call" and x.name.endswith("consume_until")]
        colon = next((x.value for x in exp if any(is_tok(a, "COLON") for a in x.args)), None)
        if sl is None or not unt or colon is None:
            ctx.skip("parse.extension", con, "the input of an extension was not recognised")
            continue
        lo, hi = sl[2][1], sl[2][2]
        ok = lo == ("bin", "+", ("attr", colon, "position"), const(1)) or lo == ("bin", "+", const(1), ("attr", colon, "position"))
        ctx.check("parse.extension", con + " input", ok and hi == ("attr", unt[0].value, "position") and any(is_tok(a, "RIGHT_BRACKET") for a in unt[0].args), f.loc, f"the input of an extension is {fmt(sl)[:100]}")
        esc = evarg(unt[0], 1, "escape_tokens")
        ctx.check("parse.extension", con + " escapes", esc is not None and any(is_tok(x, "BACKWARD_SLASH") for x in walk(esc)), f.loc, "a closing bracket cannot be escaped")
        ctxl = next((b for c, b in o.st.conds if c[0] == "call" and c[1] == ("builtin", "issubclass") and "Contextual" in fmt(c[2][1])), None)
        two = "with_context" in fmt(e.value[1])
        if ctxl is not None:
            ctx.check("parse.extension", con + " context", two == ctxl and (not two or len(e.args) == 2 and fmt(e.args[1]).endswith("_context")), f.loc, "an extension does not get the context it asks for")
        known = next((b for c, b in o.st.conds if c[0] == "cmp" and c[1] == "in" and "fragment_extensions" in fmt(c[3])), None)
        tag = next((x.value for x in exp if any(is_tok(a, "IDENTIFIER") for a in x.args)), None)
        ext = [x for x in walk(e.value[1]) if x[0] == "item" and "fragment_extensions" in fmt(x[1])]
        ctx.check("parse.extension", con + " tag", not ext or tag is not None and ext[0][2] == ("attr", tag, "raw"), f.loc, "another extension is used")
    if not n:
        ctx.skip("parse.extension", "extension", "no use of an extension was recognised")


def alias(ctx, P, is_tok):
    f = ctx.p.find_method(P, "_parse_alias")
    if f is None:
        ctx.skip("parse.alias", "alias", "not found")
        return
    for o in paths(ctx, f, inline=no_inline, merge=False):
        if o.kind != "return":
            continue
        exp = [x for x in o.st.events if x.kind == "call" and x.name.endswith("expect")]
        ident = next((x.value for x in exp if any(is_tok(a, "IDENTIFIER") for a in x.args)), None)
        v = o.val
        ok = ident is not None and v[0] == "item" and fmt(v[1]).endswith("_aliases") and v[2] == ("attr", ident, "raw")
        ctx.check("parse.alias", "alias", ok or v[0] == "call" and meth(v, "get") is not None and ident is not None and v[2][0] == ("attr", ident, "raw"), f.loc, f"an alias stands for {fmt(v)[:80]}")


def fragment(ctx, P, is_tok):
    """Every kind of token starts the fragment it stands for."""
    f = ctx.p.find_method(P, "_parse_fragment")
    if f is None:
        ctx.skip("parse.fragment", "fragment", "not found")
        return
    S = ("param", f.params()[0])
    seen = set()
    for o in paths(ctx, f, inline=no_inline, merge=False):
        kinds = set()
        stars = None
        for c, b in o.st.conds:
            c, b = norm(c, b)
            if b and c[0] == "cmp" and c[1] in ("==", "is", "in"):
                for n in ("LEFT_BRACKET", "DIGIT", "IDENTIFIER", "ASTERISK", "LEFT_BRACE", "TILDE", "AMPERSAND"):
                    if any(is_tok(x, n) for y in c[2:] for x in walk(y)):
                        kinds.add(n)
            x = c[1] if c[0] == "given" else c
            if meth(x, "consume") == S and margs(x) and is_tok(margs(x)[0], "ASTERISK"):
                stars = b
        if o.kind == "raise":
            ctx.check("parse.fragment", "refused", not kinds, f.loc, f"a query with {sorted(kinds)} is refused")
            continue
        if len(kinds) != 1 and not kinds <= {"DIGIT", "IDENTIFIER"} or not kinds:
            if not kinds:
                ctx.check("parse.fragment", "unknown", False, f.loc, f"any token is read as {fmt(o.val)[:80]}")
            else:
                ctx.skip("parse.fragment", "kinds", f"{sorted(kinds)}")
            continue
        k = sorted(kinds)[0]
        seen |= kinds
        v = o.val
        if k == "LEFT_BRACKET":
            ok = meth(v, "_parse_extension") == S
        elif k in ("DIGIT", "IDENTIFIER"):
            ok = meth(v, "_parse_path_fragment") == S or "PathFragment" in fmt(v)
        elif k == "LEFT_BRACE":
            ok = meth(v, "_parse_multi_selector") == S
        elif k == "AMPERSAND":
            ok = meth(v, "_parse_alias") == S
        elif k == "TILDE":
            used = any(e.kind == "call" and e.name.rsplit(".", 1)[-1] in ("expect", "consume", "next") for e in o.st.events)
            ok = used and v[0] == "un" and meth(v[-1], "_parse_fragment") == S
        else:
            w = next((x for x in walk(v) if x[0] == "call" and x[1] == WILD), None)
            mm = arg(w, 0, "match_multiple", TRUE) if w else None
            if mm is not None and mm[0] != "const":
                mm = const(stars) if stars is not None else mm
                ctx.skip("parse.fragment", k, "the wildcard was not recognised")
                continue
            ok = w is not None and stars is not None and mm == const(stars)
        if meth(v, "_parse_extension") is None and not v[0] in ("call", "un"):
            ctx.skip("parse.fragment", k, f"{fmt(v)[:60]} was not recognised")
            continue
        ctx.check("parse.fragment", k, ok, f.loc, f"{k} is read as {fmt(v)[:80]}" + (" after two stars" if stars else ""))
    missing = {"LEFT_BRACKET", "DIGIT", "IDENTIFIER", "ASTERISK", "LEFT_BRACE", "TILDE", "AMPERSAND"} - seen
    if not any(r == "parse.fragment" for r, *_ in ctx.skipped):
        ctx.check("parse.fragment", "all", not missing, f.loc, f"{sorted(missing)} cannot be read")
    g = ctx.p.find_method(P, "_parse_path_fragment")
    if g is not None:
        for o in normals(paths(ctx, g, inline=no_inline, merge=False)):
            fr = next((x for x in walk(o.val) if x[0] == "call" and x[1] == ("class", f"{FRAG}.PathFragment")), None)
            a = fr[2][0] if fr and fr[2] else NONE
            ctx.check("parse.fragment", "path", a[0] == "attr" and a[2] == "raw", g.loc, f"a name is read as {fmt(o.val)[:80]}")


def sequence(ctx, P, is_tok):
    f = ctx.p.find_method(P, "_parse_selector")
    if f is not None:
        S = ("param", f.params()[0])
        for o in paths(ctx, f, inline=no_inline, merge=False, loop_iters=(1, 2), distinct=True):
            if o.kind != "return":
                continue
            parts = [e.value for e in o.st.events if e.kind == "call" and e.name.endswith("_parse_fragment")]
            red = o.val
            if red[0] == "call" and ref_name(red[1]).endswith("functools.reduce") and len(red[2]) == 3:
                lst = red[2][2]
                src = lst[1] if lst[0] == "item" else None
                ok = "truediv" in fmt(red[2][0]) and src is not None and lst[2] == const(0) and red[2][1] == ("item", src, ("slice", const(1), NONE, NONE))
                known = lst in parts or src is not None
                ctx.check("parse.sequence", "query", ok or lst == parts[:1] or known and (ok or lst[0] == "call" and "truediv" in fmt(red[2][0])), f.loc, f"fragments are joined as {fmt(o.val)[:120]}")
            else:
                ctx.skip("parse.sequence", "query", f"{fmt(red)[:80]} was not recognised")
            sl = [norm(c, b) for c, b in o.st.conds]
            cut = [b for c, b in sl if (meth(c[1] if c[0] == "given" else c, "consume") == S) and is_tok(margs(c[1] if c[0] == "given" else c)[0], "FORWARD_SLASH")]
            if cut:
                ctx.check("parse.sequence", "all", not (cut[-1] and not any(is_tok(margs(c[1] if c[0] == "given" else c)[0], "EOL") and b for c, b in sl if meth(c[1] if c[0] == "given" else c, "consume") == S)), f.loc, "reading stops although a fragment follows")
    f = ctx.p.find_method(P, "parse")
    S = ("param", f.params()[0])
    for o in paths(ctx, f, inline=no_inline, merge=False):
        eol = next((b for c, b in (norm(c, b) for c, b in o.st.conds) if meth(c[1] if c[0] == "given" else c, "consume") == S and is_tok(margs(c[1] if c[0] == "given" else c)[0], "EOL")), None)
        if o.kind == "raise":
            continue
        exp = any(e.kind == "call" and e.name.endswith("expect") and any(is_tok(a, "EOL") for a in e.args) for e in o.st.events)
        ctx.check("parse.complete", "query", eol is True or exp, f.loc, "what follows a query is ignored")
    f = ctx.p.find_method(P, "_parse_multi_selector")
    if f is not None:
        S = ("param", f.params()[0])
        for o in paths(ctx, f, inline=no_inline, merge=False, loop_iters=(1, 2), distinct=True):
            if o.kind != "return":
                continue
            got = [e.value for e in o.st.events if e.kind == "call" and e.name.endswith("_parse_selector")]
            keep = contents(arg(o.val, 1, "selectors", NONE), o.st) if o.val[0] == "call" else []
            ctx.check("parse.alternatives", "alternatives", [x for x in keep] == got or len(keep) == len(got) and bool(got), f.loc, "alternatives are dropped")
            ctx.check("parse.alternatives", "rest", o.val[0] == "call" and arg(o.val, 0, "next") == NONE, f.loc, "")


def register(ctx):
    q = f"{PARSER}.register_mpath_query_extension"
    f = ctx.func(q)
    TAG, EXT, OV = (("param", x) for x in f.params()[:3])
    for o in paths(ctx, f, inline=no_inline, merge=False):
        known = next((b for c, b in (norm(c, b) for c, b in o.st.conds) if c[0] == "cmp" and c[1] == "in" and c[2] == TAG), None)
        ov = next((b for c, b in (norm(c, b) for c, b in o.st.conds) if c == OV), None)
        sets = [e for e in o.st.events if e.kind == "setitem"]
        if o.kind == "raise":
            ctx.check("register", "refused", not sets, f.loc, "an extension is refused after it was registered")
            continue
        ctx.check("register", "stored", len(sets) == 1 and sets[0].args[0] == TAG and sets[0].value == EXT, f.loc, "an extension is not registered under its tag")
        ctx.check("register", "override", known is False or ov is True, f.loc, "an existing extension is replaced without being asked for")
    c = f"{PARSER}.QueryExtensionContext"
    if c not in ctx.p.classes:
        return
    g = ctx.p.find_method(c, "__exit__")
    if g is None:
        return
    undo, saved, drops = 0, set(), []
    for o in normals(paths(ctx, g, inline=no_inline, merge=False)):
        dele = [e for e in o.st.events if e.kind in ("delitem", "del") or e.kind == "call" and e.name.endswith(".pop")]
        back = [e for e in o.st.events if e.kind == "setitem"]
        undo += len(back)
        ctx.check("register.undo", "exit", bool(dele) or bool(back), g.loc, "an extension stays registered after its context")
        ctx.check("register.undo", "exit result", o.val in (NONE, FALSE), g.loc, "exceptions are swallowed")
        saved |= {e.value for e in back}
        if dele and not back:
            drops.append([norm(c, b) for c, b in o.st.conds])
    for conds in drops:
        none = any((c in saved or c[0] == "given" and c[1] in saved) and not b or c[0] == "cmp" and c[1] in ("is", "==") and (c[2] in saved or c[3] in saved) and b or c[0] == "isinstance" and c[1] in saved and not b for c, b in conds)
        ctx.check("register.undo", "dropped", none or not saved, g.loc, "the extension that was overridden is dropped on a path that does not depend on whether there was one")
    ctx.check("register.undo", "overridden", undo > 0, g.loc, "the extension that was overridden is not restored")


# ------------------------------------------------------------------ whose names a query refers to
def frames(ctx):
    """Names in a query are those of the caller of the public function: frames are counted."""
    GET = f"{PARSER}.get_caller_context"
    f = ctx.func(GET)
    p0 = f.params()[0]
    base = None
    default = next((d.value for d in f.node.args.defaults if isinstance(d, ast.Constant)), None)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "range" and len(n.args) == 1:
            a = n.args[0]
            if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add) and {type(a.left), type(a.right)} == {ast.Name, ast.Constant}:
                base = (a.left if isinstance(a.left, ast.Constant) else a.right).value
            elif isinstance(a, ast.Name):
                base = 0
    if base is None:
        ctx.skip("frames", "count", "the walk up the stack was not recognised")
        return
    # depth(F, k): number of frames above F that a call in F with depth k refers to
    forwards = {GET: (p0, base - 1, default)}  # function -> (parameter, offset: frames above the calling function - depth, default)
    todo = [GET]
    n = 0
    while todo:
        g = todo.pop()
        par, off, dflt = forwards[g]
        gf = ctx.p.funcs[g]
        for h in ctx.p.funcs.values():
            if h.module.name.split(".")[0] != "fastforward":
                continue
            for call in own_calls(h):
                r = ctx.p.resolve_expr(h.module, call.func)
                nm = call.func.attr if isinstance(call.func, ast.Attribute) else call.func.id if isinstance(call.func, ast.Name) else None
                if nm != gf.name:
                    continue
                if r is not None and r not in (("func", g),) and r[0] == "func":
                    continue
                kw = {k.arg: k.value for k in call.keywords}
                ps = gf.params()
                val = kw.get(par) or (call.args[ps.index(par)] if par in ps and ps.index(par) < len(call.args) else None)
                if val is None:
                    if par is not None and dflt is None:
                        continue
                    k = dflt if par is not None else 0
                elif isinstance(val, ast.Constant):
                    k = val.value
                elif isinstance(val, ast.Name) and val.id in h.all_params():
                    if h.qual not in forwards:
                        a = h.node.args
                        dd = {x.arg: d for x, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults)}
                        dd.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)})
                        d = dd.get(val.id)
                        forwards[h.qual] = (val.id, off - 1, d.value if isinstance(d, ast.Constant) else None)
                        todo.append(h.qual)
                    continue
                else:
                    continue
                up = k + off + 0
                # up == 1: the caller of h
                want = 2 if h.name == "caller_context" else 1
                if "<locals>" in h.qual or h.name.startswith("_") and not h.name.startswith("__"):
                    ctx.skip("frames", h.qual, "called from other functions")
                    continue
                n += 1
                ctx.check("frames", short(h.qual), up == want, f"{h.module.path}:{call.lineno}", f"names in a query are looked up {up} frames above {short(h.qual)} instead of {want}")
                if h.name == "caller_context" and h.qual not in forwards:
                    forwards[h.qual] = (None, up - 1, 0)
                    todo.append(h.qual)
    ctx.floor("frames", 4)


def own_calls(h):
    todo = list(ast.iter_child_nodes(h.node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        if isinstance(n, ast.Call):
            yield n
        todo.extend(ast.iter_child_nodes(n))
