"""Selection and initialization of quantizers.  Every path of initializing a collection or applying a
configuration is followed: what happens to a selected quantizer must be what the overwrite policy, the
safe option and the precedence of the rules say.  Tags and metadata are decided path by path on the
conditions and on the sets they add to or test."""
from __future__ import annotations

import ast

from .c03 import snippet
from .common import *

ASSUMPTIONS = ["the search returns the selected modules (decided by F01)", "quantizer factories have no other effect than returning a quantizer"]
QI = "fastforward.quantization.quant_init"
QM = "fastforward.nn.quantized_module.QuantizedModule"
QN = "fastforward.nn.quantizer"
QZ, STUB, META, TAG = QN + ".Quantizer", QN + ".QuantizerStub", QN + ".QuantizerMetadata", QN + ".Tag"
FR = "fastforward.mpath._search.FilterResult"
SELF, POLICY, SAFE = ("param", "self"), ("param", "overwrite_policy"), ("param", "safe")


def check(ctx):
    initialize(ctx)
    factory(ctx)
    update(ctx)
    collection(ctx)
    config(ctx)
    match(ctx)
    tags(ctx)
    metadata(ctx)
    registration(ctx)


def fact(o, pred):
    """The truth of the first path condition the predicate accepts."""
    return next((b for c, b in o.st.conds if pred(c)), None)


def policy_facts(o):
    res = {}
    for c, b in o.st.conds:
        if c[0] == "cmp" and c[1] in ("==", "is") and POLICY in c[2:]:
            x = c[3] if c[2] == POLICY else c[2]
            if x[0] == "const":
                res[x[2]] = b
        if c[0] == "cmp" and c[1] == "in" and c[2] == POLICY and c[3][0] in ("tuple", "list", "set") and not b:
            res.update({x[2]: False for x in c[3][1:] if x[0] == "const"})
    return res


def replaced(o):
    """[(search result, new module, safe)] of the modules put in place of a selected one."""
    res = []
    for e in o.st.events:
        if e.kind == "call" and e.name.endswith("update_module"):
            a = list(e.args) if e.obj is not None else list(e.args[1:])
            r = e.obj if e.obj is not None else e.args[0]
            kw = dict(e.kwargs)
            res.append((r, kw.get("replacement", a[0] if a else None), kw.get("safe", a[1] if len(a) > 1 else TRUE), e))
        if e.kind == "setattr" and e.name == "@dynamic" and e.obj[0] == "attr" and e.obj[2] == "parent":
            res.append((e.obj[1], e.value, SAFE, e))
    return res


def path_rules(ctx, o, con, loc, seen):
    """The rules on one path over at most one selected quantizer."""
    reps = replaced(o)
    isq = [(c[1], b) for c, b in o.st.conds if c[0] == "isinstance" and c[2] == ("class", QZ)]
    stub = [(c[1], b) for c, b in o.st.conds if c[0] == "isinstance" and c[2] == ("class", STUB)]
    stub += [(c[1][1], b) for c, b in o.st.conds if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "is_stub"]
    if not stub and not (isq and isq[-1][1] is False):
        ctx.check("init.guard", con, not reps, loc, "a module is replaced without looking whether it already is an initialized quantizer")
        return
    made = [e for e in o.st.events if e.kind == "call" and (e.name.startswith("param:") or e.name in ("method:.factory",) or e.name.endswith("quantizer_factory"))]
    if isq and isq[-1][1] is False:
        seen.add("no quantizer")
        ctx.check("init.no-quantizer", con, o.kind == "raise" and not reps, loc, "a module that is no quantizer is replaced or silently accepted")
        return
    pf = policy_facts(o)
    if stub[-1][1]:
        seen.add("stub")
        ctx.check("init.stub", con, o.kind == "return" and len(reps) == 1, loc, "a selected stub is not replaced exactly once")
    elif pf.get("error"):
        seen.add("error")
        ctx.check("init.error", con, o.kind == "raise" and not reps, loc, "an initialized quantizer is replaced although the policy is 'error'")
        return
    elif pf.get("skip"):
        seen.add("skip")
        ctx.check("init.skip", con, o.kind == "return" and not reps and not made, loc, "an initialized quantizer is not left alone although the policy is 'skip'")
        return
    elif pf.get("overwrite") is False:
        seen.add("illegal")
        ctx.check("init.illegal", con, o.kind == "raise" and not reps, loc, "an unknown policy is accepted")
        return
    elif pf.get("overwrite") or (pf.get("error") is False and pf.get("skip") is False):
        seen.add("overwrite")
        ctx.check("init.overwrite", con, o.kind == "return" and len(reps) == 1, loc, "an initialized quantizer is not replaced although the policy is 'overwrite'")
    else:
        ctx.check("init.policy", con, not reps, loc, "an initialized quantizer is replaced whatever the policy is")
        return
    for r, new, safe, e in reps:
        ctx.check("init.replaces-selected", con, stub[-1][0] == ("attr", r, "module"), e.loc, f"{fmt(r)} is replaced after testing {fmt(stub[-1][0])}")
        ctx.check("init.safe", con, safe == SAFE, e.loc, f"the safe option given is {fmt(safe)}")
        yield r, new, e


def initialize(ctx):
    f = ctx.func(f"{QI}.QuantizerCollection.initialize")
    seen = set()
    FAC, KW = ("param", "quantizer_factory"), ("param", "kwargs")
    for o in run(ctx, f, inline=inline_same_module(), merge=False):
        if fact(o, lambda c: c[0] == "nonempty") is False or o.kind == "raise" and "AssertionError" in fmt(o.val):
            ctx.check("init.guard", "empty collection", not replaced(o), f.loc, "a module is replaced")
            continue
        con = "collection"
        for r, new, e in path_rules(ctx, o, con, f.loc, seen):
            made_by(ctx, o, con, new, FAC, KW, r, e.loc)
            ends(ctx, o, con, f.loc)
    for k in ("stub", "error", "skip", "overwrite", "illegal", "no quantizer"):
        if k not in seen:
            ctx.check("init.guard", f"collection {k}", k in ("illegal",), f.loc, f"no path treats the case '{k}'") if not ctx.viol else None
    ctx.floor("init.stub", 1)


def made_by(ctx, o, con, new, fac, kw, r, loc):
    """The new module is what the factory makes of the selected quantizer."""
    cls = fact(o, lambda c: c[0] == "isinstance" and c[1] == fac and c[2] == ("builtin", "type"))
    if cls is None:
        cls = fact(o, lambda c: c[0] == "call" and ref_name(c[1]) in ("builtin:issubclass", "ext:inspect.isclass") and c[2][:1] == (fac,))
    a_cls = new is not None and new[0] == "call" and new[1] == fac and not new[2] and new[3] == (("**", kw),)
    a_fn = new is not None and new[0] == "call" and new[1] == fac and new[2] == (("attr", r, "full_name"), ("attr", r, "module")) and not new[3]
    good = a_cls if cls else (a_fn if cls is False else (a_cls or a_fn))
    ctx.check("init.factory", f"{con} {'class' if cls else 'callable'}", good, loc, f"the new quantizer is {fmt(new) if new else new}")


def ends(ctx, o, con, loc):
    bad = [e for e in o.st.events if e.kind == "endloop" and e.name == "break"]
    loops = sum(e.kind == "loop" for e in o.st.events)
    done = sum(e.kind == "endloop" for e in o.st.events)
    ctx.check("init.all", con, not bad and (o.kind != "return" or loops == done), loc, "the loop over the selected quantizers is left before all are treated")


def factory(ctx):
    """Quantizer.factory makes a new quantizer with the given arguments."""
    f = ctx.p.find_method(QZ, "factory")
    if f is None:
        return
    for o in normals(run(ctx, f, inline=no_inline)):
        if o.val[0] != "closure":
            ctx.skip("factory", "Quantizer.factory", "the result is not a local function")
            continue
        for c in call_term(ctx, o.val, [("const", "str", "name"), ("param", "current")], o.st):
            v = c.val
            good = v[0] == "call" and v[1] == ("param", "cls") and v[2] == (("star", ("param", "args")),) and v[3] == (("**", ("param", "kwargs")),)
            ctx.check("factory", "Quantizer.factory", good, f.loc, f"the factory makes {fmt(v)}")


def update(ctx):
    """Putting a module in place of a search result."""
    f = ctx.p.find_method(FR, "update_module")
    if f is None:
        ctx.skip("update", FR, "update_module not found")
        return
    NEW = ("param", f.params()[1])
    n = 0
    for o in run(ctx, f, inline=inline_same_module(), merge=False):
        P, A = ("attr", SELF, "parent"), ("attr", SELF, "parent_attribute")
        sets = [e for e in o.st.events if e.kind == "setattr"]
        safe = o.st.holds(SAFE)
        same = fact(o, lambda c: c[0] == "cmp" and c[1] == "is" and ("attr", SELF, "module") in c[2:])
        cur = next((c for c, b in o.st.conds if c[0] == "cmp" and c[1] == "is" and ("attr", SELF, "module") in c[2:]), None)
        if cur is not None:
            other = cur[3] if cur[2] == ("attr", SELF, "module") else cur[2]
            ctx.check("update.compares", "current module", other == ("call", ("builtin", "getattr"), (P, A), ()), f.loc, f"the selected module is compared with {fmt(other)}")
        n += 1
        if safe is not False and same is False:
            ctx.check("update.safe", "replaced meanwhile", o.kind == "raise" and not sets, f.loc, "a module that was replaced meanwhile is overwritten in safe mode")
        elif safe and same is None:
            ctx.check("update.safe", "unchecked", o.kind == "raise" and not sets, f.loc, "in safe mode the current module is not looked at")
        else:
            good = o.kind == "return" and len(sets) == 1 and sets[0].obj == P and sets[0].args[:1] == (A,) and sets[0].value == NEW
            ctx.check("update.sets", "safe" if safe else "unsafe", good, f.loc, "the module is not put in place of the selected one in its parent")
            if o.kind == "return":
                v = o.val
                ctx.check("update.result", "safe" if safe else "unsafe", dict(v[3]).get("module") == NEW if v[0] == "call" else v[0] == "new", f.loc, "the returned result does not refer to the new module")
    ctx.floor("update.sets", 2)


def collection(ctx):
    """A quantizer collection holds exactly the quantizers among the results; the search is over the given root."""
    c = f"{QI}.QuantizerCollection"
    f = ctx.p.find_method(c, "append")
    ITEM = ("param", f.params()[1])
    for o in run(ctx, f, inline=inline_same_module(), merge=False):
        added = any(e.kind == "call" and e.name.endswith("append") and ITEM in e.args for e in o.st.events)
        isq = fact(o, lambda c: c == ("isinstance", ("attr", ITEM, "module"), ("class", QZ)))
        if added:
            ctx.check("collection.append", "quantizer", isq is True, f.loc, "results are added on another condition than their module being a quantizer")
        else:
            ctx.check("collection.append", "other module", isq is False and o.kind == "raise", f.loc, "a result for a quantizer is refused (the result itself, not its module, is tested)" if isq is None else "a result is silently left out")
    ctx.floor("collection.append", 2)
    f = ctx.p.find_method(c, "__init__")
    n = 0
    for o in normals(run(ctx, f, inline=no_inline, merge=False)):
        sup = [e for e in o.st.events if e.kind == "call" and e.name.endswith("__init__")]
        res = evarg(sup[-1], 1, "results") if sup else None
        none = fact(o, lambda c: c == ("cmp", "is", ("param", "results"), NONE))
        if none or res is None:
            continue
        n += 1
        good = res[0] == "comp" and any(contains(x, lambda t: t == ("isinstance", ("attr", ("elem", ("param", "results")), "module"), ("class", QZ))) for x in res[3]) and res[2] == ("elem", ("param", "results")) and not contains(res[3], lambda t: t[0] == "not")
        if res[0] == "call" and ref_name(res[1]) == "builtin:filter":
            continue
        if res[0] not in ("comp", "param"):
            ctx.skip("collection.filter", "QuantizerCollection", f"the results {fmt(res)} are not recognised")
            continue
        ctx.check("collection.filter", "QuantizerCollection", good, f.loc, f"the collection keeps {fmt(res)}")
    f = ctx.func(f"{QI}.find_quantizers")
    ROOT, QUERY = ("param", "root_module"), ("param", "query")
    for o in normals(run(ctx, f, inline=no_inline)):
        v = o.val
        ok = v[0] == "call" and v[1] == ("class", c) and arg(v, 0, "root") == ROOT
        s = arg(v, 1, "results") if ok else None
        ok = ok and s is not None and s[0] == "call" and (ref_name(s[1]) or "").endswith("search") and arg(s, 1, "root") == ROOT
        q = arg(s, 0, "query") if ok else None
        if ok and q is not None and q[0] == "call":
            ok = arg(q, 0, "query") == QUERY and (arg(q, 1, "root") in (ROOT, None)) and (arg(q, 2, "aliases") or ("param", "aliases")) == ("param", "aliases")
            ok = ok and contains(q, lambda t: t == ("param", "aliases"))
        elif ok:
            ok = q == QUERY and arg(s, None, "aliases") == ("param", "aliases")
        ctx.check("find.search", "find_quantizers", ok, f.loc, f"the quantizers found are {fmt(v)}")


# ------------------------------------------------------------------ configurations
def config(ctx):
    c = f"{QI}.QuantizationConfig"
    f = ctx.p.find_method(c, "add_rule")
    for o in normals(run(ctx, f, inline=no_inline, merge=False)):
        adds = [e for e in o.st.events if e.kind == "call" and e.name in ("method:.append", "method:.insert")]
        good = len(adds) == 1 and adds[0].name == "method:.append"
        ctx.check("rules.order", "add_rule", good, f.loc, "a rule is not added after the earlier ones")
        if not good:
            continue
        r = adds[0].args[0]
        q = arg(r, 0, "query") if r[0] == "call" else None
        s = fact(o, lambda t: t[0] == "isinstance" and t[1] == ("param", "query"))
        good = q is not None and (q == ("param", "query") if not s else q[0] == "call" and q[2][:1] == (("param", "query"),)) and arg(r, 1, "factory") == ("param", "factory") and arg(r, 2, "kwargs") == ("param", "kwargs")
        ctx.check("rules.kept", f"add_rule {'string' if s else 'selector'}", good, f.loc, f"the rule kept is {fmt(r)}")
        ctx.check("rules.chain", "add_rule", o.val == SELF, f.loc, "the configuration itself is not returned")
    f = ctx.p.find_method(c, "initialize")
    MODEL = ("param", "model")
    seen = set()
    k = 0
    for o in run(ctx, f, inline=inline_same_module(deny=("find_quantizers", "precedence_score")), merge=False, loop_iters=(0, 1)):
        found = [e for e in o.st.events if e.kind == "call" and e.name.endswith("find_quantizers")]
        scores = [e for e in o.st.events if e.kind == "call" and e.name.endswith("precedence_score")]
        sets = [e for e in o.st.events if e.kind == "setitem"]
        for e in found:
            rule = e.args[1][1] if len(e.args) > 1 and e.args[1][0] == "attr" else None
            ctx.check("config.search", "initialize", e.args[:1] == (MODEL,) and rule is not None and rule[0] == "elem", f.loc, f"the search is for {', '.join(map(fmt, e.args))}")
        for e in scores:
            a = [x for x in e.args if x != SELF]
            ok = len(a) == 2 and found and a[0] == found[-1].args[1][1] and a[1] == ("elem", found[-1].value)
            ctx.check("config.score", "initialize", bool(ok), f.loc, f"the precedence is computed for {', '.join(map(fmt, a))}")
            res, rule = a[1], a[0]
            mod = ("attr", res, "module")
            known = fact(o, lambda t: t[0] == "cmp" and t[1] == "in" and t[2] == mod)
            if known is None:
                ctx.skip("config.precedence", "initialize", "the collection of the best rules is not recognised")
                continue
            D = next(t[3] for t, b in o.st.conds if t[0] == "cmp" and t[1] == "in" and t[2] == mod)
            mine = [s for s in sets if s.obj == D and s.args[0] == mod]
            k += 1
            old = ("attr", ("item", D, mod), "score")
            if not known:
                ctx.check("config.precedence", "first match", len(mine) == 1, f.loc, "the first rule that matches a quantizer is not kept")
            else:
                less = fact(o, lambda t: t == ("cmp", "<", e.value, old))
                more = fact(o, lambda t: t == ("cmp", "<", old, e.value))
                cmps = [t for t, b in o.st.conds if t[0] == "cmp" and t[1] in ("<", "<=", "==") and contains(t, lambda x: x == e.value)]
                le = fact(o, lambda t: t == ("cmp", "<=", old, e.value))
                lt = fact(o, lambda t: t == ("cmp", "<=", e.value, old))
                tie = fact(o, lambda t: t in (("cmp", "==", old, e.value), ("cmp", "==", e.value, old)))
                if tie is True:
                    ctx.check("config.precedence", "same score", bool(mine), f.loc, "a later rule with the same score does not take precedence")
                elif less is not None or le is not None:
                    worse = less if less is not None else not le
                    ctx.check("config.precedence", "lower score" if worse else "tie or higher score", bool(mine) == (not worse), f.loc, "a rule with a lower score takes precedence" if worse else "a later rule with the same or a higher score does not take precedence")
                elif more is not None or lt is not None:
                    ctx.check("config.precedence", "ties", False, f.loc, "of two rules with the same score the one added first is applied, not the last")
                elif cmps:
                    ctx.skip("config.precedence", "initialize", "the comparison of scores is not recognised")
                else:
                    ctx.check("config.precedence", "scores compared", False, f.loc, "the scores of two matching rules are not compared")
            for s in mine:
                v = s.value
                parts = {kk: arg(v, i, kk) for i, kk in enumerate(("rule", "filter_result", "score"))} if v[0] in ("call", "new") and len(v) == 4 else None
                if parts is None or None in parts.values():
                    ctx.skip("config.item", "initialize", f"the record {fmt(v)} is not recognised")
                else:
                    ctx.check("config.item", "initialize", parts["rule"] == rule and parts["filter_result"] == res and parts["score"] == e.value, f.loc, f"the rule recorded for a quantizer is {fmt(v)}")
        reps = replaced(o)
        if not any(c2[0] == "isinstance" and c2[2] == ("class", STUB) for c2, b in o.st.conds) and not reps:
            continue
        for r, new, e in path_rules(ctx, o, "configuration", f.loc, seen):
            ends(ctx, o, "configuration", f.loc)
            owner = r[1] if r[0] == "attr" and r[2] == "filter_result" else None
            if owner is None:
                ctx.skip("config.applies", "initialize", f"{fmt(r)} is not recognised")
                continue
            rule = ("attr", owner, "rule")
            made_by(ctx, o, "configuration", new, ("attr", rule, "factory"), ("attr", rule, "kwargs"), r, e.loc)
    if not k:
        ctx.skip("config.precedence", "initialize", "no comparison of rules was seen")
    ctx.floor("config.precedence", 1)


# ------------------------------------------------------------------ tags
def match(ctx):
    c = f"{QI}.QuantizerTagSelectorFragment"
    f = ctx.p.find_method(c, "match")
    MOD = ("param", f.params()[2])
    MD = ("attr", MOD, "quant_metadata")
    n = 0
    tagged = None
    for o in normals(run(ctx, f, inline=inline_same_module(), merge=False)):
        isq = fact(o, lambda t: t[0] == "isinstance" and t[1] == MOD)
        none = fact(o, lambda t: t == ("cmp", "is", MD, NONE))
        tag = [(t, b) for t, b in o.st.conds if t[0] == "cmp" and t[1] == "in" and t[3] == MD]
        v = o.val
        n += 1
        if v == TRUE:
            it = fact(o, lambda t: t[0] == "nonempty")
            ok = isq is True and none is not True and all(b for t, b in tag) and (bool(tag) or it is False)
            done = sum(e.kind == "loop" for e in o.st.events) == sum(e.kind == "endloop" and e.name == "for" for e in o.st.events)
            ctx.check("match.all", "matching", ok and done, f.loc, "a module matches although it is no quantizer or a tag is not looked at")
        elif v == FALSE:
            ok = isq is False or none is True or any(not b for t, b in tag)
            ctx.check("match.only", "not matching", ok, f.loc, "a quantizer with all tags does not match")
        elif v[0] == "call" and ref_name(v[1]) == "builtin:all" and v[2] and v[2][0][0] == "comp":
            e = v[2][0][2]
            ctx.check("match.all", "matching", isq is True and e[0] == "cmp" and e[1] == "in" and e[3] == MD, f.loc, f"a quantizer matches if {fmt(v)}")
        else:
            ctx.skip("match.all", "matching", f"the result {fmt(v)} is not recognised")
    f = ctx.p.find_method(c, "from_raw_string")
    RAW = ("param", f.params()[1])
    for o in normals(run(ctx, f, inline=no_inline)):
        made = [e for e in o.st.events if e.kind == "call" and e.args and e.args[-1][0] == "star" and (e.obj is None or True)]
        ok = False
        for e in made:
            x = e.args[-1][1]
            cs = contents(x, o.st) or ([x[2]] if x[0] == "comp" else [])
            for el in cs:
                ok = ok or contains(el, lambda t: t[0] == "call" and t[1][0] == "attr" and t[1][2] == "strip" and t[1][1] == ("elem", ("call", ("attr", RAW, "split"), (const(","),), ())))
        if not made:
            ctx.skip("tag.parse", "from_raw_string", "the construction of the fragment is not recognised")
            continue
        ctx.check("tag.parse", "from_raw_string", ok, f.loc, "the tags of a query are not the comma separated parts, without the spaces around them")


def tags(ctx):
    f = ctx.p.find_method(META, "add_tag")
    T_ = ("param", f.params()[1])
    for o in normals(run(ctx, f, inline=no_inline, merge=False)):
        if fact(o, lambda t: t[0] == "nonempty") is False:
            continue
        adds = [e for e in o.st.events if e.kind == "call" and e.name in ("method:.add", "method:.update")]
        ok = False
        for e in adds:
            a = e.args[0]
            hier = contains(a, lambda t: t[0] == "call" and (t[1][0] == "attr" and t[1][2] == "hierarchy" or (ref_name(t[1]) or str(t[1][1:2])).find("hierarchy") >= 0) and contains(t, lambda x: x == T_))
            ok = ok or (hier and (a[0] == "elem" if e.name.endswith("add") else a[0] in ("call", "comp")))
        ctx.check("tag.levels", "add_tag", ok, f.loc, "adding a tag does not add all levels of its hierarchy")
    f = ctx.p.find_method(META, "__contains__")
    T_ = ("param", f.params()[1])
    for o in normals(run(ctx, f, inline=no_inline)):
        v = o.val
        ok = v[0] == "cmp" and v[1] == "in" and v[2] == ("call", ("class", TAG), (T_,), ()) and v[3][0] == "attr" and v[3][1] == SELF
        if v[0] == "cmp" and not ok and v[2] == T_:
            ok = False
        ctx.check("tag.member", "__contains__", ok, f.loc, f"a tag is a member if {fmt(v)}")
    f = ctx.p.find_method(TAG, "hierarchy")
    n = 0
    for o in run(ctx, f, inline=inline_same_module(), merge=False):
        vals = [e.value for e in o.st.events if e.kind == "yield"] or ([o.val[2]] if o.val and o.val[0] == "comp" else [])
        for v in vals:
            n += 1
            r = prefixes(v)
            if r is None:
                ctx.skip("tag.hierarchy", "hierarchy", f"the level {fmt(v)} is not recognised")
            else:
                ctx.check("tag.hierarchy", "hierarchy", r, f.loc, f"the levels of a tag are {fmt(v)}, not all prefixes of its parts")
    f = ctx.p.find_method(TAG, "__truediv__")
    R = ("param", f.params()[1])
    for o in normals(run(ctx, f, inline=no_inline, merge=False)):
        if o.val[0] == "call":
            x = o.val[2][0] if o.val[2] else None
            sym = ("attr", SELF, "_symbol")
            rr = ("attr", R, "_symbol") if fact(o, lambda t: t[0] == "isinstance" and t[1] == R and t[2] == ("class", TAG)) else R
            ok = x is not None and pieces(x) == [sym, "/", rr]
            ctx.check("tag.join", f"__truediv__ {'tag' if rr != R else 'text'}", ok, f.loc, f"joining tags gives {fmt(o.val)}")
    f = ctx.p.find_method(TAG, "__new__")
    S = ("param", f.params()[1])
    for o in normals(run(ctx, f, inline=no_inline, merge=False)):
        tag = fact(o, lambda t: t[0] == "isinstance" and t[1] == S)
        if tag:
            ctx.check("tag.unique", "of a tag", o.val == S, f.loc, "a tag of a tag is another object")
            continue
        known = fact(o, lambda t: t[0] == "cmp" and t[1] == "in" and t[2] == S)
        if known is None:
            ctx.skip("tag.unique", "__new__", "the registry of tags is not recognised")
            continue
        D = next(t[3] for t, b in o.st.conds if t[0] == "cmp" and t[1] == "in" and t[2] == S)
        if known:
            ctx.check("tag.unique", "known symbol", o.val == ("item", D, S) and not any(e.kind == "setitem" for e in o.st.events), f.loc, "an existing tag is not reused: equal tags would differ")
        else:
            ok = any(e.kind == "setitem" and e.obj == D and e.args[0] == S and (e.value == o.val or o.val == ("item", D, S)) for e in o.st.events)
            ctx.check("tag.unique", "new symbol", ok, f.loc, "a new tag is not registered under its symbol")


def pieces(t):
    """The parts of a string built by an f-string or by adding."""
    if t[0] == "fstr":
        return [p for x in t[1:] for p in pieces(x)]
    if t[0] == "bin" and t[1] == "+":
        return pieces(t[2]) + pieces(t[3])
    if t[0] == "const" and t[1] == "str":
        return [t[2]] if t[2] else []
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and t[1][1][0] == "const" and t[2] and t[2][0][0] in ("tuple", "list"):
        res = []
        for i, x in enumerate(t[2][0][1:]):
            res += ([t[1][1][2]] if i else []) + pieces(x)
        return res
    return [t]


def prefixes(v):
    """Whether a term stands for all non-empty prefixes of the '/'-separated parts of a tag; None if unknown."""
    if not (v[0] == "call" and v[2]):
        return None
    s = v[2][0]
    if not (s[0] == "call" and s[1][0] == "attr" and s[1][2] == "join" and s[1][1][0] == "const" and len(s[2]) == 1):
        return None
    if s[1][1][2] != "/":
        return False
    p = s[2][0]
    if not (p[0] == "item" and p[2][0] == "slice"):
        return None
    parts, (lo, hi, step) = p[1], p[2][1:4]
    if parts != ("call", ("attr", ("attr", SELF, "_symbol"), "split"), (const("/"),), ()):
        return False
    if lo not in (NONE, const(0)) or step not in (NONE, const(1)) or hi[0] != "elem":
        return False if hi == NONE else None
    r = hi[1]
    if not (r[0] == "call" and ref_name(r[1]) == "builtin:range"):
        return None
    n = ("call", ("builtin", "len"), (parts,), ())
    a = r[2]
    down = len(a) == 3 and a[0] == n and a[1] == const(0) and a[2] in (const(-1), ("un", "-", const(1)))
    up = len(a) in (2, 3) and a[0] == const(1) and a[1] in (("bin", "+", n, const(1)), ("bin", "+", const(1), n)) and a[2:] in ((), (const(1),))
    return down or up


# ------------------------------------------------------------------ metadata
def metadata(ctx):
    f = ctx.p.find_method(META, "is_extension")
    O = ("param", f.params()[1])
    MT, OT, MK, OK_ = ("attr", SELF, "_tags"), ("attr", O, "_tags"), ("attr", SELF, "_kwargs"), ("attr", O, "_kwargs")
    n = 0
    for o in normals(run(ctx, f, inline=no_inline, merge=False)):
        sub = fact(o, lambda t: t in (("call", ("attr", MT, "issubset"), (OT,), ()), ("call", ("attr", OT, "issuperset"), (MT,), ()), ("cmp", "<=", MT, OT)))
        wrong = fact(o, lambda t: t in (("call", ("attr", OT, "issubset"), (MT,), ()), ("cmp", "<=", OT, MT), ("call", ("attr", MT, "issuperset"), (OT,), ())))
        inn = fact(o, lambda t: t[0] == "cmp" and t[1] == "in" and t[3] == OK_)
        eq = fact(o, lambda t: t[0] == "cmp" and t[1] == "==" and contains(t, lambda x: x == OK_ or x == O) and not contains(t, lambda x: x[0] == "const" and x[1] == "str"))
        vnone = [b for t, b in o.st.conds if t[0] == "cmp" and t[1] == "is" and NONE in t[2:]]
        shape = fact(o, lambda t: t[0] == "cmp" and t[1] == "==" and const("shape") in t[2:])
        none = vnone[-1] if vnone else None
        n += 1
        if o.val == TRUE:
            loop = fact(o, lambda t: t[0] == "nonempty")
            ctx.check("extension.tags", "is_extension", sub is True and wrong is None, f.loc, "metadata counts as extension although a tag is missing")
            if loop:
                ctx.check("extension.attributes", "is_extension", eq is True or (shape is True and none is True), f.loc, "metadata counts as extension although an attribute differs")
                ctx.check("extension.all", "is_extension", all(e.name == "for" for e in o.st.events if e.kind == "endloop"), f.loc, "not all attributes are compared")
        elif o.val == FALSE:
            ok = sub is False or inn is False or eq is False
            ctx.check("extension.only", "is_extension", ok, f.loc, "an extension with all tags and equal attributes is refused")
            if sub is not False:
                ctx.check("extension.shape", "is_extension", not (shape is True and none is True), f.loc, "an unset shape must not conflict")
        else:
            ctx.skip("extension.tags", "is_extension", f"the result {fmt(o.val)} is not recognised")


def registration(ctx):
    f = ctx.p.find_method(QM, "register_quantizer")
    NAME, QQ = ("param", "name"), ("param", "quantizer")
    n = 0
    for o in run(ctx, f, inline=no_inline, merge=False):
        isq = fact(o, lambda t: t == ("isinstance", QQ, ("class", QZ)))
        none = fact(o, lambda t: t == ("cmp", "is", QQ, NONE))
        reg = [e for e in o.st.events if e.kind == "call" and e.name.endswith("register_module")]
        if isq is False and none is False:
            ctx.check("register.type", "no quantizer", o.kind == "raise" and not reg, f.loc, "an object that is no quantizer is registered")
            continue
        if o.kind != "return":
            continue
        flag = o.st.holds(("param", "_register_module"))
        if flag is True:
            ctx.check("register.module", "requested", len(reg) == 1 and reg[0].args[:2] == (NAME, QQ), f.loc, "the quantizer is not registered under its name")
        if none or isq is False:
            continue
        inn = next(((t, b) for t, b in o.st.conds if t[0] == "cmp" and t[1] == "in" and t[2] == NAME), None)
        if inn is None:
            ctx.skip("register.metadata", "register_quantizer", "the module's metadata is not recognised")
            continue
        D = inn[0][3]
        final = o.st.heap.get((QQ, "quant_metadata"))
        held = o.st.heap.get((D, ("item", NAME)), ("item", D, NAME))
        n += 1
        qmd = ("attr", QQ, "quant_metadata")
        qnone = fact(o, lambda t: t == ("cmp", "is", qmd, NONE))
        if inn[1]:
            ok = final == ("item", D, NAME) and held == ("item", D, NAME)
            ctx.check("register.metadata", "module has metadata", ok, f.loc, "a quantizer put in place of a stub does not get the metadata (tags) of its place")
        elif qnone is False:
            ctx.check("register.metadata", "quantizer has metadata", held == qmd and final in (qmd, None, held), f.loc, "the module does not take over the metadata of the quantizer")
        elif qnone:
            ok = held[0] in ("call", "new") and contains(held, lambda t: t == ("class", META) or t == META) and final == held
            ctx.check("register.metadata", "none has metadata", ok, f.loc, "no default metadata is set for module and quantizer")
        else:
            ctx.skip("register.metadata", "register_quantizer", "a path does not look at the quantizer's metadata")
    ctx.floor("register.metadata", 3)
    f = ctx.p.find_method(QM, "__setattr__")
    V = ("param", f.params()[2])
    for o in normals(run(ctx, f, inline=no_inline, merge=False)):
        isq = fact(o, lambda t: t == ("isinstance", V, ("class", QZ)))
        regs = [e for e in o.st.events if e.kind == "call" and e.name.endswith("register_quantizer")]
        sup = [e for e in o.st.events if e.kind == "call" and e.name.endswith("__setattr__") and V in e.args]
        ctx.check("register.assign", "attribute set", len(sup) == 1, f.loc, "the attribute is not set")
        if isq:
            ok = len(regs) == 1 and NAME in regs[0].args and V in regs[0].args
            ctx.check("register.assign", "quantizer", ok, f.loc, "assigning a quantizer does not register it")
        elif isq is False:
            ctx.check("register.assign", "other value", not regs, f.loc, "a value that is no quantizer is registered as one")
        else:
            ctx.check("register.assign", "quantizer", False, f.loc, "it is not looked at whether a quantizer is assigned")
    ctx.floor("register.assign", 3)
    f = ctx.p.find_method(STUB, "quantize")
    for o in normals(run(ctx, f, inline=no_inline)):
        ctx.check("stub.identity", "QuantizerStub", o.val == ("param", f.params()[1]), f.loc, f"a stub returns {fmt(o.val)} instead of its input")
