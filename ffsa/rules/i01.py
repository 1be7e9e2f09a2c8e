"""AutoQuant rewriting.  Every pass is interpreted for an arbitrary syntax node; the node it returns is compared,
field by field, with the node it replaces: same operands in the same order, same targets, same operator.  Hoisting
and insertion are decided from the guards of the paths that hoist and from the position that is inserted at."""
from __future__ import annotations

import ast

from .common import *
from .g01 import FALSE, NONE, SELF, TRUE, fact, fun, meth, method, norm, paths, unwrap
from . import h02
from .h03 import subs
from .h04 import flat_conds

ASSUMPTIONS = ["libcst visits children before it calls leave methods and prints a tree as the code it stands for", "helper predicates of libcst do what their documentation says"]
AQ = "fastforward._autoquant"
PASSES, NODES, CONV, BYP, CRE = f"{AQ}.cst.passes", f"{AQ}.cst.nodes", f"{AQ}.convert", f"{AQ}.bypass", f"{AQ}.cst.node_creation"
TRF, AUTO, OPT = f"{AQ}.cst.quantizer_analysis.transformer", f"{AQ}.autoquant", "fastforward._quantops.optable"
CAND = f"{NODES}.ReplacementCandidate"
GEN = f"{NODES}.GeneralAssignment"


def check(ctx):
    operator_tables(ctx)
    augmented(ctx)
    semicolons(ctx)
    wrapping(ctx)
    deflating(ctx)
    imports(ctx)
    parens(ctx)
    literals(ctx)
    marking(ctx)
    typed_marking(ctx)
    isolating(ctx)
    temporaries(ctx)
    blocking(ctx)
    inserting(ctx)
    replacing(ctx)
    second_chance(ctx)
    quantized_call(ctx)
    unresolved_call(ctx)
    resolving_call(ctx)
    counterpart(ctx)
    keywords(ctx)
    references(ctx)
    carrying(ctx)
    super_calls(ctx)
    renaming(ctx)
    statements(ctx)
    binding_quantization(ctx)
    block_quantization(ctx)
    order_of_passes(ctx)


# ------------------------------------------------------------------ syntax nodes as terms
POS = {"Arg": ("value", "keyword"), "Assign": ("targets", "value"), "AssignTarget": ("target",), "BinaryOperation": ("left", "operator", "right"),
       "UnaryOperation": ("operator", "expression"), "Name": ("value",), "Attribute": ("value", "attr"), "SimpleStatementLine": ("body",),
       "IndentedBlock": ("body",), "FlattenSentinel": ("nodes",), "Call": ("func", "args"),
       "GeneralAssignment": ("original", "targets", "annotation", "value", "semicolon"), "ReplacementCandidate": ("original",)}


def seq(o, t):
    return h02.seq(o, t, calls=True)


def cls_of(t):
    """Unqualified class of a constructed node."""
    if t[0] == "call" and t[1][0] in ("ext", "class"):
        return t[1][1].rsplit(".", 1)[1] if "." in t[1][1] else t[1][1]
    return None


def strip(t):
    """The node a term is a copy of."""
    while True:
        t = unwrap(t)
        if meth(t, "deep_clone") is not None:
            t = meth(t, "deep_clone")
        elif t[0] == "call" and ref_name(t[1]) in ("ext:typing.cast", "ext:copy.copy", "ext:copy.deepcopy") and t[2]:
            t = t[2][-1]
        else:
            return t


def changes(t):
    """(node, fields replaced in it) of a chain of with_changes calls."""
    d = {}
    t = strip(t)
    while meth(t, "with_changes") is not None:
        d = {**dict(t[3]), **d}
        t = strip(meth(t, "with_changes"))
    if t[0] == "call" and ref_name(t[1]) in ("ext:dataclasses.replace", "ext:copy.replace") and t[2]:
        base, d2 = changes(t[2][0])
        return base, {**d2, **dict(t[3]), **d}
    return t, d


def built(t):
    """Fields given to the constructor of a node, or None."""
    t = strip(t)
    c = cls_of(t)
    if c is None:
        return None
    if any(k is None or k in ("**",) for k, _ in t[3]):
        return None
    return {**dict(zip(POS.get(c, ()), t[2])), **dict(t[3])}


def field(t, name, default=None):
    base, d = changes(t)
    if name in d:
        return d[name]
    b = built(base)
    if b is not None:
        return b.get(name, default)
    return ("attr", base, name)


def same(a, b):
    return a is not None and b is not None and strip(a) == strip(b)


def clsname(t):
    return t[1].rsplit(".", 1)[-1] if t[0] in ("class", "ext") else None


def kinds(o, t):
    """Node classes the conditions of a path say a term is, and is not."""
    yes, no = set(), set()
    for c, b in o.st.conds:
        c, b = norm(c, b)
        if c[0] == "isinstance" and same(c[1], t):
            cs = c[2][1:] if c[2][0] in ("tuple", "union") else (c[2],)
            names = {clsname(x) for x in cs}
            if b:
                yes |= names
            else:
                no |= names
    return yes, no


def contradictory(o, t):
    yes, no = kinds(o, t)
    return len(yes) > 1


def par(f, name_or_i):
    ps = f.params()
    return ("param", ps[name_or_i] if isinstance(name_or_i, int) else name_or_i)


def upd(f):
    """The parameter holding the node after its children were visited."""
    return par(f, 2)


def orig(f):
    return par(f, 1)


def node_of(f, t):
    """Whether a term is the visited node, before or after its children were visited."""
    return strip(t) in (upd(f), orig(f))


def path_of(t, f):
    """Attribute path below the visited node, or None."""
    out = []
    t = strip(t)
    while t[0] == "attr":
        out.append(t[2])
        t = strip(t[1])
    return tuple(reversed(out)) if node_of(f, t) else None


def module_display(ctx, mod, name):
    m = ctx.p.modules.get(mod)
    e = m.env.get(name) if m else None
    return (m, e[1]) if e and e[0] == "expr" else (m, None)


def flat_dict(ctx, m, e, depth=0):
    """Key and value references of a module-level mapping built from displays and unions."""
    if depth > 5:
        return None
    if isinstance(e, ast.Dict):
        out = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                sub = flat_dict(ctx, m, v, depth + 1)
                if sub is None:
                    return None
                out += sub
            else:
                out.append((ctx.p.resolve_expr(m, k), ctx.p.resolve_expr(m, v), k))
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        a, b = flat_dict(ctx, m, e.left, depth + 1), flat_dict(ctx, m, e.right, depth + 1)
        return None if a is None or b is None else a + b
    if isinstance(e, ast.Name):
        m2, e2 = module_display(ctx, m.name, e.id)
        return None if e2 is None else flat_dict(ctx, m2, e2, depth + 1)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and len(e.args) == 1 and not e.keywords:
        return flat_dict(ctx, m, e.args[0], depth + 1)
    return None


# ------------------------------------------------------------------ operators
TORCH_OF = {
    "BitInvert": {"bitwise_not"}, "Minus": {"negative", "neg"}, "Plus": {"positive"},
    "Add": {"add"}, "BitAnd": {"bitwise_and"}, "BitOr": {"bitwise_or"}, "BitXor": {"bitwise_xor"}, "Divide": {"div", "divide", "true_divide"},
    "FloorDivide": {"floor_divide"}, "LeftShift": {"bitwise_left_shift"}, "MatrixMultiply": {"matmul"}, "Modulo": {"remainder"},
    "Multiply": {"mul", "multiply"}, "Power": {"pow"}, "RightShift": {"bitwise_right_shift"}, "Subtract": {"sub", "subtract"}, "Not": {"logical_not"}}
AUG = {"AddAssign": "Add", "SubtractAssign": "Subtract", "MultiplyAssign": "Multiply", "DivideAssign": "Divide", "FloorDivideAssign": "FloorDivide",
       "ModuloAssign": "Modulo", "PowerAssign": "Power", "LeftShiftAssign": "LeftShift", "RightShiftAssign": "RightShift", "BitAndAssign": "BitAnd",
       "BitOrAssign": "BitOr", "BitXorAssign": "BitXor", "MatrixMultiplyAssign": "MatrixMultiply"}


def operator_tables(ctx):
    rule = "operator.same"
    for mod, name, expect in ((PASSES, "_AUG_OP_TO_BINARY_OP", AUG), (OPT, "OPS_LIBCST_TO_TORCH_MAPPING", TORCH_OF)):
        m, e = module_display(ctx, mod, name)
        if e is None:
            ctx.skip(rule, name, "the table is not defined at module level")
            continue
        rows = flat_dict(ctx, m, e)
        if rows is None:
            ctx.skip(rule, name, "the table is not a display of literals")
            continue
        seen = set()
        for k, v, n in rows:
            if k is None or v is None or k[0] != "ext" or v[0] != "ext":
                ctx.skip(rule, f"{name} line {n.lineno}", "an entry cannot be resolved")
                continue
            kk, vv = clsname(k), v[1]
            if kk not in expect:
                ctx.skip(rule, f"{name}[{kk}]", "an operator the rule does not know")
                continue
            want = expect[kk]
            ok = vv.rsplit(".", 1)[-1] == want if isinstance(want, str) else vv.startswith("torch.") and vv.rsplit(".", 1)[-1] in want
            seen.add(kk)
            ctx.check(rule, f"{name}[{kk}]", ok, f"{m.rel}:{n.lineno}", f"{kk} is mapped to {vv}, which is not the same operation")
    ctx.floor(rule, 20)


def augmented(ctx):
    rule = "augassign.expand"
    f = method(ctx, rule, f"{PASSES}.ExpandAugAssign", "leave_AugAssign")
    if f is None:
        return
    U = upd(f)
    for o in paths(ctx, f, inline=inline_same_module()):
        if o.kind != "return":
            continue
        n = f"ExpandAugAssign.leave_AugAssign ({'kept' if o.val == U else 'expanded'})"
        if o.val == U or changes(o.val)[0] == U and not changes(o.val)[1]:
            ctx.check(rule, n, True, f.loc, "")
            continue
        if cls_of(changes(o.val)[0]) != "Assign":
            ctx.check(rule, n, False, f.loc, f"an augmented assignment becomes {fmt(o.val)}")
            continue
        v, ts = field(o.val, "value"), seq(o, field(o.val, "targets"))
        b = built(v) if v is not None and cls_of(strip(v)) == "BinaryOperation" else None
        if b is None or ts is None:
            ctx.skip(rule, n, "the assignment is not built from a binary operation and a list of targets")
            continue
        tgt = [field(x[1], "target") for x in ts if x[0] == "one"]
        ctx.check(rule, n + " target", len(ts) == 1 and len(tgt) == 1 and same(tgt[0], ("attr", U, "target")), f.loc, "the result is not assigned to the target of the augmented assignment (only)")
        ctx.check(rule, n + " operands", same(b.get("left"), ("attr", U, "target")) and same(b.get("right"), ("attr", U, "value")), f.loc,
                  f"the operands are {fmt(b.get('left'))} and {fmt(b.get('right'))}, not the target and the value")
        op = b.get("operator")
        okop = op is not None and ("attr", U, "operator") in set(subs(op)) and any(x == ("global", f"{PASSES}._AUG_OP_TO_BINARY_OP") for x in subs(op))
        if okop:
            ctx.check(rule, n + " operator", True, f.loc, "")
        elif op is not None and not any(x[0] == "global" for x in subs(op)):
            ctx.check(rule, n + " operator", False, f.loc, f"the operator is {fmt(op)} whatever the augmented operator is")
        else:
            ctx.skip(rule, n + " operator", "the operator is not looked up in the table")
        yes, _ = kinds(o, ("attr", U, "target"))
        ctx.check(rule, n + " assignable", bool(yes) and yes <= {"Name", "Attribute", "Subscript"}, f.loc, "a target is expanded without being a name, an attribute or a subscript")
    ctx.floor(rule, 6)


# ------------------------------------------------------------------ statements
def flat_of(o, t, f):
    """Whether a sequence holds every small statement of the visited node once, in order (given the helper)."""
    s = seq(o, t)
    return s


def semicolons(ctx):
    rule = "statements.split"
    deny = ("_flatten_small_statements",)
    flat = ("call", ("func", f"{PASSES}._flatten_small_statements"))
    for name in ("leave_SimpleStatementSuite", "leave_SimpleStatementLine"):
        f = method(ctx, rule, f"{PASSES}.ConvertSemicolonJoinedStatements", name)
        if f is None:
            continue
        U = upd(f)
        body = ("attr", U, "body")
        for o in paths(ctx, f, inline=inline_same_module(deny=deny), loop_iters=(1,)):
            if o.kind != "return":
                continue
            out = field(o.val, "nodes") if cls_of(strip(o.val)) == "FlattenSentinel" else field(o.val, "body")
            n = f"ConvertSemicolonJoinedStatements.{name}"
            s = seq(o, out) if out is not None else None
            if s is None:
                ctx.skip(rule, n, "the resulting statements are not a sequence the rule can read")
                continue
            ok = len(s) == 1 and s[0][0] == "each" and not s[0][3]
            if ok:
                src = unwrap(s[0][1])
                ok = src == body or src[0] == "call" and src[:2] == flat and any(same(a, body) for a in src[2] + tuple(v for _, v in src[3]))
            if ok:
                el = strip(s[0][2])
                while ok and el != ("elem", s[0][1]):
                    base, d = changes(el)
                    if cls_of(base) == "SimpleStatementLine":
                        inner = seq(o, field(base, "body"))
                        ok = inner is not None and len(inner) == 1 and inner[0][0] == "one"
                        el = strip(inner[0][1]) if ok else el
                    elif d and set(d) <= {"semicolon", "leading_lines"}:
                        el = base
                    else:
                        ok = strip(el) == ("elem", unwrap(s[0][1])) or strip(el) == ("elem", s[0][1])
                        break
            ctx.check(rule, n, ok, f.loc, f"the statements of the line are not all kept once, in order, unchanged: {fmt(out)}")
    f = fun(ctx, rule, f"{PASSES}._flatten_small_statements")
    if f is not None:
        B = par(f, 0)
        for o in paths(ctx, f, inline=no_inline, loop_iters=(1,)):
            if o.kind != "return":
                continue
            cs = contents(o.val, o.st)
            el = ("elem", B)
            nested = fact(o, lambda c: c[0] == "isinstance" and strip(c[1]) == el)
            evs = [e for e in o.st.events if e.kind == "call" and e.name in ("method:.append", "method:.extend") and e.obj == o.val or e.kind == "aug"]
            if nested is True:
                rec = [e for e in evs if any(x[0] == "call" and x[1] == ("func", f.qual) and x[2][:1] == (("attr", el, "body"),) for a in (e.args or (e.value,)) if a is not None for x in subs(a))]
                ok = len(rec) == 1 and len(evs) == 1
            else:
                ok = len(evs) == 1 and (evs[0].args == (el,) or el in cs)
            front = [e for e in o.st.events if e.kind == "call" and e.name in ("method:.insert", "method:.appendleft", "method:.reverse") and e.obj == o.val]
            if not evs and not front:
                ctx.skip(rule, f"{f.name}", "the list is not built by appending")
                continue
            ctx.check(rule, f"{f.name} ({'nested' if nested else 'plain'})", ok and not front, f.loc, "a statement is lost or repeated while flattening a line")
    ctx.floor(rule, 4)


def wrapping(ctx):
    rule = "assign.wrap"
    for name, many in (("leave_AnnAssign", False), ("leave_Assign", True), ("leave_AugAssign", False)):
        f = method(ctx, rule, f"{PASSES}.WrapAssignments", name)
        if f is None:
            continue
        U = upd(f)
        for o in paths(ctx, f, inline=inline_same_module()):
            if o.kind != "return":
                continue
            n = f"WrapAssignments.{name}"
            if cls_of(strip(o.val)) != "GeneralAssignment":
                ctx.skip(rule, n, "the result is not a GeneralAssignment")
                continue
            s = seq(o, field(o.val, "targets"))
            if s is None:
                ctx.skip(rule, n, "the targets are not a sequence the rule can read")
                continue
            if many:
                ok = len(s) == 1 and s[0][0] == "each" and not s[0][3] and unwrap(s[0][1]) == ("attr", U, "targets") and strip(s[0][2]) == ("attr", ("elem", ("attr", U, "targets")), "target")
            else:
                ok = len(s) == 1 and s[0][0] == "one" and same(s[0][1], ("attr", U, "target"))
            ctx.check(rule, n + " targets", ok, f.loc, "not every target is kept, in order")
            ctx.check(rule, n + " value", same(field(o.val, "value"), ("attr", U, "value")), f.loc, f"the value becomes {fmt(field(o.val, 'value') or NONE)}")
            an = field(o.val, "annotation")
            ctx.check(rule, n + " annotation", same(an, ("attr", U, "annotation")) if name == "leave_AnnAssign" else an in (None, NONE), f.loc, "the annotation is not the one of the assignment")
            ctx.check(rule, n + " original", field(o.val, "original") is not None and node_of(f, field(o.val, "original")), f.loc, "the wrapped statement is not the visited one")
    ctx.floor(rule, 12)


def deflating(ctx):
    rule = "assign.unwrap"
    f = method(ctx, rule, GEN, "_deflate")
    if f is None:
        return
    O = ("attr", SELF, "original")
    for o in paths(ctx, f, inline=inline_same_module()):
        if o.kind != "return":
            continue
        yes, _ = kinds(o, O)
        k = next(iter(yes)) if len(yes) == 1 else None
        if k is None:
            ctx.skip(rule, "GeneralAssignment._deflate", "the kind of the wrapped statement is not tested")
            continue
        n = f"GeneralAssignment._deflate ({k})"
        base, d = changes(o.val)
        if base != O:
            if cls_of(base) == k:
                d = built(base)
            else:
                ctx.check(rule, n, False, f.loc, "the statement is not rebuilt from the wrapped one")
                continue
        ctx.check(rule, n + " value", same(d.get("value"), ("attr", SELF, "value")), f.loc, "the (possibly rewritten) value is not put back")
        if k == "Assign":
            s = seq(o, d["targets"]) if "targets" in d else None
            if s is None:
                # pairing of two sequences
                t = unwrap(d.get("targets", NONE))
                ok = None
            else:
                t, ok = None, None
            t = unwrap(d.get("targets", NONE))
            if t[0] == "comp" and len(t[3]) == 1 and not t[3][0][1]:
                ch = changes(t[2])[1].get("target") or (built(t[2]) or {}).get("target")
                ok = ch is not None and strip(ch) == ("elem", ("attr", SELF, "targets"))
                it = t[3][0][0]
                ok = ok and it[0] == "call" and it[1] == ("builtin", "zip") and set(it[2]) == {("attr", O, "targets"), ("attr", SELF, "targets")} or ok and it == ("attr", SELF, "targets")
            if ok is None:
                ctx.skip(rule, n + " targets", "the targets are not rebuilt by a comprehension")
            else:
                ctx.check(rule, n + " targets", bool(ok), f.loc, "not every (possibly rewritten) target is put back, in order")
        else:
            ctx.check(rule, n + " target", same(d.get("target"), ("item", ("attr", SELF, "targets"), const(0))), f.loc, "the (possibly rewritten) target is not put back")
        if k == "AnnAssign":
            ctx.check(rule, n + " annotation", same(d.get("annotation"), ("attr", SELF, "annotation")) or "annotation" not in d, f.loc, "the annotation is not put back")
    g = method(ctx, rule, GEN, "_visit_and_replace_children")
    if g is not None:
        for o in paths(ctx, g, inline=inline_same_module()):
            if o.kind != "return":
                continue
            b = visited(o.val)
            if b is None:
                ctx.skip(rule, "GeneralAssignment._visit_and_replace_children", "the node is not rebuilt from its fields")
                continue
            for fl in ("targets", "annotation", "value", "original"):
                v = b.get(fl)
                empty = fl == "targets" and fact(o, lambda c: c == ("attr", SELF, "targets")) is False
                ok = v is not None and (("attr", SELF, fl) in set(subs(v)) or empty)
                ctx.check(rule, f"GeneralAssignment._visit_and_replace_children {fl}", ok, g.loc, f"the field {fl} is not kept when the tree is visited")
    ctx.floor(rule, 9)


def visited(t):
    """Fields of a rebuilt node, whose class may be given as type(self)."""
    base, d = changes(t)
    b = built(base)
    if b is None and base[0] == "call" and base[1][0] == "call" and base[1][1] == ("builtin", "type"):
        b = {**dict(zip(POS["GeneralAssignment"], base[2])), **dict(base[3])}
    if b is None:
        return None
    return {**b, **d}


def imports(ctx):
    rule = "imports.absolute"
    f = method(ctx, rule, f"{PASSES}.ConvertRelativeImports", "leave_ImportFrom")
    if f is None:
        return
    U = upd(f)
    rel = ("attr", U, "relative")
    for o in paths(ctx, f, inline=inline_same_module(deny=("_dotted_name_to_cst",))):
        if o.kind != "return":
            continue
        if strip(o.val) == U:
            zero = fact(o, lambda c: rel in set(subs(c)))
            ctx.check(rule, "leave_ImportFrom (kept)", zero is not None, f.loc, "an import is kept without looking whether it is relative")
            continue
        base, d = changes(o.val)
        ctx.check(rule, "leave_ImportFrom (names)", base == U and set(d) <= {"relative", "module"}, f.loc, "more than the module of the import changes")
        ctx.check(rule, "leave_ImportFrom (dots)", seq(o, d["relative"]) == [] if "relative" in d else False, f.loc, "the dots of a relative import stay")
        m = d.get("module")
        calls = [x for x in subs(m) if x[0] == "call" and str(ref_name(x[1])).endswith("_resolve_relative_module_name")] if m else []
        if not calls:
            ctx.skip(rule, "leave_ImportFrom (module)", "the module name is not resolved by the helper")
            continue
        c = calls[0]
        none = fact(o, lambda x: x == ("cmp", "is", ("attr", U, "module"), NONE))
        a = [arg(c, 0, "module_qualified_name") or c[2][0], c[2][1] if len(c[2]) > 1 else arg(c, 1, "levels"), c[2][2] if len(c[2]) > 2 else arg(c, 2, "module_name")]
        ok = a[0] == ("attr", SELF, "_module_qualified_name") and a[1] == ("call", ("builtin", "len"), (rel,), ()) and a[2] is not None and (a[2] == NONE if none else ("attr", U, "module") in set(subs(a[2])))
        ctx.check(rule, "leave_ImportFrom (module)", ok, f.loc, "the absolute name is not resolved from the module's own name, the number of dots and the name after them")
    g = fun(ctx, rule, f"{PASSES}._dotted_name_to_cst")
    if g is not None:
        for o in paths(ctx, g, inline=no_inline, loop_iters=(1,)):
            if o.kind != "return":
                continue
            v = strip(o.val)
            if fact(o, lambda c: c[0] == "nonempty") is False or cls_of(v) != "Attribute":
                continue
            last = field(field(v, "attr", NONE), "value")
            if last is None or last[0] != "elem":
                ctx.skip(rule, "_dotted_name_to_cst", "the name is not built part by part")
                continue
            loops = [e.obj for e in o.st.events if e.kind == "loop"]
            odd = any(x[0] == "call" and x[1] in (("builtin", "reversed"), ("builtin", "sorted")) for lp in loops for x in subs(lp))
            first = field(field(v, "value", NONE), "value")
            ctx.check(rule, "_dotted_name_to_cst", not odd and first is not None and first[0] == "item" and first[2] == const(0), g.loc, "the parts of the module name are not kept in order")
    ctx.floor(rule, 3)


# ------------------------------------------------------------------ marking
LIT = {"Integer", "Float", "Imaginary", "BaseString", "SimpleString", "ConcatenatedString", "FormattedString", "Ellipsis", "BaseNumber"}


ATOMS = {"Name", "Attribute", "Call", "Subscript", "List", "Dict", "Set", "ListComp", "DictComp", "SetComp", "FormattedString", "Ellipsis"}
PAREN = ("_can_safely_remove_parens", "_paren_contains_comment_sensitive_layout", "_looks_multiline_sensitive", "_parenthesized_whitespace_has_comment")


def parens(ctx):
    """Parentheses are only removed around expressions that bind tightest, and if the code stays valid without."""
    rule = "parens.removed"
    f = method(ctx, rule, f"{PASSES}.RemoveRedundantParenthesesTransformer", "on_leave")
    if f is None:
        return
    U = upd(f)
    cq = ctx.p.classes.get(f"{PASSES}.RemoveRedundantParenthesesTransformer")
    around = False
    removed = 0
    for o in paths(ctx, f, inline=inline_same_module(deny=PAREN), exc="calls", loop_iters=(0, 1)):
        if o.kind != "return":
            continue
        base, d = changes(o.val)
        ok = base == U and set(d) <= {"lpar", "rpar", "dot"}
        ctx.check(rule, "on_leave node", ok, f.loc, f"the expression becomes {fmt(o.val)[:80]}")
        if not ok:
            continue
        if "dot" in d:
            b2, d2 = changes(d["dot"])
            ctx.check(rule, "on_leave dot", b2 == ("attr", U, "dot") and set(d2) <= {"whitespace_before", "whitespace_after"}, f.loc, "more than the whitespace around the dot changes")
        if not set(d) & {"lpar", "rpar"}:
            continue
        removed += 1
        ls, rs = (seq(o, d.get(k, NONE)) if k in d else None for k in ("lpar", "rpar"))
        ctx.check(rule, "on_leave both", ls == [] and rs == [], f.loc, "the parentheses are not removed on both sides")
        tests = []
        for c, b in (norm(*x) for x in o.st.conds):
            if c[0] == "isinstance" and b and same(c[1], U):
                cs = c[2][1:] if c[2][0] in ("tuple", "union") else (c[2],)
                names = set()
                for k in cs:
                    got = class_tuple(ctx, cq, k) if k[0] in ("attr", "global") else {clsname(k)}
                    names |= got or {None}
                tests.append(names)
        known = [t for t in tests if None not in t]
        if any(t <= ATOMS for t in known):
            ctx.check(rule, "on_leave kind", True, f.loc, "")
        elif len(known) < len(tests):
            ctx.skip(rule, "on_leave kind", "which expressions lose their parentheses was not recognised")
        else:
            wide = sorted(set.intersection(*known) - ATOMS) if known else ["any expression"]
            ctx.check(rule, "on_leave kind", False, f.loc, f"parentheses around {', '.join(wide)} are removed, which may regroup the operands")
        calls = [e for e in o.st.events if e.kind == "call"]
        parsed = any(e.name in ("ext:ast.parse", "builtin:compile", "ext:libcst.parse_expression", "ext:libcst.parse_statement") and e.args and any(meth(x, "code_for_node") is not None and set(changes(x[2][0])[1]) >= {"lpar", "rpar"} for x in subs(e.args[0]) if x[0] == "call" and x[2]) for e in calls)
        ctx.check(rule, "on_leave lines", parsed, f.loc, "parentheses are removed without making sure that the expression is complete without them (it may continue on the next line)")
        inner = [c[1] for c, b in (norm(*x) for x in o.st.conds) if b and c[0] == "isinstance" and c[1][0] == "elem" and any(x in (clsname(k) for k in (c[2][1:] if c[2][0] in ("tuple", "union") else (c[2],))) for x in ("BaseSmallStatement", "BaseStatement", "BaseCompoundStatement", "Module"))]
        if inner:
            around = True
            done = any(e.name.endswith((".deep_replace", ".with_deep_changes")) and e.obj == inner[0] and len(e.args) > 1 and same(e.args[0], orig(f)) and set(changes(e.args[1])[1]) >= {"lpar", "rpar"} for e in calls)
            ctx.check(rule, "on_leave keywords", done, f.loc, "parentheses are removed although they may be what separates the expression from a keyword")
    if removed:
        ctx.check(rule, "on_leave surroundings", around, f.loc, "parentheses are removed whatever surrounds them, also where they separate a keyword from the expression, as in return(x)")
    ctx.floor(rule, 3)


def literals(ctx):
    """A literal never holds a name other than True, False and None, and no call."""
    rule = "literal.simple"
    f = fun(ctx, rule, f"{NODES}.is_simple_literal")
    if f is None:
        return
    N = par(f, 0)
    n = 0
    for o in paths(ctx, f, inline=no_inline):
        if o.kind != "return":
            continue
        yes, _ = kinds(o, N)
        if len(yes) > 1:
            continue  # a node has one kind
        n += 1
        k = next(iter(yes - LIT), None) or next(iter(yes), None)
        if o.val == FALSE or fact(o, lambda c: c == o.val) is False:
            ctx.check(rule, f"is_simple_literal ({k}: no)", True, f.loc, "")
            continue
        if yes and yes <= LIT:
            ok = True
        elif k == "Name":
            vals = {c[3] if c[3][0] == "const" else c[2] for c, b in (norm(*x) for x in o.st.conds) if b and c[0] == "cmp" and c[1] == "==" and {c[2], c[3]} & {("attr", N, "value"), ("attr", N, "@0")}}
            ok = o.val == TRUE and bool(vals) and vals <= {const("True"), const("False"), const("None")}
            if not ok and o.val != TRUE:
                ctx.skip(rule, f"is_simple_literal ({k})", "the answer is computed in a way the rule cannot read")
                continue
        elif k in ("UnaryOperation", "BinaryOperation"):
            need = [("attr", N, "expression")] if k == "UnaryOperation" else [("attr", N, "left"), ("attr", N, "right")]
            rec = {x[2][0] for x in subs(o.val) if x[0] == "call" and x[1] == ("func", f.qual)}
            conds = {c[2][0] for c, b in (norm(*x) for x in o.st.conds) if b and c[0] == "call" and c[1] == ("func", f.qual)}
            if o.val != TRUE and not rec:
                ctx.skip(rule, f"is_simple_literal ({k})", "the answer is computed in a way the rule cannot read")
                continue
            disj = any(x[0] == "or" for x in subs(o.val))
            ok = all(x in rec | conds for x in need) and not disj
        else:
            ok = False
        ctx.check(rule, f"is_simple_literal ({k}: maybe)", ok, f.loc, f"a node of kind {k} counts as literal although it may hold a variable")
    ctx.floor(rule, 6)


def marking(ctx):
    rule = "mark.keep"
    q = f"{PASSES}.MarkReplacementCandidates"
    for name, ops in (("leave_Call", ()), ("leave_BinaryOperation", ("left", "right")), ("leave_UnaryOperation", ("expression",))):
        f = method(ctx, rule, q, name)
        if f is None:
            continue
        U = upd(f)
        for o in paths(ctx, f, inline=inline_same_module(deny=("is_simple_literal", "is_bypassed_call_syntax"))):
            if o.kind != "return":
                continue
            v = strip(o.val)
            marked = cls_of(v) == "ReplacementCandidate" and same(field(v, "original"), U)
            n = f"MarkReplacementCandidates.{name} ({'marked' if marked else 'kept'})"
            if not ctx.check(rule, n, marked or v == U, f.loc, f"the expression becomes {fmt(o.val)}"):
                continue
            lit = {}
            for c, b in o.st.conds:
                c, b = norm(c, b)
                if c[0] == "call" and str(ref_name(c[1])).endswith("is_simple_literal"):
                    p = path_of(c[2][0], f)
                    if p:
                        lit[p[0]] = b
            if ops and not marked:
                ctx.check(rule, n + " operands", all(lit.get(x) is True for x in ops), f.loc, "an operation is left unmarked although an operand is not a literal")
            if not ops and marked:
                sup = fact(o, lambda c: const("super") in set(subs(c)))
                byp = fact(o, lambda c: c[0] == "call" and str(ref_name(c[1])).endswith("is_bypassed_call_syntax"))
                ctx.check(rule, n + " super", sup is False, f.loc, "super() is marked: hoisting or replacing it changes what it refers to")
                ctx.check(rule, n + " bypass", byp is False, f.loc, "a call that must be left alone is marked for replacement")
    f = method(ctx, rule, q, "visit_Annotation")
    if f is not None:
        for o in paths(ctx, f, inline=no_inline):
            if o.kind == "return":
                ctx.check(rule, "MarkReplacementCandidates.visit_Annotation", o.val == FALSE, f.loc, "expressions inside annotations are rewritten")
    ctx.floor(rule, 9)


def typed_marking(ctx):
    rule = "mark.types"
    q = f"{PASSES}.ExtendedMarkReplacementCandidates"
    f = method(ctx, rule, q, "_determine_replacement_candidate")
    helpers = ("_is_subtype", "_is_sequence_of_subtype")
    if f is not None:
        TI, N = par(f, 1), par(f, 2)
        for o in paths(ctx, f, inline=inline_same_module(deny=helpers), loop_iters=(1,)):
            if o.kind != "return":
                continue
            if fact(o, lambda c: c[0] == "nonempty") is False:
                continue
            hit = [c for c, b in (norm(*x) for x in o.st.conds) if b and c[0] == "call" and str(ref_name(c[1])).rsplit(".", 1)[-1] in helpers]
            miss = {str(ref_name(c[1])).rsplit(".", 1)[-1] for c, b in (norm(*x) for x in o.st.conds) if not b and c[0] == "call" and str(ref_name(c[1])).rsplit(".", 1)[-1] in helpers}
            for c, b in (norm(*x) for x in o.st.conds):
                if c[0] == "or" and not b:
                    miss |= {str(ref_name(x[1])).rsplit(".", 1)[-1] for x in c[1:] if x[0] == "call"}
                if c[0] == "or" and b and any(x[0] == "call" and str(ref_name(x[1])).rsplit(".", 1)[-1] in helpers for x in c[1:]):
                    hit.append(c)
            v = strip(o.val)
            if cls_of(v) == "ReplacementCandidate":
                ctx.check(rule, "_determine_replacement_candidate (marked)", same(field(v, "original"), N), f.loc, "the candidate does not wrap the expression")
            elif v == N:
                ctx.check(rule, "_determine_replacement_candidate (kept)", not hit and miss >= set(helpers), f.loc, "an expression on tensors (or sequences of tensors) is not marked")
            elif v == NONE:
                unknown = fact(o, lambda c: c[0] == "call" and c[1] == ("builtin", "all") or c[0] == "cmp" and c[1] == "is")
                ctx.check(rule, "_determine_replacement_candidate (unknown)", unknown is True, f.loc, "known types are ignored")
            else:
                ctx.check(rule, "_determine_replacement_candidate", False, f.loc, f"the expression becomes {fmt(o.val)}")
    for name, ops in (("leave_Call", ("args",)), ("leave_BinaryOperation", ("left", "right")), ("leave_UnaryOperation", ("expression",))):
        f = method(ctx, rule, q, name)
        if f is None:
            continue
        U = upd(f)
        for o in paths(ctx, f, inline=inline_same_module(deny=("_determine_replacement_candidate", "is_simple_literal") + tuple(f"{c}.{name}" for c in ("MarkReplacementCandidates",))), loop_iters=(1,)):
            if o.kind != "return":
                continue
            calls = [e for e in o.st.events if e.kind == "call" and e.name.endswith("._determine_replacement_candidate")]
            if not calls:
                ctx.skip(rule, f"{q.rsplit('.', 1)[1]}.{name}", "the types are not judged by the helper")
                continue
            for e in calls:
                infos = evarg(e, 0, "type_info")
                got = set()
                terms = [x for y in (contents(infos, o.st) or [infos]) for x in subs(y)]
                for x in terms:
                    if x[0] == "attr" and path_of(x, f):
                        got.add(path_of(x, f)[0])
                ctx.check(rule, f"ExtendedMarkReplacementCandidates.{name} operands", set(ops) <= got, f.loc, f"the types of {sorted(set(ops) - got)} are not looked at")
                ctx.check(rule, f"ExtendedMarkReplacementCandidates.{name} node", same(evarg(e, 1, "updated_node"), U), f.loc, "another node than the visited one is marked")
    ctx.floor(rule, 9)


# ------------------------------------------------------------------ isolation
ISO = f"{PASSES}.IsolateReplacementCandidates"


def isolating(ctx):
    rule = "isolate.guard"
    f = method(ctx, rule, ISO, "leave_ReplacementCandidate")
    if f is None:
        return
    U = upd(f)
    for o in paths(ctx, f, inline=inline_same_module(deny=("_is_nested_in_no_isolation_subtree", "_next_tmp_name", "add_insertion", "IsolateReplacementCandidates.parent")), loop_iters=(1,)):
        if o.kind != "return":
            continue
        adds = [e for e in o.st.events if e.kind == "call" and e.name.endswith("_Insertions.add_insertion")]
        n = f"leave_ReplacementCandidate ({'hoisted' if adds else 'kept'})"
        if not adds:
            ctx.check(rule, n, strip(o.val) == U, f.loc, f"a candidate that is not hoisted becomes {fmt(o.val)}")
            continue
        if not ctx.check(rule, n + " once", len(adds) == 1, f.loc, "a candidate is evaluated more than once"):
            continue
        blocked = fact(o, lambda c: any(x[0] == "call" and str(x[1][1] if x[1][0] == "bound" else x[1][-1]).endswith("_is_nested_in_no_isolation_subtree") for x in subs(c)) or ("attr", SELF, "_nested_in_no_isolation_subtree") in set(subs(c)))
        ctx.check(rule, n + " guard", blocked is False, f.loc, "an expression is hoisted without asking whether it is evaluated conditionally, lazily or repeatedly")
        e = adds[0]
        target, ins, pos = evarg(e, 0, "target"), evarg(e, 1, "insertion"), evarg(e, 2, "position")
        ts = seq(o, field(ins, "targets")) if cls_of(strip(ins)) == "Assign" else None
        if ts is None or len(ts) != 1 or ts[0][0] != "one":
            ctx.skip(rule, n + " statement", "the hoisted statement is not an assignment to one target")
            continue
        name = field(ts[0][1], "target")
        ctx.check(rule, n + " value", same(field(ins, "value"), U), f.loc, "the hoisted statement does not evaluate the candidate")
        ctx.check(rule, n + " use", same(name, o.val) or field(name, "value") == field(o.val, "value"), f.loc, "the expression is replaced by another name than the one that was assigned")
        drawn = [e2 for e2 in o.st.events if e2.kind == "call" and e2.name.endswith("._next_tmp_name")]
        ctx.check(rule, n + " one name", len(drawn) <= 1, f.loc, "two names are drawn for one temporary: the one that is used is not the one that is assigned")
        fresh = field(name, "value")
        ctx.check(rule, n + " name", fresh is not None and any(x[0] == "call" and x[1][0] == "bound" and x[1][1].endswith("._next_tmp_name") for x in subs(fresh)) or fresh is not None and fresh[0] not in ("const",) and ("attr", SELF, "_count") in set(subs(fresh)), f.loc, "the temporary does not get a fresh name")
        # insertion point: the enclosing statement and its parent
        line = fact(o, lambda c: strip(pos) in set(subs(c)) and any("SimpleStatementLine" in str(x) for x in subs(c)))
        ctx.check(rule, n + " position", line is True, f.loc, "the position is not the enclosing statement line")
        # the innermost enclosing line: visited from the top of the stack
        loops = [e2.obj for e2 in o.st.events if e2.kind == "loop" and ("attr", SELF, "_visit_stack") in set(subs(e2.obj))]
        inner = bool(loops) and all(any(x[0] == "call" and x[1] == ("builtin", "reversed") or x[0] == "slice" or x == const(-1) for x in subs(lp)) for lp in loops)
        if loops:
            ctx.check(rule, n + " innermost", inner, f.loc, "the enclosing statement is searched from the outside, hence an outer statement is found first")
    ctx.floor(rule, 8)


def temporaries(ctx):
    rule = "isolate.name"
    f = method(ctx, rule, ISO, "_next_tmp_name")
    if f is None:
        return
    C = ("attr", SELF, "_count")
    n = 0
    for o in paths(ctx, f, inline=inline_same_module(), loop_iters=(0, 1)):
        if o.kind != "return":
            continue
        n += 1
        if any(e.kind == "loop" for e in o.st.events) and any(b and c == ("cmp", "in", o.val, ("attr", SELF, "_used_names")) for c, b in (norm(*x) for x in o.st.conds)):
            continue  # the search goes on
        unused = any(not b and c == ("cmp", "in", o.val, ("attr", SELF, "_used_names")) for c, b in (norm(*x) for x in o.st.conds))
        ctx.check(rule, "_next_tmp_name unused", unused, f.loc, "a temporary may get the name of a variable of the code")
        after = o.st.heap.get((SELF, "_count"))
        used = o.st.heap.get((("attr", SELF, "_used_names"), "@contents"))
        numbers = [x for x in subs(o.val) if x == C or x[0] == "bin" and C in set(subs(x))]
        big = max(numbers, key=lambda x: len(str(x)), default=None)
        grows = after is not None and after != big and big is not None and after[0] == "bin" and after[1] == "+" and after[2] == big
        recorded = used is not None and o.val in used
        ctx.check(rule, "_next_tmp_name fresh", grows or recorded, f.loc, "the same name is given to two temporaries")
    # names are collected from the whole tree before anything is renamed
    g = method(ctx, rule, ISO, "on_visit")
    if g is not None:
        node = par(g, 1)
        for o in paths(ctx, g, inline=inline_same_module()):
            if o.kind != "return":
                continue
            top = fact(o, lambda c: c == ("attr", SELF, "_visit_stack") or ("attr", SELF, "_visit_stack") in set(subs(c)) and c[0] in ("cmp",))
            names = o.st.heap.get((SELF, "_used_names"))
            sets = [e for e in o.st.events if e.kind == "setattr" and e.name == "_used_names" or e.kind == "call" and e.name in ("method:.update", "method:.add") and e.obj == ("attr", SELF, "_used_names") or e.kind == "aug"]
            if top is False:
                src = [x for e in sets for y in ([e.value] + list(e.args)) if y is not None for x in subs(y)]
                ctx.check(rule, "on_visit names", node in src, g.loc, "the names used in the visited tree are not collected")
    ctx.floor(rule, 3)


def blocking(ctx):
    rule = "isolate.blocked"
    cq = ctx.p.classes.get(ISO)
    f = method(ctx, rule, ISO, "_blocks_isolation")
    if f is None or cq is None:
        return
    node = par(f, 1)
    tried = {}
    for kind in ("Lambda", "IfExp", "BooleanOperation", "Comparison", "Assert", "ListComp", "GeneratorExp", "DictComp", "SetComp", "SimpleStatementLine"):
        tried[kind] = None
    BASES = {"ListComp": {"ListComp", "BaseComp", "BaseSimpleComp"}, "GeneratorExp": {"GeneratorExp", "BaseComp", "BaseSimpleComp"}, "DictComp": {"DictComp", "BaseComp"}, "SetComp": {"SetComp", "BaseComp", "BaseSimpleComp"}}
    blocked = set()
    chain = set()
    walrus = False
    for o in paths(ctx, f, inline=inline_same_module()):
        if o.kind != "return":
            continue
        yes, no = kinds(o, node)
        if any(x[0] == "ext" and x[1].endswith("NamedExpr") for x in subs(o.val)) and "SimpleStatementLine" in yes:
            walrus = all(x[1] == "<" and x[2] == const(0) or x[1] == "<=" and x[2] == const(1) or x[1] in ("==", "is") for x in subs(o.val) if x[0] == "cmp")
        for k in ("NamedExpr",):
            if any(x[0] == "ext" and x[1].endswith(k) for c, _ in o.st.conds for x in subs(c)) and o.val == TRUE:
                walrus = True
        if o.val == TRUE:
            blocked |= yes - {"Comparison"}
        more = ("call", ("builtin", "len"), (("attr", node, "comparisons"),), ())
        ms = [numbers(c, b, more) for c, b in ((c, b) for c, b in o.st.conds if more in set(subs(c)))]
        if "Comparison" in yes:
            may = [m for m in range(1, 60) if all(x is not None and m in x for x in ms)]
            if o.val == TRUE:
                chain |= set(may)
            else:
                got = numbers(o.val, True, more)
                chain |= set(may) & set(got or ())
        for x in subs(o.val):
            if x[0] == "isinstance" and strip(x[1]) == node:
                cs = x[2][1:] if x[2][0] in ("tuple", "union") else (x[2],)
                for c in cs:
                    if c[0] == "attr" or c[0] == "global":
                        blocked |= class_tuple(ctx, cq, c)
                    elif clsname(c):
                        blocked.add(clsname(c))
    for kind in tried:
        if kind == "SimpleStatementLine":
            continue
        ok = bool(BASES.get(kind, {kind}) & blocked) or kind == "Comparison" and set(range(2, 60)) <= chain
        ctx.check(rule, f"_blocks_isolation {kind}", ok, f.loc, f"expressions inside {kind} are hoisted out of it although they are evaluated conditionally, lazily or repeatedly")
    ctx.check(rule, "_blocks_isolation walrus", walrus or "NamedExpr" in blocked and False, f.loc, "expressions are hoisted out of a statement that binds a name with :=, so the name may be read before it is bound")
    # the counter is balanced
    ctr = ("attr", SELF, "_nested_in_no_isolation_subtree")
    for name, sign in (("on_visit", "+"), ("on_leave", "-")):
        g = method(ctx, rule, ISO, name)
        if g is None:
            continue
        for o in paths(ctx, g, inline=inline_same_module(deny=("_blocks_isolation",))):
            if o.kind != "return":
                continue
            blk = None
            for c, b in o.st.conds:
                c, b = norm(c, b)
                if c[0] == "call" and c[1][0] == "bound" and c[1][1].endswith("._blocks_isolation"):
                    blk = b
            v = o.st.heap.get((SELF, "_nested_in_no_isolation_subtree"), ctr)
            if blk is None:
                other = [c for c, b in (norm(*x) for x in o.st.conds) if c[0] == "isinstance" and any(x[0] in ("attr", "global") and str(x[-1]).endswith("_SKIP_ISOLATION_NODES") for x in subs(c[2]))]
                if other:
                    ctx.check(rule, f"{name} counter (predicate)", False, g.loc, "entering and leaving a subtree do not use the same test, hence the number of enclosing subtrees that forbid hoisting is not kept right")
                    continue
                ctx.skip(rule, f"{name} counter", "the counter does not depend on the predicate")
                continue
            ctx.check(rule, f"{name} counter ({'blocked' if blk else 'open'})", v == (("bin", sign, ctr, const(1)) if blk else ctr), g.loc, "the number of enclosing subtrees that forbid hoisting is not kept right")
    g = method(ctx, rule, ISO, "_is_nested_in_no_isolation_subtree")
    if g is not None:
        for o in paths(ctx, g, inline=no_inline):
            if o.kind == "return":
                ok = o.val in (("cmp", "<", const(0), ctr), ctr, ("cmp", "<=", const(1), ctr)) or o.val[0] == "not" and o.val[1] in (("cmp", "==", ctr, const(0)), ("cmp", "<=", ctr, const(0))) or o.val[0] == "call" and o.val[1] == ("builtin", "bool") and o.val[2] == (ctr,)
                ctx.check(rule, "_is_nested_in_no_isolation_subtree", ok, g.loc, f"the answer is {fmt(o.val)}, not whether the counter is positive")
    ctx.floor(rule, 13)


def class_tuple(ctx, cq, t):
    """Names in a tuple of classes that is an attribute of the class."""
    name = t[2] if t[0] == "attr" else t[1].rsplit(".", 1)[-1]
    out = set()
    for st in cq.node.body:
        tg = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else st.target if isinstance(st, ast.AnnAssign) else None
        if isinstance(tg, ast.Name) and tg.id == name and isinstance(st.value, (ast.Tuple, ast.List, ast.Set)):
            out |= {e.attr if isinstance(e, ast.Attribute) else e.id for e in st.value.elts if isinstance(e, (ast.Attribute, ast.Name))}
    if not out and t[0] == "global":
        m, e = module_display(ctx, t[1].rsplit(".", 1)[0], name)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out |= {x.attr if isinstance(x, ast.Attribute) else x.id for x in e.elts if isinstance(x, (ast.Attribute, ast.Name))}
    return out


def inserting(ctx):
    rule = "isolate.insert"
    f = method(ctx, rule, ISO, "_resolve_insertions")
    if f is not None:
        S = par(f, 2)
        for o in paths(ctx, f, inline=no_inline, loop_iters=(1,)):
            if o.kind != "return":
                continue
            none = fact(o, lambda c: c[0] == "nonempty" or c[0] == "cmp" and any(x[0] == "call" and x[1] == ("builtin", "len") for x in subs(c)))
            if strip(o.val) == S:
                ctx.check(rule, "_resolve_insertions (none)", none is not None, f.loc, "recorded insertions are dropped")
                continue
            base, d = changes(o.val)
            ins = [e for e in o.st.events if e.kind == "call" and e.name == "method:.insert"]
            if fact(o, lambda c: c[0] == "nonempty") is False:
                continue
            if not ins or "body" not in d:
                ctx.skip(rule, "_resolve_insertions", "statements are not inserted one by one")
                continue
            e = ins[0]
            el = [x for x in subs(e.args[1]) if x[0] == "attr" and x[2] == "insertion"]
            ctx.check(rule, "_resolve_insertions statement", len(ins) == 1 and bool(el), f.loc, "the recorded statement is not inserted (once)")
            ctx.check(rule, "_resolve_insertions body", base == S and strip(d["body"]) == strip(e.obj), f.loc, "the changed statements are not put back into the suite")
            idx = e.args[0]
            posn = [x for x in subs(idx) if x[0] == "attr" and x[2] == "position"]
            before = not any(x[0] == "bin" for x in subs(idx))
            ctx.check(rule, "_resolve_insertions place", before and bool(posn), f.loc, f"a statement is inserted at {fmt(idx)}, not right before the statement it was taken from")
            loops = [x.obj for x in o.st.events if x.kind == "loop"]
            ctx.check(rule, "_resolve_insertions order", not any(x[0] == "call" and x[1] == ("builtin", "reversed") or x[0] == "slice" for lp in loops for x in subs(lp)), f.loc, "statements are not inserted in the order they were recorded")
            for x in o.st.events:
                if x.kind == "setitem" and x.obj == e.obj:
                    told = any(y.kind == "call" and y.name.endswith("update_position") and len(y.args) == 2 and strip(y.args[1]) in (strip(x.value), ("item", x.obj, x.args[0])) for y in o.st.events)
                    ctx.check(rule, "_resolve_insertions followed", told, f.loc, "a statement of the suite is replaced without telling the other insertions before it")
            dels = [x for x in o.st.events if x.kind == "delitem" or x.kind == "call" and x.name in ("method:.pop", "method:.remove", "method:.clear")]
            ctx.check(rule, "_resolve_insertions kept", not dels, f.loc, "statements of the suite are removed")
    for name in ("leave_IndentedBlock", "leave_Module"):
        g = method(ctx, rule, ISO, name)
        if g is None:
            continue
        for o in paths(ctx, g, inline=inline_same_module(deny=("_resolve_insertions",))):
            if o.kind == "return":
                v = strip(o.val)
                a = v[2] + tuple(x for _, x in v[3]) if v[0] == "call" and v[1][0] == "bound" and v[1][1].endswith("._resolve_insertions") else None
                ctx.check(rule, name, a is not None and set(a) == {orig(g), upd(g)} and (v[3] != () or a == (orig(g), upd(g))), g.loc, "statements recorded for the suite are not inserted into it")
    g = method(ctx, rule, ISO, "on_leave")
    if g is not None:
        seen = []
        for o in paths(ctx, g, inline=inline_same_module(deny=("_blocks_isolation", "clean_target_insertions", "update_position"))):
            if o.kind != "return":
                continue
            moved = [e for e in o.st.events if e.kind == "call" and e.name.endswith("_Insertions.update_position")]
            seen.append(bool(moved))
            if moved:
                ctx.check(rule, "on_leave position", len(moved[0].args) == 2 and strip(moved[0].args[0]) == orig(g) and strip(moved[0].args[1]) == strip(o.val), g.loc, "an insertion does not follow its statement when the statement is replaced")
        ctx.check(rule, "on_leave follows", any(seen), g.loc, "an insertion does not follow its statement when the statement is replaced")
    g = method(ctx, rule, f"{PASSES}._Insertions", "add_insertion")
    if g is not None:
        t, i, p = (par(g, k) for k in (1, 2, 3))
        for o in paths(ctx, g, inline=inline_same_module()):
            app = [e for e in o.st.events if e.kind == "call" and e.name in ("method:.append",)]
            ins = [e for e in o.st.events if e.kind == "call" and e.name in ("method:.insert", "method:.appendleft")]
            both = [e for e in app if any(x == i for x in subs(e.args[0])) and any(x == p for x in subs(e.args[0])) and any(x == t for x in subs(e.args[0]))]
            ctx.check(rule, "_Insertions.add_insertion", len(both) >= 2 and not ins, g.loc, "an insertion is not appended to the list of its suite and of its position")
    g = method(ctx, rule, f"{PASSES}._Insertions", "update_position")
    if g is not None:
        old, new = par(g, 1), par(g, 2)
        for o in paths(ctx, g, inline=inline_same_module(), loop_iters=(1,)):
            known = fact(o, lambda c: c[0] == "cmp" and c[1] == "in" and c[2] == old)
            if known is False or fact(o, lambda c: c[0] == "nonempty") is False:
                continue
            sets = [e for e in o.st.events if e.kind == "setattr" and e.name == "position"]
            ctx.check(rule, "_Insertions.update_position", bool(sets) and all(e.value == new for e in sets), g.loc, "insertions still refer to the replaced statement")
    ctx.floor(rule, 8)


# ------------------------------------------------------------------ replacing operations
REP = f"{PASSES}.QuantizedCounterpartReplacer"


def replacing(ctx):
    rule = "replace.operands"
    f = method(ctx, rule, REP, "leave_ReplacementCandidate")
    if f is None:
        return
    U = upd(f)
    X = ("attr", U, "original")
    deny = ("_create_quantized_call", "_resolve_reference", "_get_name_and_torch_name_for_operation", "is_bypassed_callable")
    for o in paths(ctx, f, inline=inline_same_module(deny=deny)):
        if o.kind != "return":
            continue
        yes, no = kinds(o, X)
        if len(yes) > 1:
            continue
        k = next(iter(yes), "other")
        made = [e for e in o.st.events if e.kind == "call" and e.name.endswith("._create_quantized_call")]
        byp = fact(o, lambda c: c[0] == "call" and str(ref_name(c[1])).endswith("is_bypassed_callable"))
        n = f"leave_ReplacementCandidate ({k})"
        if not made:
            ctx.check(rule, n + (" bypassed" if byp else " kept"), strip(o.val) in (X, U), f.loc, f"an operation that is not replaced becomes {fmt(o.val)}")
            continue
        e = made[0]
        ctx.check(rule, n + " result", len(made) == 1 and strip(o.val)[0] == "call" and str(ref_name(strip(o.val)[1])).endswith("_create_quantized_call"), f.loc, "the replacement is not what is returned")
        args = evarg(e, 3, "orig_args")
        if k == "Call":
            ctx.check(rule, n + " bypass", byp is False, f.loc, "a call is replaced without asking whether it must be left alone")
            ctx.check(rule, n + " args", args is not None and strip(args) == ("attr", X, "args"), f.loc, "the arguments of the call are not handed on as they are")
            ref = evarg(e, 2, "func_ref")
            ctx.check(rule, n + " function", ref is not None and any(x[0] == "call" and str(ref_name(x[1])).endswith("_resolve_reference") for x in subs(ref)), f.loc, "the called function is not the one its name refers to")
        else:
            want = {"UnaryOperation": ("expression",), "BinaryOperation": ("left", "right")}.get(k)
            s = seq(o, args) if args is not None else None
            if s is None or want is None:
                ctx.skip(rule, n + " args", "the operands are not a sequence the rule can read")
                continue
            got = [field(x[1], "value") for x in s if x[0] == "one"]
            ctx.check(rule, n + " operands", len(s) == len(want) and all(same(a, ("attr", X, w)) for a, w in zip(got, want)), f.loc, f"the operands are {[fmt(x) for x in got if x]}, not {want} in this order")
    g = method(ctx, rule, REP, "_create_quantized_call")
    if g is not None:
        node, name, ref, args = (par(g, k) for k in (1, 2, 3, 4))
        for o in paths(ctx, g, inline=inline_same_module(deny=("_create_resolved_quantized_call", "_create_unresolved_quantized_call"))):
            if o.kind != "return":
                continue
            v = strip(o.val)
            what = str(ref_name(v[1])) if v[0] == "call" else None
            if what and what.endswith("_create_resolved_quantized_call"):
                a = [evarg(e, 2, "original_args") for e in o.st.events if e.kind == "call" and e.name.endswith("_create_resolved_quantized_call")]
                ctx.check(rule, "_create_quantized_call (operator)", a == [args], g.loc, "the operator does not get the original arguments")
                for e in o.st.events:
                    if e.kind == "call" and e.name.endswith("_create_resolved_quantized_call"):
                        key = evarg(e, 1, "func_key")
                        ctx.check(rule, "_create_quantized_call (key)", key is not None and ref in set(subs(key)) or fact(o, lambda c: c == ref) is False or fact(o, lambda c: c == ("cmp", "is", ref, NONE)) is True, g.loc, "the operator is looked up by name although the name may refer to another function")
            elif what and what.endswith("_create_unresolved_quantized_call"):
                a = [(evarg(e, 0, "node"), evarg(e, 2, "func_ref"), evarg(e, 3, "original_args")) for e in o.st.events if e.kind == "call" and e.name.endswith("_create_unresolved_quantized_call")]
                ctx.check(rule, "_create_quantized_call (function)", a == [(node, ref, args)], g.loc, "a call that is resolved later is not the original call")
            else:
                ctx.check(rule, "_create_quantized_call (kept)", v == node, g.loc, f"an operation without counterpart becomes {fmt(o.val)}")
    ctx.floor(rule, 9)


def second_chance(ctx):
    rule = "replace.once"
    f = method(ctx, rule, REP, "leave_Call")
    if f is None:
        return
    U = upd(f)
    for o in paths(ctx, f, inline=inline_same_module(deny=("_create_quantized_call", "_resolve_reference", "is_bypassed_callable"))):
        if o.kind != "return":
            continue
        made = [e for e in o.st.events if e.kind == "call" and e.name.endswith("._create_quantized_call")]
        if not made:
            ctx.check(rule, "leave_Call (kept)", strip(o.val) == U, f.loc, f"a call that is not replaced becomes {fmt(o.val)}")
            continue
        e = made[0]
        cand = fact(o, lambda c: c[0] == "isinstance" and clsname(c[2]) == "ReplacementCandidate")
        byp = fact(o, lambda c: c[0] == "call" and str(ref_name(c[1])).endswith("is_bypassed_callable"))
        sup = fact(o, lambda c: const("super") in set(subs(c)))
        ctx.check(rule, "leave_Call once", cand is False, f.loc, "a marked call is replaced twice, getting two sets of quantizers")
        ctx.check(rule, "leave_Call bypass", byp is False, f.loc, "a call is replaced without asking whether it must be left alone")
        ctx.check(rule, "leave_Call super", sup is False, f.loc, "super() is replaced")
        ctx.check(rule, "leave_Call args", same(evarg(e, 3, "orig_args"), ("attr", U, "args")), f.loc, "the arguments of the call are not handed on as they are")
        nd = evarg(e, 0, "node")
        ctx.check(rule, "leave_Call node", nd is not None and (strip(nd) == U or same(field(nd, "original"), U)), f.loc, "another call is replaced")
    ctx.floor(rule, 5)


def quantized_call(ctx):
    rule = "replace.call"
    f = method(ctx, rule, REP, "_create_resolved_quantized_call")
    if f is None:
        return
    A = par(f, "original_args") if "original_args" in f.params() else par(f, 3)
    cp = lambda t: t[0] == "call" and str(ref_name(t[1])).endswith("get_quantized_function_counterpart")  # noqa: E731
    n = 0
    for o in paths(ctx, f, inline=inline_same_module(deny=("_get_root",)), loop_iters=(1,), exc="calls"):
        if o.kind != "return":
            continue
        if o.val == NONE:
            continue
        v = strip(o.val)
        b = built(v)
        if b is None or cls_of(v) != "QuantizedCall":
            ctx.check(rule, "_create_resolved_quantized_call", False, f.loc, f"an operation becomes {fmt(o.val)}")
            continue
        fn, op = b.get("func"), b.get("operator")
        ctx.check(rule, "call function", fn is not None and fn[0] == "item" and cp(fn[1]) and fn[2] == const(0), f.loc, "the called function is not the counterpart found in the operator table")
        s = seq(o, b.get("args", NONE))
        if s is None:
            ctx.skip(rule, "call arguments", "the arguments are not a sequence the rule can read")
            continue
        n += 1
        first = s[0] if s else None
        ctx.check(rule, "call arguments kept", first is not None and first[0] == "each" and unwrap(first[1]) == A and first[2] == ("elem", unwrap(first[1])) and not first[3], f.loc, "the original arguments do not come first, all of them, in order")
        extra = quantizer_args(o)
        want = set()
        OP = op
        inter = [x for x in extra if x[0] == ("elem", ("attr", OP, "intermediate_quantizers"))]
        outs = [x for x in extra if x not in inter]
        it_empty = any(c == ("nonempty", ("attr", OP, "intermediate_quantizers")) and not bb for c, bb in o.st.conds)
        rng = ("attr", OP, "num_output_quantizers")
        out_empty = any(c[0] == "nonempty" and rng in set(subs(c)) and not bb for c, bb in o.st.conds)
        ctx.check(rule, "intermediate quantizers", it_empty or len(inter) == 1, f.loc, "not every intermediate quantizer of the operator gets an argument of its name")
        many = fact(o, lambda c: c[0] == "cmp" and rng in (c[2], c[3]))
        ok = out_empty
        if not out_empty and len(outs) == 1:
            key = outs[0][0]
            single = key == const("output_quantizer") or key[0] == "bin" and const("output_quantizer") in set(subs(key)) and const("") in set(subs(key))
            indexed = const("output_quantizer") in set(subs(key)) or key[0] == "fstr"
            idx = any(x[0] == "elem" and rng in set(subs(x)) for x in subs(key))
            ok = (indexed and idx) if many else (single or indexed) and not idx
            if key[0] == "fstr":
                txt = "".join(p[1] if isinstance(p, tuple) and p[0] == "const" else "" for p in key[1:] if isinstance(p, tuple))
        ctx.check(rule, "output quantizers" + (" (several)" if many else " (one)"), ok, f.loc, f"the output quantizers are passed as {[fmt(x[0]) for x in outs]}")
        for e in o.st.events:
            if e.kind == "loop" and rng in set(subs(e.obj)) and e.obj[0] == "call" and e.obj[1] == ("builtin", "range"):
                ctx.check(rule, "output quantizers count", e.obj[2] in ((rng,), (const(0), rng)), f.loc, f"not every output gets a quantizer: {fmt(e.obj)}")
        depth, inside, given = 0, [], []
        for e in o.st.events:
            depth += (e.kind == "loop") - (e.kind == "endloop")
            if e.kind == "call" and e.name.endswith("create_quantizer_expression"):
                inside.append(depth)
            elif e.kind == "call" and e.name.endswith(".get_keyword_argument_node"):
                given.append(depth)
        if len(inside) == len(given):
            ctx.check(rule, "own quantizer of each output", inside == given, f.loc, "several arguments get the same quantizer")
        for k, val in extra:
            fresh = any(x[0] == "call" and str(ref_name(x[1])).endswith("create_quantizer_expression") for x in subs(val))
            ctx.check(rule, "own quantizer", fresh, f.loc, f"the quantizer passed as {fmt(k)} is not a new one")
        made = [e for e in o.st.events if e.kind == "call" and e.name.endswith("create_quantizer_expression")]
        ctx.check(rule, "one quantizer per argument", len(made) == len(extra), f.loc, "arguments share a quantizer, or quantizers are created that are not used")
    ctx.floor(rule, 10)


def quantizer_args(o):
    """(keyword, value) of every keyword argument made on a path."""
    out = []
    for e in o.st.events:
        if e.kind == "call" and e.name.endswith(".get_keyword_argument_node"):
            out.append((evarg(e, 0, "keyword"), evarg(e, 1, "expression")))
        elif e.kind == "call" and e.name == "ext:libcst.Arg" and evarg(e, 1, "keyword") is not None:
            out.append((evarg(e, 1, "keyword"), evarg(e, 0, "value")))
    return out


def unresolved_call(ctx):
    rule = "replace.later"
    f = method(ctx, rule, REP, "_create_unresolved_quantized_call")
    if f is None:
        return
    N, A, R = par(f, 1), par(f, 4), par(f, 3)
    X = ("attr", N, "original")
    for o in paths(ctx, f, inline=no_inline):
        if o.kind != "return":
            continue
        v = strip(o.val)
        if v == N:
            ctx.check(rule, "_create_unresolved_quantized_call (kept)", "Call" in kinds(o, X)[1], f.loc, "a call is left to itself although the called function gets quantizers")
            continue
        if cls_of(v) != "UnresolvedQuantizedCall":
            ctx.check(rule, "_create_unresolved_quantized_call", False, f.loc, f"a call becomes {fmt(o.val)}")
            continue
        sets = {e.args[0]: e.value for e in o.st.events if e.kind == "setitem" and e.args}
        kw = dict(v[3])
        a = kw.get("args", sets.get(const("args")))
        fn = kw.get("func", sets.get(const("func")))
        copied = any(("attr", N, "original") in set(subs(e.args[0])) for e in o.st.events if e.kind == "call" and e.name.endswith("node_asdict") and e.args)
        if a is None and not copied:
            ctx.skip(rule, "_create_unresolved_quantized_call", "the fields of the call are not copied in a way the rule can read")
            continue
        ctx.check(rule, "_create_unresolved_quantized_call args", a is None or strip(a) in (A, ("attr", X, "args")), f.loc, "the arguments of the call change")
        ctx.check(rule, "_create_unresolved_quantized_call function", fn is None or ("attr", X, "func") in set(subs(fn)), f.loc, "the called expression changes")
        ctx.check(rule, "_create_unresolved_quantized_call reference", kw.get("func_ref") == R, f.loc, "the call does not remember the function it refers to")
    ctx.floor(rule, 3)


def resolving_call(ctx):
    rule = "resolve.args"
    q = f"{AUTO}._ResolveQuantizedCallsTransformer"
    f = method(ctx, rule, q, "leave_UnresolvedQuantizedCall")
    if f is None:
        return
    U, O = upd(f), orig(f)
    for o in paths(ctx, f, inline=inline_same_module(), loop_iters=(1,)):
        if o.kind != "return":
            continue
        v = strip(o.val)
        if v == U:
            unknown = any(c[0] == "cmp" and c[1] in ("is", "in") for c, b in (norm(*x) for x in o.st.conds))
            ctx.check(rule, "leave_UnresolvedQuantizedCall (kept)", unknown, f.loc, "a call whose quantizers are known is not given them")
            continue
        if fact(o, lambda c: c[0] == "nonempty") is False:
            continue
        sets = {e.args[0]: e.value for e in o.st.events if e.kind == "setitem" and e.args}
        kw = dict(v[3]) if v[0] == "call" else {}
        a = kw.get("args", sets.get(const("args")))
        base, d = changes(o.val)
        a = a or d.get("args")
        if a is None:
            ctx.skip(rule, "leave_UnresolvedQuantizedCall", "the arguments are not set in a way the rule can read")
            continue
        s = split_sum(o, a)
        if s is None:
            ctx.skip(rule, "leave_UnresolvedQuantizedCall", "the arguments are not a sequence the rule can read")
            continue
        ctx.check(rule, "leave_UnresolvedQuantizedCall args", bool(s) and s[0] == ("attr", U, "args"), f.loc, "the rewritten arguments of the call do not come first")
        extra = quantizer_args(o)
        ok = len(extra) == 1 and extra[0][0][0] == "attr" and extra[0][0][2] == "keyword" and extra[0][1][0] == "attr" and extra[0][1][2] == "value" and extra[0][0][1] == extra[0][1][1]
        ctx.check(rule, "leave_UnresolvedQuantizedCall quantizers", ok and len(s) == 2, f.loc, "a quantizer is not passed under its own keyword")
        src = extra[0][0][1] if ok else None
        if ok:
            ctx.check(rule, "leave_UnresolvedQuantizedCall own", any(x == O for x in subs(src)), f.loc, "the quantizers are those of another call")
        fn = kw.get("func", sets.get(const("func")))
        if fn is not None:
            ctx.check(rule, "leave_UnresolvedQuantizedCall function", ("attr", O, "func_ref") in set(subs(fn)) or ("attr", U, "func_ref") in set(subs(fn)), f.loc, "the call is renamed to another function")
    ctx.floor(rule, 4)


def split_sum(o, t):
    """Parts of a concatenation, in order."""
    t = unwrap(t)
    if t[0] == "bin" and t[1] == "+":
        a, b = split_sum(o, t[2]), split_sum(o, t[3])
        return None if a is None or b is None else a + b
    if t[0] in ("tuple", "list"):
        out = []
        for x in t[1:]:
            out.append(unwrap(x[1]) if x[0] == "star" else x)
        return out
    return [t]


def counterpart(ctx):
    rule = "replace.overload"
    f = fun(ctx, rule, f"{CRE}.get_quantized_function_counterpart")
    if f is None:
        return
    T, K, A = (par(f, k) for k in range(3))
    for o in paths(ctx, f, inline=inline_same_module(deny=("_args_to_pos_and_kw_args",)), loop_iters=(1,)):
        if o.kind != "return":
            continue
        v = o.val
        if v[0] != "tuple" or len(v) != 3:
            ctx.skip(rule, f.name, "the result is not a pair")
            continue
        op = v[2]
        ok = any(b and c[0] == "call" and meth(c, "validate_arguments") == op for c, b in (norm(*x) for x in o.st.conds))
        ctx.check(rule, "get_quantized_function_counterpart accepts", ok, f.loc, "an operator is chosen that does not accept the arguments")
        ctx.check(rule, "get_quantized_function_counterpart dispatch", any(meth(x, "dispatch_qualified_name") == op for x in subs(v[1])), f.loc, "the function is not the one the operator dispatches to")
        src = [x for x in subs(op) if x[0] == "call" and meth(x, "get") == T]
        ctx.check(rule, "get_quantized_function_counterpart lookup", op[0] == "elem" and bool(src) and src[0][2] == (K,) or op[0] == "elem" and op[1] == ("item", T, K), f.loc, "the operators of another function are looked up")
        for c, b in (norm(*x) for x in o.st.conds):
            if b and c[0] == "call" and meth(c, "validate_arguments") == op:
                ctx.check(rule, "get_quantized_function_counterpart arguments", len(c[2]) == 2 and all(any(x[0] == "call" and str(ref_name(x[1])).endswith("_args_to_pos_and_kw_args") and x[2] == (A,) for x in subs(a)) and (a[0] != "item" or a[2] == const(k)) for k, a in enumerate(c[2])), f.loc, "the arguments of the call are not the ones that are validated")
    g = fun(ctx, rule, f"{CRE}._args_to_pos_and_kw_args")
    if g is not None:
        el = ("elem", par(g, 0))
        for o in paths(ctx, g, inline=no_inline, loop_iters=(1,)):
            if o.kind != "return" or o.val[0] != "tuple" or len(o.val) != 3 or fact(o, lambda c: c[0] == "nonempty") is False:
                continue
            kw = fact(o, lambda c: c == ("cmp", "is", ("attr", el, "keyword"), NONE))
            pos = contents(unwrap(o.val[1]), o.st)
            sets = [e for e in o.st.events if e.kind == "setitem" and e.value == el]
            if kw is None:
                ctx.skip(rule, g.name, "keywords are not told apart by a test")
                continue
            ctx.check(rule, f"_args_to_pos_and_kw_args ({'positional' if kw else 'keyword'})", (el in pos and not sets) if kw else (el not in pos and len(sets) == 1 and sets[0].args[0] == ("attr", ("attr", el, "keyword"), "value")), g.loc, "an argument is validated as something else than it is")
    ctx.floor(rule, 6)


def keywords(ctx):
    """Nodes that are made from templates hold what they were given, where they were given it."""
    rule = "create.template"
    for name, holes in (("get_keyword_argument_node", ("keyword", "expression")), ("create_quantize_statement", ("target", "quantizer_ref", "source"))):
        f = fun(ctx, rule, f"{CRE}.{name}")
        if f is None:
            continue
        for o in paths(ctx, f, inline=no_inline):
            if o.kind != "return":
                continue
            tmpl = [e for e in o.st.events if e.kind == "call" and e.name in ("ext:libcst.helpers.parse_template_expression", "ext:libcst.helpers.parse_template_statement")]
            if len(tmpl) != 1:
                ctx.skip(rule, name, "the node is not made from one template")
                continue
            e = tmpl[0]
            text = e.args[0][2] if e.args and e.args[0][0] == "const" else None
            kw = dict(e.kwargs)
            if text is None:
                ctx.skip(rule, name, "the template is not a literal")
                continue
            for h in holes:
                v = kw.get(h)
                src = {x for x in subs(v)} if v else set()
                own = ("param", h) in src or h == "source" and ("param", "target") in src and fact(o, lambda c: c == ("cmp", "is", ("param", "source"), NONE)) is True
                ctx.check(rule, f"{name} {h}", own and "{" + h + "}" in text, f.loc, f"the part {h} of the node is not what was given")
            norm_text = text.replace(" ", "")
            want = "dummy_fn({keyword}={expression})" if name == "get_keyword_argument_node" else "{target}={quantizer_ref}({source})"
            shape = norm_text == want or name == "get_keyword_argument_node" and norm_text.endswith("({keyword}={expression})")
            ctx.check(rule, f"{name} shape", shape, f.loc, f"the template is {text!r}")
    f = fun(ctx, rule, f"{TRF}._create_inline_quantize_statement")
    if f is not None:
        for o in paths(ctx, f, inline=no_inline):
            e = next((e for e in o.st.events if e.kind == "call" and e.name == "ext:libcst.helpers.parse_template_expression"), None)
            if e is None or o.kind != "return":
                continue
            kw = dict(e.kwargs)
            ctx.check(rule, "_create_inline_quantize_statement", e.args[0] == const("{quantizer_name}({expr})") and kw.get("expr") == ("param", "expr") and kw.get("quantizer_name") == ("param", "quantizer_name"), f.loc, "the inline call does not quantize the expression")
    f = fun(ctx, rule, f"{TRF}._expr_to_named_expr")
    if f is not None:
        for o in paths(ctx, f, inline=no_inline):
            e = next((e for e in o.st.events if e.kind == "call" and e.name == "ext:libcst.helpers.parse_template_expression"), None)
            if e is None or o.kind != "return":
                continue
            kw = dict(e.kwargs)
            nm = kw.get("name_")
            ctx.check(rule, "_expr_to_named_expr", str(e.args[0][2]).replace(" ", "") == "({name_}:={expr})" and kw.get("expr") == ("param", "expr") and nm is not None and ("param", "name") in set(subs(nm)), f.loc, "the bound name does not hold the expression")
    ctx.floor(rule, 8)


# ------------------------------------------------------------------ references, marker nodes
def references(ctx):
    rule = "reference.resolve"
    f = fun(ctx, rule, f"{PASSES}._resolve_reference")
    if f is None:
        return
    REF, FC = par(f, 0), par(f, 1)
    for o in paths(ctx, f, inline=no_inline, loop_iters=(1,)):
        if o.kind != "return" or o.val == NONE:
            continue
        t = o.val
        if fact(o, lambda c: c[0] == "nonempty") is False:
            continue
        if t[0] == "attr" and t[2] == "__func__":
            t = t[1]
        chain = [x for x in subs(t) if x[0] == "call" and x[1] == ("builtin", "getattr")]
        parts = [x for c in chain for x in subs(c[2][1])] if chain else []
        if not chain:
            ctx.skip(rule, "_resolve_reference parts", "attributes are not followed by getattr")
            continue
        src = {unwrap(c[2][1][1]) for c in chain if c[2][1][0] == "elem"}
        rest = all(x[0] == "slice_of" and x[2] in (1, const(1)) or x[0] == "item" and x[2] == ("slice", const(1), NONE, NONE) and x[1][0] == "call" for x in src)
        ctx.check(rule, "_resolve_reference parts", any(x == REF for x in parts) and rest, f.loc, "not every part of the dotted name is followed")
        ctx.check(rule, "_resolve_reference missing", all(len(c[2]) == 2 or c[2][2][0] in ("const", "global", "fresh") for c in chain), f.loc, "a part of the name that does not exist is passed over")
        root = chain[-1][2][0] if chain else t
        look = [x for x in subs(root) if meth(x, "get") is not None or x[0] == "item"]
        d = next((meth(x, "get") for x in look if meth(x, "get") is not None and meth(x, "get")[0] in ("dict", "fresh", "bin")), None)
        if d is None:
            ctx.skip(rule, "_resolve_reference scope", "the root is not looked up in a mapping the rule can read")
            continue
        order = [x[2] for x in subs(d) if x[0] == "attr" and x[2] in ("builtins", "globals", "nonlocals")]
        ctx.check(rule, "_resolve_reference scope", order.index("nonlocals") > order.index("globals") > order.index("builtins") if set(order) == {"builtins", "globals", "nonlocals"} else False, f.loc, f"names are not looked up as Python does (enclosing functions win over globals over builtins): {order}")
    # self.<name> refers to the module type
    for o in paths(ctx, f, inline=no_inline, loop_iters=(1,)):
        mod = ("attr", FC, "torch_module")
        has = fact(o, lambda c: c == mod or c == ("cmp", "is", mod, NONE))
        inst = fact(o, lambda c: c == ("attr", FC, "instance_var"))
        sets = [e for e in o.st.events if e.kind == "setitem" and e.value == mod]
        if inst is True:
            ctx.check(rule, "_resolve_reference self", any(e.args[0] == ("attr", FC, "instance_var") for e in sets), f.loc, "the name of the instance does not refer to the module being quantized")
    ctx.floor(rule, 4)


def carrying(ctx):
    """Marker nodes survive a visit with everything they carry."""
    rule = "node.carry"
    for cls, need in (("ReplacementCandidate", ("original",)), ("QuantizedCall", ("original_name", "operator")), ("UnresolvedQuantizedCall", ("original_name", "func_ref")), ("QuantizerReference", ("refid", "value")), ("AbstractClassReference", ())):
        for name in ("_visit_and_replace_children", "deep_clone"):
            q = f"{NODES}.{cls}"
            if q not in ctx.p.classes:
                ctx.skip(rule, cls, "the class does not exist")
                continue
            f = ctx.p.funcs.get(f"{q}.{name}")
            if f is None:
                if name == "_visit_and_replace_children":
                    ctx.check(rule, f"{cls}.{name}", False, ctx.p.classes[q].loc if hasattr(ctx.p.classes[q], "loc") else None, f"a visited {cls} becomes a plain node")
                continue
            for o in paths(ctx, f, inline=no_inline):
                if o.kind != "return":
                    continue
                v = strip(o.val)
                kept = cls_of(v) == cls or v[0] == "call" and v[1][0] == "call" and v[1][1] == ("builtin", "type")
                ctx.check(rule, f"{cls}.{name} kind", kept, f.loc, f"a visited {cls} becomes {fmt(o.val)}")
                kw = {**dict(zip(POS.get(cls, ()), v[2])), **dict(v[3])} if v[0] == "call" else {}
                star = any(k in (None, "**") for k, _ in v[3]) if v[0] == "call" else False
                for x in need:
                    got = kw.get(x)
                    if got is None and name == "_visit_and_replace_children" and star and x == "value":
                        continue
                    ctx.check(rule, f"{cls}.{name} {x}", got is not None and ("attr", SELF, x) in set(subs(got)), f.loc, f"{x} is lost when the tree is visited")
    ctx.floor(rule, 10)


def numbers(c, b, n):
    """Numbers (up to 60) the term n may be if the comparison c with a constant is b."""
    c, b = norm(c, b)
    if c == n or c == ("call", ("builtin", "bool"), (n,), ()):
        return [m for m in range(60) if bool(m) == b]
    if c[0] != "cmp" or n not in c[2:]:
        return None
    k = c[3] if c[2] == n else c[2]
    ops = {"==": lambda x, y: x == y, "is": lambda x, y: x == y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y}
    if k[0] != "const" or type(k[-1]) is not int or c[1] not in ops:
        return None
    return [m for m in range(60) if (ops[c[1]](m, k[-1]) if c[2] == n else ops[c[1]](k[-1], m)) == b]


def empty(o, seq_):
    """Whether the path is only taken if the sequence is empty; None if a test of it is not understood."""
    n = ("call", ("builtin", "len"), (seq_,), ())
    strange = False
    for c, b in flat_conds(o):
        c, b = norm(c, b)
        if c[0] == "match_seq" and strip(c[1]) == seq_:
            if b and c[2] == const(0) and c[3] == const(False):
                return True
            continue
        if seq_ not in set(subs(c)):
            continue
        if c in (seq_, n, ("call", ("builtin", "bool"), (seq_,), ()), ("nonempty", seq_)):
            if not b:
                return True
        elif c[0] == "cmp" and n in c[2:]:
            left = numbers(c, b, n)
            if left is None:
                strange = True
            elif left == [0]:
                return True
        elif c[0] == "cmp" and seq_ in c[2:] and c[1] == "==" and b and any(x[0] in ("tuple", "list") and len(x) == 1 or x == ("tuple", ()) for x in c[2:]):
            return True
        elif c[0] not in ("and", "or"):
            strange = not any(x[0] == "item" for x in subs(c)) or strange
    return None if strange else False


def super_calls(ctx):
    rule = "super.anchor"
    f = method(ctx, rule, f"{CONV}._AnchorBareSuperCalls", "leave_Call")
    if f is not None:
        U = upd(f)
        for o in paths(ctx, f, inline=inline_same_module()):
            if o.kind != "return":
                continue
            if strip(o.val) == U:
                ctx.check(rule, "leave_Call (kept)", True, f.loc, "")
                continue
            base, d = changes(o.val)
            ok = base == U and set(d) == {"func"}
            ctx.check(rule, "leave_Call outer", ok, f.loc, "more than the super() of the call changes")
            if not ok:
                continue
            b2, d2 = changes(d["func"])
            ok = b2 == ("attr", U, "func") and set(d2) == {"value"}
            ctx.check(rule, "leave_Call attribute", ok, f.loc, "another method is called on super")
            if not ok:
                continue
            b3, d3 = changes(d2["value"])
            s = seq(o, d3.get("args", NONE)) if b3 == ("attr", ("attr", U, "func"), "value") else None
            if s is None or len(s) != 2:
                ctx.check(rule, "leave_Call arguments", False, f.loc, "super does not get the class and the instance")
                continue
            vals = [next((y for y in (("attr", SELF, "_owner_class_name"), ("attr", SELF, "_self_name")) if y in set(subs(x[1]))), None) for x in s]
            ctx.check(rule, "leave_Call arguments", vals == [("attr", SELF, "_owner_class_name"), ("attr", SELF, "_self_name")], f.loc, "super gets other arguments than the class and the instance")
            sup = fact(o, lambda c: const("super") in set(subs(c)))
            ctx.check(rule, "leave_Call super", sup is True, f.loc, "a call of something else than super gets the class and the instance")
            bare = empty(o, ("attr", ("attr", ("attr", U, "func"), "value"), "args"))
            if bare is None:
                ctx.skip(rule, "leave_Call bare", "how a bare super() is told apart was not recognised")
            else:
                ctx.check(rule, "leave_Call bare", bare, f.loc, "the arguments of an explicit super(...) are replaced")
    f = method(ctx, rule, f"{CONV}._AnchorBareSuperCalls", "__init__")
    if f is not None:
        for o in paths(ctx, f, inline=no_inline):
            ctx.check(rule, "__init__", o.st.heap.get((SELF, "_owner_class_name")) == par(f, 1) and o.st.heap.get((SELF, "_self_name")) == par(f, 2), f.loc, "class and instance are mixed up")
    f = fun(ctx, rule, f"{CONV}._rewrite_super_calls")
    if f is not None:
        cst, src, fc = (par(f, k) for k in range(3))
        for o in paths(ctx, f, inline=inline_same_module(deny=("_owner_class_name",))):
            if o.kind != "return":
                continue
            made = [x for e in o.st.events for x in [("call", NONE, e.args, e.kwargs)] if e.kind == "call" and e.name == f"class:{CONV}._AnchorBareSuperCalls"]
            if not made:
                ctx.check(rule, "_rewrite_super_calls (kept)", o.val == cst, f.loc, "the function changes")
                continue
            a = made[0]
            meth_only = fact(o, lambda c: ("attr", fc, "method_type") in set(subs(c)))
            ctx.check(rule, "_rewrite_super_calls methods", meth_only is True, f.loc, "super() is anchored to the instance in functions that have none")
            a0, a1 = arg(a, 0, "owner_class_name"), arg(a, 1, "self_name")
            ctx.check(rule, "_rewrite_super_calls", a0 is not None and src in set(subs(a0)) and a1 == ("attr", fc, "instance_var"), f.loc, "super is anchored to something else than the class that defines the method and the instance")
    f = fun(ctx, rule, f"{CONV}._owner_class_name")
    if f is not None:
        for o in paths(ctx, f, inline=no_inline):
            if o.kind == "return" and o.val != NONE:
                ok = o.val[0] == "item" and o.val[2] == const(-2) and ("attr", par(f, 0), "qualified_name") in set(subs(o.val))
                if not ok and o.val[0] != "item":
                    ctx.skip(rule, "_owner_class_name", "the class is not read from the qualified name by position")
                else:
                    ctx.check(rule, "_owner_class_name", ok, f.loc, "the owner is not the last but one part of the qualified name")
    ctx.floor(rule, 6)


def renaming(ctx):
    rule = "rename.references"
    q = f"{AUTO}._RenameHelperRefsTransformer"
    f = method(ctx, rule, q, "leave_Name")
    if f is not None:
        U, O = upd(f), orig(f)
        for o in paths(ctx, f, inline=inline_same_module()):
            if o.kind != "return":
                continue
            if strip(o.val) == U:
                ctx.check(rule, "leave_Name (kept)", True, f.loc, "")
                continue
            v = strip(o.val)
            ok = ("attr", SELF, "_name_map") in set(subs(v)) and (("attr", U, "value") in set(subs(v)) or ("attr", O, "value") in set(subs(v)))
            ctx.check(rule, "leave_Name name", ok, f.loc, f"a name is replaced by {fmt(o.val)}")
            inside = fact(o, lambda c: ("attr", SELF, "_inside_attr") in set(subs(c)))
            ctx.check(rule, "leave_Name attribute", inside is False, f.loc, "the attribute part of obj.name is renamed")
    for name, fl in (("leave_Arg", "keyword"), ("leave_FunctionDef", "name")):
        g = ctx.p.find_method(q, name) if q in ctx.p.classes else None
        if g is None:
            if q in ctx.p.classes:
                ctx.check(rule, f"{name} {fl}", False, ctx.p.classes[q].loc if hasattr(ctx.p.classes[q], "loc") else None, f"the {fl} of a node is renamed although it is not a reference to the helper")
            continue
        for o in paths(ctx, g, inline=inline_same_module()):
            if o.kind == "return":
                ctx.check(rule, f"{name} {fl}", field(o.val, fl) == ("attr", orig(g), fl), g.loc, f"the {fl} is renamed although it is not a reference to the helper")
    g = method(ctx, rule, q, "__init__")
    if g is not None:
        nm, fd = par(g, 1), (par(g, 2) if len(g.params()) > 2 else None)
        for o in paths(ctx, g, inline=inline_same_module(deny=("_bound_names",))):
            v = o.st.heap.get((SELF, "_name_map"))
            if v is None:
                ctx.skip(rule, "__init__ bound", "the map is not stored")
                continue
            bound = lambda t: any(x[0] == "call" and str(ref_name(x[1])).endswith("_bound_names") for x in subs(t))  # noqa: E731
            if v[0] == "comp":
                ok = v[1] == "dict" and bound(v) and any(not b or c[0] == "not" for c, b in v[3][0][1]) and nm in set(subs(v))
                ctx.check(rule, "__init__ bound", ok, g.loc, "parameters and local variables of the function are renamed like references to a helper")
            elif any(e.kind in ("delitem", "setitem") and (bound(e.obj) or any(bound(x) for x in e.args)) for e in o.st.events) or bound(v) or any(bound(c) for c, _ in o.st.conds):
                ctx.skip(rule, "__init__ bound", "the map is not filtered by a comprehension")
            else:
                ctx.check(rule, "__init__ bound", False, g.loc, "parameters and local variables of the function are renamed like references to a helper")
    g = fun(ctx, rule, f"{AUTO}._bound_names")
    if g is not None:
        fd = par(g, 0)
        took, asked, opaque = {}, {}, False
        for o in paths(ctx, g, inline=inline_same_module(deny=("filter_nodes_by_type", "unpack_sequence_expression")), loop_iters=(1,)):
            for e in o.st.events:
                if e.kind == "call" and e.name.endswith(".filter_nodes_by_type"):
                    cs = evarg(e, 1, "types") or (e.args[1] if len(e.args) > 1 else NONE)
                    for part in ("params", "body"):
                        if evarg(e, 0, "root") == ("attr", fd, part) or e.args[:1] in ((("attr", fd, part),), (fd,)):
                            asked.setdefault(part, set()).update(clsname(c) for c in (cs[1:] if cs[0] in ("tuple", "list", "union") else (cs,)))
            loops = [e for e in o.st.events if e.kind == "loop"]
            if not loops:
                continue
            N = loops[0].value
            yes, _ = kinds(o, N) if N is not None else (set(), set())
            if len(yes) != 1:
                continue
            used = {x[2] for e in o.st.events if e.kind == "call" and e.name in ("method:.append", "method:.extend", "method:.add", "method:.update") for a in e.args for x in subs(a) if x[0] == "attr" and x[1] == N}
            took.setdefault(next(iter(yes)), set()).update(used)
        NEED = {"Param": "name", "GeneralAssignment": "targets", "AssignTarget": "target", "NamedExpr": "target", "For": "target", "CompFor": "target", "AsName": "name", "FunctionDef": "name", "ClassDef": "name"}
        if not asked or not took:
            ctx.skip(rule, "_bound_names", "binding nodes are not collected in a way the rule can read")
        else:
            for k, fl in NEED.items():
                ctx.check(rule, f"_bound_names {k}", k in asked.get("body", ()) and (k != "Param" or k in asked.get("params", ())) and fl in took.get(k, ()), g.loc, f"names bound by {k} are renamed like references to a helper")
    ctx.floor(rule, 9)


# ------------------------------------------------------------------ quantization of bindings
def sentences(o):
    """Quantize statements made on a path: (target, quantizer, source, event)."""
    out = []
    for e in o.st.events:
        if e.kind == "call" and e.name.endswith(".create_quantize_statement"):
            kw = dict(e.kwargs)
            out.append((kw.get("target"), kw.get("quantizer_ref"), kw.get("source"), e))
    return out


QFT = f"{TRF}.QuantizerFunctionTransformer"


def statements(ctx):
    """The statements put at the beginning of a body stay behind the docstring and before everything else."""
    rule = "quantize.docstring"
    f = fun(ctx, rule, f"{TRF}._insert_in_indented_block")
    if f is None:
        return
    N, L = par(f, 0), par(f, 1)
    body = ("attr", N, "body")
    for o in paths(ctx, f, inline=inline_same_module(deny=("_has_docstring",))):
        if o.kind != "return":
            continue
        base, d = changes(o.val)
        if base != N or "body" not in d:
            ctx.skip(rule, "_insert_in_indented_block", "the block is not changed in a way the rule can read")
            continue
        doc = fact(o, lambda c: c[0] == "call" and str(ref_name(c[1])).endswith("_has_docstring"))
        parts = split_sum(o, d["body"])
        rest = ("item", body, ("slice", const(1), NONE, NONE))
        want = [("item", body, const(0)), L, rest] if doc else [L, body]
        alt = [L, body] if doc is None else want
        got = [strip(x) for x in parts]
        if doc is None:
            ctx.skip(rule, "_insert_in_indented_block", "no test for a docstring")
            continue
        flat = [str(x) for x in got]
        ok = got == want or doc and len(got) == 3 and got[:2] == want[:2] and body in set(subs(got[2])) and got[2] != body
        ctx.check(rule, f"_insert_in_indented_block ({'docstring' if doc else 'no docstring'})", ok, f.loc, "statements of the body are lost, repeated or reordered")
    ctx.floor(rule, 2)


def binding_quantization(ctx):
    rule = "quantize.binding"
    # assignments: after the assignment, to its own name
    f = method(ctx, rule, QFT, "leave_GeneralAssignment")
    if f is not None:
        U = upd(f)
        for o in paths(ctx, f, inline=inline_same_module(deny=("_get_annotations", "create_quantize_statement")), loop_iters=(1,)):
            if o.kind != "return":
                continue
            st = sentences(o)
            if not st:
                if fact(o, lambda c: c[0] == "nonempty") is not False:
                    ctx.check(rule, "leave_GeneralAssignment (kept)", strip(o.val) == U, f.loc, "an assignment without annotation changes")
                continue
            own(ctx, rule, "leave_GeneralAssignment", f, o, st)
            s = split_sum(o, field(o.val, "nodes")) if cls_of(strip(o.val)) == "FlattenSentinel" else None
            if s is None:
                ctx.skip(rule, "leave_GeneralAssignment order", "the result is not a sequence of statements")
            else:
                ctx.check(rule, "leave_GeneralAssignment order", strip(s[0]) == U and len(s) > 1 and U not in [strip(x) for x in s[1:]], f.loc, "a value is quantized before it is assigned, or the assignment is lost")
    # loops and with statements: at the beginning of their body
    for name, kw in (("leave_For", {}), ("leave_With", {})):
        f = method(ctx, rule, QFT, name)
        if f is None:
            continue
        U = upd(f)
        inner = ("attr", ("attr", U, "body"), "body")
        for o in paths(ctx, f, inline=inline_same_module(deny=("_get_annotations", "create_quantize_statement", "warn_not_implemented")), loop_iters=(1,)):
            if o.kind != "return":
                continue
            st = sentences(o)
            base, d = changes(o.val)
            if base != U:
                ctx.check(rule, name, False, f.loc, "the statement is replaced by another one")
                continue
            if not d:
                ctx.check(rule, name + " (kept)", not st, f.loc, "a quantize statement is made and dropped")
                continue
            b = changes(d["body"])[1].get("body") if "body" in d else None
            s = split_sum(o, b) if b is not None else None
            if s is None or set(d) != {"body"}:
                ctx.skip(rule, name, "the body is not changed in a way the rule can read")
                continue
            ctx.check(rule, name + " body", [strip(x) for x in s][-1:] == [inner], f.loc, "the body is not kept after the quantize statements")
            if st:
                ctx.check(rule, name + " statements", len(s) == 2 and any(x[0] == "call" and str(ref_name(x[1])).endswith("create_quantize_statement") for y in (contents(s[0], o.st) or [s[0]]) for x in subs(y)), f.loc, "the value is not quantized at the beginning of the body")
                own(ctx, rule, name, f, o, st)
    # parameters
    f = method(ctx, rule, QFT, "leave_FunctionDef")
    if f is not None:
        U = upd(f)
        for o in paths(ctx, f, inline=inline_same_module(deny=("_get_annotations", "create_quantize_statement", "_insert_in_indented_block", "_QuantizerCallDedup")), loop_iters=(1,)):
            if o.kind != "return":
                continue
            st = sentences(o)
            if st:
                own(ctx, rule, "leave_FunctionDef", f, o, st)
            put = [e for e in o.st.events if e.kind == "call" and e.name.endswith("._insert_in_indented_block")]
            ok = len(put) == 1 and strip(put[0].args[0]) == ("attr", U, "body")
            ctx.check(rule, "leave_FunctionDef body", ok, f.loc, "the statements are not inserted into the body of the function")
    ctx.floor(rule, 8)


def own(ctx, rule, what, f, o, st):
    """A binding is quantized under its own name, with a quantizer made for it."""
    for tgt, q, src, e in st:
        fresh = q is not None and any(x[0] == "call" and str(ref_name(x[1])).endswith(("create_quantizer_expression", "_quantizer_ref_for_annotation")) for x in subs(q))
        ctx.check(rule, what + " quantizer", fresh, f.loc, "the value is quantized by a quantizer that was not made for it")
        ctx.check(rule, what + " source", src is None or src == NONE or strip(src) == strip(tgt), f.loc, "another variable is quantized than the one that is bound")
        names = {x for y in ([q] if q is not None else []) for c in subs(y) if c[0] == "call" and str(ref_name(c[1])).endswith("create_quantizer_expression") for a in c[2] for x in [a]}
        if names:
            ctx.check(rule, what + " name", tgt in names, f.loc, "the quantizer is named after another variable")


def block_quantization(ctx):
    rule = "quantize.block"
    f = method(ctx, rule, QFT, "visit_IndentedBlock")
    if f is not None:
        for o in paths(ctx, f, inline=inline_same_module(deny=("_get_annotations", "_should_inline_quantized_use", "_quantizer_ref_for_annotation")), loop_iters=(1,)):
            if o.kind != "return":
                continue
            ctx.check(rule, "visit_IndentedBlock children", o.val != FALSE, f.loc, "the statements of the block are not rewritten")
            uses = [e for e in o.st.events if e.kind == "setitem"]
            for e in uses:
                use = e.args[0]
                inline = e.obj == ("attr", SELF, "_inline_quantize_replacements")
                if inline:
                    ok = any(x[0] == "call" and str(ref_name(x[1])).endswith("_quantizer_ref_for_annotation") for x in subs(e.value))
                else:
                    anns = [x[1] for x in subs(use) if x[0] == "attr" and x[2] == "uses"]
                    ok = bool(anns) and ("attr", anns[0], "target") in set(subs(e.value))
                ctx.check(rule, f"visit_IndentedBlock {'inline' if inline else 'name'}", ok, f.loc, "a use is replaced by the target or quantizer of another annotation")
    f = method(ctx, rule, QFT, "leave_IndentedBlock")
    if f is not None:
        for o in paths(ctx, f, inline=inline_same_module(deny=("_get_annotations", "_should_inline_quantized_use", "_quantizer_ref_for_annotation", "create_quantize_statement", "_insert_dependency_aware_quantize_statements", "_dedup_repeated_quantizer_calls")), loop_iters=(1,)):
            if o.kind != "return":
                continue
            for tgt, q, src, e in sentences(o):
                anns = {x[1] for x in subs(tgt) if x[0] == "attr" and x[2] == "target"}
                okq = q is not None and any(x[0] == "call" and str(ref_name(x[1])).endswith("_quantizer_ref_for_annotation") and set(x[2]) & anns for x in subs(q))
                oks = src is not None and any(x == ("attr", a, "uses") for a in anns for x in subs(src))
                ctx.check(rule, "leave_IndentedBlock annotation", okq and oks, f.loc, "target, quantizer and source of a statement come from different annotations")
            put = [e for e in o.st.events if e.kind == "call" and e.name.endswith("._insert_dependency_aware_quantize_statements")]
            if sentences(o):
                ctx.check(rule, "leave_IndentedBlock insert", len(put) == 1 and strip(put[0].args[0]) == upd(f), f.loc, "the statements are not inserted into the block")
    f = method(ctx, rule, QFT, "_quantizer_ref_for_annotation")
    if f is not None:
        A = par(f, 1)
        qid = ("attr", A, "quantizer_id")
        memo = ("attr", SELF, "_quantizer_refs_by_id")
        for o in paths(ctx, f, inline=no_inline):
            if o.kind != "return":
                continue
            made = [e for e in o.st.events if e.kind == "call" and e.name.endswith("create_quantizer_expression")]
            if not made:
                ctx.check(rule, "_quantizer_ref_for_annotation (known)", o.val in (("item", memo, qid),) or meth(o.val, "get") == memo and o.val[2][0] == qid, f.loc, "the quantizer of another annotation is returned")
                continue
            ctx.check(rule, "_quantizer_ref_for_annotation (new)", len(made) == 1 and made[0].args[:1] == (("attr", A, "target"),), f.loc, "the quantizer is not named after the quantized value")
            none = fact(o, lambda c: c == ("cmp", "is", qid, NONE))
            kept = o.st.heap.get((memo, ("item", qid)))
            if none is False:
                ctx.check(rule, "_quantizer_ref_for_annotation (kept)", kept == o.val, f.loc, "a second use of the same value gets another quantizer")
    # merging of hoisted statements: each statement of the block once, in order; each new one once, before its first use
    f = fun(ctx, rule, f"{TRF}._first_use_index_in_block")
    if f is not None:
        B = par(f, 0)
        for o in paths(ctx, f, inline=no_inline, loop_iters=(1,)):
            if o.kind != "return" or o.val == NONE:
                continue
            ctx.check(rule, "_first_use_index_in_block", fact(o, lambda c: c[0] == "attr" and c[2] == "found") is True and not any(x[0] == "bin" for x in subs(o.val)), f.loc, "the statement is not placed at the first one that reads the value")
            loops = [e.obj for e in o.st.events if e.kind == "loop"]
            ctx.check(rule, "_first_use_index_in_block order", not any(x[0] == "call" and x[1] == ("builtin", "reversed") for lp in loops for x in subs(lp)), f.loc, "the last use is found instead of the first")
    f = method(ctx, rule, f"{TRF}._BlockScopeNameLoadFinder", "visit_Name")
    if f is not None:
        N = par(f, 1)
        for o in paths(ctx, f, inline=no_inline):
            hit = o.st.heap.get((SELF, "found"))
            if hit == TRUE:
                eq = fact(o, lambda c: c[0] == "cmp" and c[1] == "==" and ("attr", N, "value") in (c[2], c[3]))
                ctx.check(rule, "_BlockScopeNameLoadFinder.visit_Name", eq is True, f.loc, "another name counts as use of the value")
    ctx.floor(rule, 9)


ORDER = ["ConvertSemicolonJoinedStatements", "ExpandAugAssign", "MarkReplacementCandidates", "IsolateReplacementCandidates", "WrapAssignments"]


def order_of_passes(ctx):
    """Passes rely on each other: aug-assignments are expanded before operations are marked, marked ones are isolated
    before assignments are wrapped (isolation looks for plain assignments)."""
    rule = "passes.order"
    f = fun(ctx, rule, f"{AUTO}.default_preprocessing_passes")
    if f is None:
        return
    for o in paths(ctx, f, inline=inline_same_module()):
        if o.kind != "return":
            continue
        s = seq(o, o.val)
        if s is None or any(x[0] != "one" for x in s):
            ctx.skip(rule, f.name, "the passes are not a list the rule can read")
            continue
        names = []
        for _, x in s:
            c = x if x[0] == "class" else x[1] if x[0] == "call" and x[1][0] == "class" else None
            names.append(clsname(c).replace("Extended", "") if c else None)
        pos = [names.index(x) if x in names else None for x in ORDER]
        ok = all(p is not None for p in pos) and pos == sorted(pos) and all(names.count(x) == 1 for x in ORDER)
        if None in names:
            ctx.skip(rule, f.name, "a pass is not a class or an instance of one")
            continue
        ctx.check(rule, "default_preprocessing_passes", ok, f.loc, f"the passes run in the order {names}")
        ti = fact(o, lambda c: c == ("param", "use_type_inference"))
        ext = any(x[0] == "call" and clsname(x[1]) == "ExtendedMarkReplacementCandidates" or x[0] == "class" and clsname(x) == "ExtendedMarkReplacementCandidates" for _, x in s)
        if ti is not None:
            ctx.check(rule, "default_preprocessing_passes types", ext == ti, f.loc, "type inference is not used exactly when asked for")
    f = fun(ctx, rule, f"{CONV}.autoquantize_funcdef")
    if f is not None:
        for o in paths(ctx, f, inline=no_inline):
            if o.kind != "return":
                continue
            pm = [e for e in o.st.events if e.kind == "call" and e.name == f"class:{AQ}.pass_manager.PassManager"]
            s = seq(o, evarg(pm[0], 0, "passes")) if len(pm) == 1 else None
            if s is None:
                ctx.skip(rule, f.name, "the passes are not a list the rule can read")
                continue
            names = [clsname(x[1][1]) if x[0] == "one" and x[1][0] == "call" and x[1][1][0] == "class" else None for x in s]
            ctx.check(rule, "autoquantize_funcdef", names == ["QuantizedCounterpartReplacer", "QuantizerFunctionTransformer"], f.loc, f"the passes run in the order {names}")
            refs = {evarg_any(x[1], "quantizer_refs") for x in s if x[0] == "one"}
            ctx.check(rule, "autoquantize_funcdef quantizers", refs == {("param", "quantizer_refs")}, f.loc, "the passes create quantizers in different collections")
    ctx.floor(rule, 3)


def evarg_any(t, name):
    return dict(t[3]).get(name)
