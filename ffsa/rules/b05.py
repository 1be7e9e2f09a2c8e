"""Kernels for quantized operators.  Every registration of a kernel (outside the dispatcher) is
collected; its predicate is turned into the set of conditions under which it accepts a call and
its kernel into (raw data expression, context expression) pairs.  The data expression must be the
registered operator applied to the raw data with all arguments; a context may only be kept where
the acceptance conditions make it valid for the result, and changed contexts must change scale
and offset consistently."""
from __future__ import annotations

import ast

from .b04 import is_raw
from ..absint import AnalysisBroken
from .common import *

ASSUMPTIONS = ["torch operators that only move elements act alike on raw and dequantized data", "per-tensor affine parameters are valid for any shape"]
QT = "fastforward.quantized_tensor.QuantizedTensor"
AFF = "fastforward.quantization.affine.function.AffineQuantizationFunction"
AFP = "fastforward.quantization.affine.function.StaticAffineQuantParams"
PT = "fastforward.quantization.granularity.PerTensor"
PC = "fastforward.quantization.granularity.PerChannel"
IN = ("param", "@in")
CTX = ("attr", IN, "_quantization_context")
PAR = ("attr", CTX, "quantization_params")
FN = ("attr", CTX, "quantization_fn")
ORDERED = {"topk", "sort", "argsort", "max", "min", "argmax", "argmin", "kthvalue", "median", "amax", "amin", "msort", "cummax", "cummin"}
LAYOUT = {"contiguous", "clone", "detach"}
SCALAR = (("builtin", "float"), ("builtin", "int"), ("builtin", "bool"), ("ext", "numbers.Real"), ("ext", "numbers.Number"))
TABLE_EXTRA = ("output_quantizer", "strict_quantization")


def check(ctx):
    regs = registrations(ctx)
    table = table_ops(ctx)
    for r in regs:
        one(ctx, r, table)
    ctx.floor("kernel-represents-operator", 6)
    cat(ctx, regs)
    for r in regs:
        if r.op == "__getitem__":
            indexing(ctx, r)
    gradient(ctx)


class Reg:
    pass


def registrations(ctx):
    """`@register("op", predicate[, priority])` kernels."""
    p = ctx.p
    out = []
    for q, f in sorted(p.funcs.items()):
        if f.cls is not None or f.module.name == "fastforward.dispatcher":
            continue
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and resolves(p, f.module, d.func, "fastforward.dispatcher.register") and d.args and isinstance(d.args[0], ast.Constant):
                r = Reg()
                r.op, r.f, r.node = d.args[0].value, f, d
                r.pred = d.args[1] if len(d.args) > 1 else next((k.value for k in d.keywords if k.arg == "predicate"), None)
                out.append(r)
    for m in p.modules.values():
        if m.name == "fastforward.dispatcher" or m.name.startswith("fastforward._autoquant"):
            continue
        for st in m.tree.body:
            d = st.value if isinstance(st, ast.Expr) else None
            if isinstance(d, ast.Call) and resolves(p, m, d.func, "fastforward.dispatcher.register") and len(d.args) >= 3 and isinstance(d.args[0], ast.Constant) and isinstance(d.args[2], ast.Name):
                g = p.funcs.get(f"{m.name}.{d.args[2].id}")
                if g is not None:
                    r = Reg()
                    r.op, r.f, r.node, r.pred = d.args[0].value, g, d, d.args[1]
                    out.append(r)
    return out


def resolves(p, m, expr, qual):
    t = p.resolve_expr(m, expr)
    return t is not None and t[-1] == qual


def table_ops(ctx):
    """{operator: parameter names} of the generated functional interface."""
    out = {}
    for st in ctx.p.module("fastforward._gen.operators").tree.body:
        if isinstance(st, ast.FunctionDef):
            a = st.args
            out[st.name] = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return out


def norm(t):
    """Uniform spelling of the input's context, function and parameters."""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(norm(x) for x in t)
    if t[0] == "bound" and len(t) == 3:
        t = ("attr", t[2], t[1].rsplit(".", 1)[-1])
    if t[0] == "attr" and len(t) == 3:
        if t[2] == "quantization_context":
            return ("attr", t[1], "_quantization_context")
        if t[2] == "quant_func":
            return ("attr", ("attr", t[1], "_quantization_context"), "quantization_fn")
    if t[0] == "call" and len(t) == 4:
        if t[1][0] == "attr" and t[1][2] == "quant_args" and not t[2]:
            return ("attr", ("attr", t[1][1], "_quantization_context"), "quantization_params")
        if t[1] == ("builtin", "getattr") and len(t[2]) >= 2 and t[2][1][0] == "const":
            return norm(("attr", t[2][0], t[2][1][2]))
    return t


def pred_fns(ctx, m, e):
    """Predicate expression -> ('and'|'or'|'not', ...) tree over predicate functions."""
    p = ctx.p
    if e is None or isinstance(e, ast.Constant) and e.value is None:
        return ("true",)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
        return ("and" if isinstance(e.op, ast.BitAnd) else "or", pred_fns(ctx, m, e.left), pred_fns(ctx, m, e.right))
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Invert):
        return ("not", pred_fns(ctx, m, e.operand))
    if isinstance(e, ast.Call) and e.args and (resolves(p, m, e.func, "fastforward.dispatcher.Predicate")):
        a = e.args[0]
        if isinstance(a, (ast.Name, ast.Attribute)):
            t = p.resolve_expr(m, a)
            if t is not None and t[-1] in p.funcs:
                return ("fn", p.funcs[t[-1]])
        return ("unknown",)
    if isinstance(e, (ast.Name, ast.Attribute)):
        t = p.resolve_expr(m, e)
        q = t[-1] if t is not None else None
        if q in p.funcs:
            return ("fn", p.funcs[q])
        if isinstance(q, str) and "." in q:
            mod = p.modules.get(q.rsplit(".", 1)[0])
            if mod is not None:
                for st in mod.tree.body:
                    if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id == q.rsplit(".", 1)[1] for x in st.targets):
                        return pred_fns(ctx, mod, st.value)
    return ("unknown",)


def accept(ctx, tree):
    """Condition sets under which a predicate accepts, None if unknown."""
    if tree[0] == "true":
        return [frozenset()]
    if tree[0] == "fn":
        f = tree[1]
        out = []
        ps = f.all_params()
        args = {ps[0].lstrip("*"): IN} if ps and not ps[0].startswith("*") else {}
        for o in run(ctx, f, inline=inline_same_module(), args=args, merge=False):
            if o.kind != "return":
                continue
            conds = {(norm(c), b) for c, b in o.st.conds}
            for cs in split(norm(o.val), True):
                if not any((c, not b) in conds for c, b in cs):
                    out.append(frozenset(conds | cs))
        return out
    if tree[0] == "and":
        a, b = accept(ctx, tree[1]), accept(ctx, tree[2])
        if a is None or b is None:
            return a if b is None else b  # an unknown conjunct only restricts further
        return [x | y for x in a for y in b]
    if tree[0] == "or":
        a, b = accept(ctx, tree[1]), accept(ctx, tree[2])
        return None if a is None or b is None else a + b
    return None


def split(v, want):
    """Condition sets making the value truthy (want=True)."""
    if v[0] == "const":
        return [set()] if bool(v[2]) == want else []
    if v[0] == "not":
        return split(v[1], not want)
    if v[0] == "bin" and v[1] in ("and", "or"):
        if (v[1] == "and") == want:
            return [a | b for a in split(v[2], want) for b in split(v[3], want)]
        return split(v[2], want) + split(v[3], want)
    if v[0] == "call" and v[1] == ("builtin", "bool") and len(v[2]) == 1:
        return split(v[2][0], want)
    return [{(v, want)}]


def holds(cs, c):
    return (c, True) in cs


def is_inst(cs, t, cls):
    return any(b and c[0] == "isinstance" and c[1] == t and c[2] == ("class", cls) for c, b in cs)


def is_affine_fn(cs):
    return any(b and c[0] == "call" and c[1] == ("builtin", "issubclass") and c[2] == (FN, ("class", AFF)) or b and c[0] == "cmp" and c[1] in ("is", "==") and FN in c[2:] and ("class", AFF) in c[2:] for c, b in cs)


def same_shape(cs):
    s = ("attr", IN, "shape")
    return any(b and c[0] == "cmp" and c[1] == "==" and (c[2] == s or c[3] == s or c[2] == ("call", ("attr", IN, "size"), (), ()) or c[3] == ("call", ("attr", IN, "size"), (), ())) for c, b in cs)


def guarded(ctx, f):
    """Paths of a predicate that read quantization attributes of a value not known to be quantized."""
    ps = f.all_params()
    if not ps or ps[0].startswith("*"):
        return []
    bad = []
    for n in ("quantization_context", "_quantization_context", "quant_func", "raw_data", "quant_args"):
        pass
    x = ("param", ps[0])
    for o in run(ctx, f, inline=inline_same_module(), merge=False, exc="explicit"):
        conds = list(o.st.conds)
        known = False
        for k, (c, b) in enumerate(conds):
            # the conditions are listed in evaluation order
            if c[0] == "isinstance" and c[1] == x and c[2] == ("class", QT):
                known = b
                continue
            if not known and reads_quant(c, x):
                bad.append("reads quantization attributes of an argument that may not be quantized")
        if not known and o.kind == "return" and reads_quant(o.val, x):
            bad.append("reads quantization attributes of an argument that may not be quantized")
        if not known and any(e.kind == "call" and e.obj is not None and reads_quant(e.obj, x) for e in o.st.events):
            bad.append("uses an argument as a quantized tensor before checking that it is one")
    return bad


def reads_quant(t, x):
    return any(y[0] == "attr" and y[1] == x and y[2] in ("quantization_context", "_quantization_context", "quant_func", "raw_data", "quant_args") for y in walk(t))


def results(ctx, r):
    """(state, data, context) of every quantized tensor a kernel returns; other results as (state, value, None)."""
    f = r.f
    first = f.all_params()[0]
    args = {first: IN} if not first.startswith("*") else {}
    outs = []
    for o in run(ctx, f, inline=inline_same_module("fastforward.quantized_tensor", deny=("with_changes",)), args=args, models=flag_models(ctx.p), types={IN: QT}, loop_iters=(0, 1)):
        if o.kind != "return" or o.st.holds(("cmp", "is", IN, NONE)) is True:
            continue
        v = norm(o.val)
        vs = [v]
        if v[0] == "call" and not rewrap(v):
            vs = [x for x in walk(v) if x[0] == "call" and len(x) == 4 and rewrap(x)] or [v]
        elif v[0] in ("tuple", "list"):
            vs = [x for x in v[1:]]
        outs.append((o, vs))
    return outs


def rewrap(v):
    if v[0] == "call" and len(v) == 4:
        if v[1] == ("class", QT):
            return arg(v, 0, "data"), arg(v, 1, "quantization_context")
        if v[1][0] == "attr" and v[1][2] == "attach" and v[2]:
            return v[2][0], v[1][1]
    return None


def raw_use(p, f, seen=None):
    """Whether a function or a helper it uses touches the representation of a quantized tensor."""
    seen = seen if seen is not None else set()
    if f.qual in seen or len(seen) > 40:
        return False
    seen.add(f.qual)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in ("raw_data", "quantization_context", "_quantization_context", "attach", "as_subclass", "quant_args"):
            return True
        if isinstance(n, ast.Call):
            t = p.resolve_expr(f.module, n.func)
            g = p.funcs.get(t[-1]) if t is not None else None
            if g is not None and g.cls is None and g.module.name in (f.module.name, "fastforward.quantized_tensor") and raw_use(p, g, seen):
                return True
    return False


def raw_of(t):
    return is_raw(t, IN)


def one(ctx, r, table):
    p = ctx.p
    con = f"{short(r.f.qual)} for {r.op}"
    loc = r.f.loc
    tree = pred_fns(ctx, r.f.module, r.pred)
    acc = accept(ctx, tree)
    op = r.op.strip("_")
    # --- predicates are safe for any argument
    for f in fns(tree):
        bad = guarded(ctx, f)
        ctx.check("predicate-guards-type", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))
    # --- signatures accept what the dispatcher sends for operators of the table
    if r.op in table:
        for f in [r.f] + list(fns(tree)):
            names = {n.lstrip("*") for n in f.all_params()}
            kw = f.node.args.kwarg is not None
            missing = [n for n in table[r.op] if n not in names and not kw]
            pos = [n.arg for n in f.node.args.posonlyargs]
            ctx.check("signature-accepts-call", f"{short(f.qual)} for {r.op}", not missing and not pos, f.loc, f"does not accept {missing + pos} that the operator passes by keyword")
            # parameters that the operator sends under the same name must be the operator's
            mine = [a.arg for a in f.node.args.args]
            req = mine[: len(mine) - len(f.node.args.defaults)]
            ctx.check("signature-accepts-call", f"{short(f.qual)} required for {r.op}", all(n in table[r.op] for n in req), f.loc, f"requires {[n for n in req if n not in table[r.op]]} which the operator never passes")
        # --- a requested output quantizer is never ignored
        oq = False
        for o, vs in results(ctx, r):
            applied = all(any(x[0] == "call" and x[1] == ("param", "output_quantizer") for x in walk(v)) for v in vs) or o.st.holds(("cmp", "is", ("param", "output_quantizer"), NONE)) is True
            oq = applied
            if not applied:
                break
        if not oq:
            if acc is None:
                ctx.skip("output-quantizer-respected", con, "predicate not recognised")
            else:
                bad = [cs for cs in acc if not no_output_quantizer(cs)]
                ctx.check("output-quantizer-respected", con, not bad, loc, "the kernel is selected although an output quantizer is given, which it does not apply")
    if r.op == "cat":
        return
    if not raw_use(p, r.f):
        return  # composed of other operators; never touches the quantized representation
    if acc is not None and tree[0] != "true":
        bad = [cs for cs in acc if not any(b and c[0] in ("isinstance", "isinstance_any") and c[1] == IN and set(c[2:]) <= {("class", QT)} for c, b in cs)]
        ctx.check("kernel-input-quantized", con, not bad, loc, "the kernel is selected for a first argument that need not be a quantized tensor")
    # --- data and context of the results
    bad, und = [], []
    res = results(ctx, r)
    n = 0
    for o, vs in res:
        conds = frozenset((norm(c), b) for c, b in o.st.conds)
        for v in vs:
            w = rewrap(v)
            if w is None or None in w:
                if any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "dequantize" for x in walk(v)):
                    continue  # export mode or explicit dequantization
                if v[0] == "closure":
                    continue
                bad.append("the result is not a quantized tensor with a context")
                continue
            n += 1
            d, c = w
            why = data_ok(ctx, r, op, d, o.st)
            if why:
                bad.append(why)
            own = c == CTX
            if not own and not (c[0] == "call" and c[1] == ("attr", CTX, "with_changes")):
                bad.append("the result's context is not derived from the input's own")
                continue
            accs = acc if acc is not None else []
            if own:
                if op in LAYOUT:
                    continue
                for cs in accs:
                    cs = cs | conds
                    if not (is_inst(cs, ("attr", PAR, "granularity"), PT) or same_shape(cs)):
                        bad.append("the input's parameters are kept for a result of another shape although they may not be per-tensor")
                        break
                    if not same_shape(cs) and not (is_affine_fn(cs) or is_inst(cs, PAR, AFP)):
                        bad.append("the kernel accepts tensors of quantization functions it does not know")
                        break
            else:
                for cs in accs:
                    cs = cs | conds
                    if not (is_inst(cs, PAR, AFP) or is_affine_fn(cs)):
                        bad.append("affine parameters are changed although the input may be quantized by another function")
                        break
                bad += changes(ctx, r, op, c, d, conds, accs, o.st)
            if op in ORDERED:
                sc = ("attr", PAR, "scale")
                if not (mentions(d, sc) or any(mentions(x, sc) for x, _ in conds) or any(any(mentions(x, sc) for x, _ in cs) for cs in accs)):
                    bad.append("the order of the raw data is used although a negative scale reverses it")
    if acc is None:
        ctx.skip("kernel-represents-operator", con, "predicate not recognised")
    ctx.check("kernel-represents-operator", con, not bad, loc, "; ".join(sorted(set(bad))))


def fns(tree):
    if tree[0] == "fn":
        yield tree[1]
    for x in tree[1:]:
        if isinstance(x, tuple):
            yield from fns(x)


def no_output_quantizer(cs):
    oq = ("param", "output_quantizer")
    for c, b in cs:
        if b and c == ("cmp", "is", oq, NONE):
            return True
        if b and c[0] == "isinstance" and c[1] == oq and c[2][0] == "class" and c[2][1].endswith("QuantizerStub"):
            return True
        if not b and c == oq:
            return True
    return False


def data_ok(ctx, r, op, d, st):
    """The raw data of the result is the registered operator applied to the raw data with all arguments."""
    f = r.f
    if op == "mul":
        if d[0] == "call" and d[1][0] == "attr" and d[1][2] == "apply" and raw_of(d[2][0]) or raw_of(d):
            return None
        return "scalar multiplication changes the raw data"
    if d[0] == "item" and raw_of(d[1]):
        name, rest = "getitem", (d[2],)
    else:
        while d[0] == "item" and d[1][0] == "call":
            d = d[1]
        if d[0] != "call":
            return "the raw data is not passed through the operator"
        if d[1][0] == "attr" and raw_of(d[1][1]):
            name, rest = d[1][2].strip("_"), (d[2], d[3])
        elif ref_name(d[1]).startswith("ext:torch.") and d[2] and (raw_of(d[2][0])):
            name, rest = ref_name(d[1]).rsplit(".", 1)[-1], (d[2][1:], d[3])
        else:
            return "the operator is not applied to the input's raw data"
    if name != op and not (op in ("view", "reshape") and name in ("view", "reshape")):
        return f"{name} is computed for {op}"
    a = f.node.args
    names = [x.arg for x in a.args[1:] + a.kwonlyargs if not x.arg.startswith("_")] + ([a.vararg.arg] if a.vararg and not a.vararg.arg.startswith("_") else [])
    for n in names:
        if n in TABLE_EXTRA:
            continue
        if not mentions(rest, ("param", n)) and not any(mentions(c, ("param", n)) for c, _ in st.conds):
            return f"argument '{n}' is not passed on"
    return positions(d, f, op)


def positions(d, f, op):
    """Arguments passed by keyword go to the parameter of the same name."""
    if d[0] == "call":
        for k, v in d[3]:
            if v[0] == "param" and v[1] != k and any(v[1] == x.arg for x in f.node.args.args) and any(k == x.arg for x in f.node.args.args):
                return f"argument '{v[1]}' is passed as '{k}'"
    return None


def changes(ctx, r, op, c, d, conds, accs, st):
    kw = dict(c[3])
    bad = []
    S, O = ("attr", PAR, "scale"), ("attr", PAR, "offset")
    extra = set(kw) - {"scale", "offset", "granularity"}
    if extra:
        bad.append(f"unexpected parameters change: {sorted(extra)}")
    if op == "mul":
        other = next((x for x in r.f.params()[1:] if not x.startswith("_")), "other")
        s = kw.get("scale")
        if s is None or not (s[0] == "bin" and s[1] == "*" and set(s[2:4]) == {S, ("param", other)} or s[0] == "call" and mentions(s, S) and mentions(s, ("param", other)) and ref_name(s[1]).rsplit(".", 1)[-1] == "mul"):
            bad.append("the scale is not multiplied by the scalar")
        if set(kw) - {"scale"}:
            bad.append("multiplication by a scalar changes more than the scale")
        for cs in accs:
            if not any(b and x[0] in ("isinstance", "isinstance_any") and x[1] == ("param", other) and all(t in SCALAR for t in x[2:]) for x, b in cs):
                bad.append("the kernel is selected for factors that are not scalars")
                break
        return bad
    s, o, g = kw.get("scale"), kw.get("offset"), kw.get("granularity")
    if s is not None:
        if not mentions(s, S):
            bad.append("the new scale is not derived from the input's scale")
        if o is None or o == NONE:
            if st.holds(("cmp", "is", O, NONE)) is not True and not any(b and x == ("cmp", "is", O, NONE) for x, b in conds):
                bad.append("the offset is not transformed together with the scale")
        elif subst(s, S, O) != o and skeleton(subst(s, S, O)) != skeleton(o):
            bad.append("scale and offset are transformed differently")
    elif o is not None:
        bad.append("the offset changes without the scale")
    if g is None:
        bad.append("the granularity is kept although the shape changes")
    else:
        gcls = g[1][1] if g[0] == "call" and g[1][0] == "class" else None
        was = [x[2][1] for x, b in conds if b and x[0] == "isinstance" and x[1] == ("attr", PAR, "granularity") and x[2][0] == "class"]
        if not was:
            was = [x[2][1] for cs in accs for x, b in cs if b and x[0] == "isinstance" and x[1] == ("attr", PAR, "granularity") and x[2][0] == "class"]
        if gcls and was and gcls != was[0]:
            bad.append("the kind of granularity changes")
    if op == "unsqueeze" and g is not None:
        bad += unsqueeze(ctx, r, g, st)
    if op == "getitem" and s is not None:
        idx = next((x for x in r.f.params()[1:]), None)
        if not (mentions(s, ("param", idx)) or flows(s, ("param", idx), st) or any(mentions(x, ("param", idx)) for x, _ in st.conds)):
            bad.append("the parameters are not indexed along with the data")
    return bad


def linear(t, ndim):
    """a*ndim + c of a term, or None."""
    if t[0] == "const" and isinstance(t[2], int):
        return 0, t[2]
    if t in ndim:
        return 1, 0
    if t[0] == "bin" and t[1] in ("+", "-"):
        l, r = linear(t[2], ndim), linear(t[3], ndim)
        if l is None or r is None:
            return None
        k = 1 if t[1] == "+" else -1
        return l[0] + k * r[0], l[1] + k * r[1]
    return None


def indexing(ctx, r):
    """Indexing that changes per-channel parameters: run on a tuple of unknown indices, the
    parameters are indexed by the same index in channel dimensions and unchanged elsewhere; None and
    Ellipsis keep the correspondence of positions."""
    f = r.f
    if f.node.args.vararg is not None:
        return
    ps = f.all_params()
    if len(ps) != 2:
        return
    S = ("attr", PAR, "scale")
    ELL = (("builtin", "Ellipsis"), ("const", "ellipsis", "..."))
    ndim = {("attr", ("attr", IN, "raw_data"), "ndim"), ("attr", IN, "ndim"), ("call", ("builtin", "len"), (("attr", ("attr", IN, "raw_data"), "shape"),), ()), ("call", ("attr", ("attr", IN, "raw_data"), "dim"), (), ())}
    FULL = ("call", ("builtin", "slice"), (NONE, NONE, NONE), ())
    FULLS = (FULL, ("slice", NONE, NONE, NONE), ("call", ("builtin", "slice"), (NONE,), ()))
    bad, n, und = [], 0, 0
    for k in (1, 2, 3):
        ss = [("param", f"@s{i}") for i in range(k)]
        try:
            outs = run(ctx, f, inline=inline_same_module("fastforward.quantized_tensor", deny=("with_changes",)), args={ps[0]: IN, ps[1]: ("tuple",) + tuple(ss)}, types={IN: QT}, merge=False)
        except AnalysisBroken:
            if k == 1:
                raise
            break  # too many traces for this many indices
        for o in outs:
            w = rewrap(norm(o.val)) if o.kind == "return" else None
            if w is None or w[1][0] != "call":
                continue
            sc = dict(w[1][3]).get("scale")
            idx = None
            for x in walk(sc) if sc is not None else ():
                if x[0] == "item":
                    idx = x[2]
                    break
            if idx is None:
                continue
            E = list(idx[1:]) if idx[0] in ("tuple", "list") else contents(idx, o.st)
            if len(E) != k or any(x[0] in ("star", "comp") for x in E):
                und += 1
                continue
            conds = [(norm(c), b) for c, b in o.st.conds]

            def kind(s):
                ell = next((b for c, b in conds if c[0] == "cmp" and c[1] in ("==", "is") and s in c[2:] and any(e in c[2:] for e in ELL)), None)
                non = next((b for c, b in conds if c == ("cmp", "is", s, NONE)), None)
                return "none" if non else "ell" if ell else "idx"
            kinds = [kind(s) for s in ss]
            if kinds.count("ell") > 1:
                continue  # not a valid index
            if any(True for s in ss for c, b in conds if c == ("cmp", "is", s, NONE) and b and any(c2[0] == "cmp" and c2[1] == "==" and s in c2[2:] and any(e in c2[2:] for e in ELL) and b2 for c2, b2 in conds)):
                continue  # None and Ellipsis at once
            member = {}
            for c, b in conds:
                if c[0] == "cmp" and c[1] == "in" and mentions(c[3], ("attr", ("attr", PAR, "granularity"), "channel_dims")):
                    q = linear(c[2], ndim)
                    if q is not None:
                        member[q] = b
            pos = (0, 0)
            for i, kd in enumerate(kinds):
                if kd == "none":
                    if E[i] not in (ss[i], NONE):
                        bad.append("a new axis of the data is not inserted into the parameters")
                    continue
                if kd == "ell":
                    if E[i] not in (ss[i],) + ELL:
                        bad.append("an ellipsis is not passed on to the parameters")
                    pos = (1, -kinds[i + 1:].count("idx"))
                    continue
                n += 1
                m = member.get(pos)
                if m is None:
                    if member:
                        bad.append("an index is matched with another dimension than the one it applies to")
                    else:
                        und += 1
                elif m and E[i] != ss[i]:
                    bad.append("a channel dimension's parameters are not indexed like the data")
                elif not m and E[i] not in FULLS + (const(0),):
                    bad.append("parameters are indexed along a dimension that is not a channel")
                elif not m and E[i] == const(0) and not any(b and c[0] in ("isinstance", "isinstance_any") and c[1] == ss[i] for c, b in conds):
                    bad.append("a dimension of the parameters is dropped for an index that keeps it")
                elif not m and E[i] in FULLS and any(b and c == ("isinstance", ss[i], ("builtin", "int")) for c, b in conds):
                    bad.append("a dimension of the parameters is kept for an index that drops it")
                pos = (pos[0], pos[1] + 1)
    if not n and not und:
        return
    if und and not n:
        ctx.skip("index-follows-channels", short(f.qual), "indexing scheme not recognised")
        return
    ctx.check("index-follows-channels", short(f.qual), not bad, f.loc, "; ".join(sorted(set(bad))))


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def skeleton(t):
    """Structure of a term without identities of containers."""
    if isinstance(t, tuple):
        if t and t[0] == "fresh":
            return ("fresh",)
        return tuple(skeleton(x) for x in t)
    return t


def unsqueeze(ctx, r, g, st):
    """Channel axes at or behind the new dimension move by one, the others stay; the tile gets a 1 at the new dimension."""
    cls = g[1][1] if g[0] == "call" and g[1][0] == "class" else ""
    bad = []
    if cls == PC:
        a = g[2][0] if g[2] else (dict(g[3]).get("channel_dim") or dict(g[3]).get("axis") or NONE)
        comp = next((x for x in walk(a) if x[0] == "comp"), None)
        if comp is None:
            ctx.skip("kernel-represents-operator", "unsqueeze axes", "axis computation not recognised")
            return bad
        e = comp[2]
        dim = ("param", r.f.params()[1])
        cmps = [x for x in walk(e) if x[0] == "cmp" and x[1] in ("<", "<=")] + [c for c, _ in st.conds if c[0] == "cmp" and c[1] in ("<", "<=") and mentions(c, dim) and contains(c, lambda x: x[0] == "elem")]
        if not cmps:
            bad.append("channel axes behind the new dimension do not move")
        for c in cmps:
            l, rr = c[2], c[3]
            axl = contains(l, lambda x: x[0] == "elem")
            # moved iff axis >= dim:  (dim <= axis) or not (axis < dim)
            if c[1] == "<=" and axl or c[1] == "<" and not axl:
                bad.append("the channel axis at the position of the new dimension is treated as lying before it")
            for side in (l, rr):
                if not (mentions(side, dim) or contains(side, lambda x: x[0] == "elem")):
                    continue
                if not contains(side, lambda x: x[0] == "bin" and x[1] == "%") and not contains(side, lambda x: x[0] == "bin" and x[1] == "+"):
                    bad.append("negative dimensions are compared without normalising them")
                if mentions(side, dim):
                    m = next((x for x in walk(side) if x[0] == "bin" and x[1] == "%"), None)
                    if m is not None and not contains(m[3], lambda x: x[0] == "bin" and x[1] == "+" and const(1) in x[2:]):
                        bad.append("the new dimension is normalised with the old number of dimensions")
    return bad


def cat(ctx, regs):
    """cat: accepted only when all tensors share one affine per-tensor parametrisation."""
    p = ctx.p
    for r in regs:
        if r.op != "cat":
            continue
        f = r.f
        T = ("param", f.params()[0])
        bad, n = [], 0
        for o in normals(run(ctx, f, inline=inline_same_module("fastforward.quantized_tensor", deny=("with_changes",)), models=flag_models(p), types={("item", T, const(0)): QT})):
            v = norm(o.val)
            w = rewrap(v)
            if w is None:
                if any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "dequantize" for x in walk(v)):
                    continue
                bad.append("the result is not quantized")
                continue
            n += 1
            d, c = w
            if not (c[0] == "attr" and c[2] == "_quantization_context" and c[1][0] in ("item", "elem") and c[1][1] == T):
                bad.append("the result's context is not that of the inputs")
            if not (d[0] == "call" and ref_name(d[1]) in ("ext:torch.cat", "ext:torch.concat", "ext:torch.concatenate")):
                bad.append("the raw data is not concatenated")
                continue
            dim = arg(d, 1, "dim")
            if dim != ("param", "dim"):
                bad.append("the requested dimension is not used")
            comps = [x for x in walk(d) if x[0] == "comp"]
            els = contents(d[2][0], o.st)
            if not els or any(not is_raw(e, ("elem", T)) for e in els) or any(fl for x in comps for _, fl in x[3]):
                bad.append("not every tensor's raw data is concatenated in order")
        ctx.check("kernel-represents-operator", f"{short(f.qual)} for cat", not bad and n, f.loc, "; ".join(sorted(set(bad))) or "no result found")
        # the predicate over two and three tensors
        for fn in fns(pred_fns(ctx, f.module, r.pred)):
            bad, n = [], 0
            first = fn.params()[0]
            for k in (2, 3):
                ts = [("param", f"@t{i}") for i in range(k)]
                outs = run(ctx, fn, inline=inline_same_module("fastforward.quantized_tensor"), args={first: ("list",) + tuple(ts)}, types={t: QT for t in ts}, merge=False, loop_iters=(0, 1, 2, 3), keep=lambda e: False)
                for o in outs:
                    if o.kind != "return":
                        continue
                    base = {(norm(c), b) for c, b in o.st.conds}
                    for extra in split(norm(o.val), True):
                        if any((c, not b) in base for c, b in extra):
                            continue
                        if any(b and c[0] == "cmp" and c[1] == "is" and NONE in c[2:] and any(x[0] == "attr" and x[2] == "scale" for x in c[2:]) for c, b in base | extra):
                            continue  # a scale is never None
                        n += 1
                        bad += cat_accept(base | extra, ts)
            if not n:
                bad.append("never accepts")
            ctx.check("cat-inputs-share-parameters", short(fn.qual), not bad, fn.loc, "; ".join(sorted(set(bad))))


def cat_accept(cs, ts):
    par = [("attr", ("attr", t, "_quantization_context"), "quantization_params") for t in ts]
    bad = []
    for t, q in zip(ts, par):
        fn = ("attr", ("attr", t, "_quantization_context"), "quantization_fn")
        if not is_inst(cs, t, QT):
            bad.append("a tensor that is not quantized is accepted")
        if not (is_inst(cs, q, AFP) or any(b and c[0] == "call" and c[1] == ("builtin", "issubclass") and c[2][0] == fn for c, b in cs)):
            bad.append("a tensor that is not affinely quantized is accepted")
        if not is_inst(cs, ("attr", q, "granularity"), PT):
            bad.append("a tensor that is not per-tensor quantized is accepted")

    def linked(attr):
        """Every tensor's attr is tied to the first one's by equality (or both are None)."""
        group = {0}
        grew = True
        xs = [("attr", q, attr) for q in par]
        none = {i: next((b for c, b in cs if c == ("cmp", "is", x, NONE)), None) for i, x in enumerate(xs)}
        while grew:
            grew = False
            for i in range(len(xs)):
                if i in group:
                    continue
                for j in group:
                    eq = any(b and c[0] == "cmp" and c[1] in ("==", "is") and set(c[2:4]) == {xs[i], xs[j]} for c, b in cs) or any(b and c[0] == "call" and ref_name(c[1]).rsplit(".", 1)[-1] == "equal" and {xs[i], xs[j]} <= set(walk(c)) for c, b in cs)
                    if eq or none[i] is True and none[j] is True:
                        group.add(i)
                        grew = True
                        break
        return len(group) == len(xs)

    if not linked("scale"):
        bad.append("tensors with different scales are accepted")
    if not linked("offset"):
        bad.append("tensors with different offsets are accepted")
    return bad


def gradient(ctx):
    """Autograd functions used by kernels on the raw data are identities whose gradient is the factor."""
    p = ctx.p
    used = set()
    for q, f in p.funcs.items():
        if f.module.name != "fastforward.quantization._linear_quantized_ops":
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "apply" and isinstance(n.func.value, ast.Name):
                t = p.resolve_expr(f.module, n.func.value)
                if t is not None and t[-1] in p.classes:
                    used.add(t[-1])
    for cq in sorted(used):
        fw, bw = p.find_method(cq, "forward"), p.find_method(cq, "backward")
        bad = []
        x, s = (("param", n) for n in fw.params()[1:3])
        saved = set()
        for o in normals(run(ctx, fw, inline=no_inline)):
            if o.val != x and not (o.val[0] == "call" and o.val[1][0] == "attr" and o.val[1][1] == x and o.val[1][2] in ("clone", "view_as", "alias")):
                bad.append("the forward pass changes the raw data")
            saved |= {k[1] for k, v in o.st.heap.items() if v == s}
        c, g = (("param", n) for n in bw.params()[:2])
        for o in normals(run(ctx, bw, inline=no_inline)):
            v = o.val
            if v[0] != "tuple" or len(v) != len(fw.params()):
                bad.append("the number of gradients differs from the number of inputs")
                continue
            m = v[1]
            fac = [("attr", c, a) for a in saved]
            if not (m[0] == "bin" and m[1] == "*" and g in m[2:] and any(a in m[2:] for a in fac)):
                bad.append("the gradient is not multiplied by the factor")
        ctx.check("kernel-gradient", short(cq), not bad, fw.loc, "; ".join(sorted(set(bad))))
