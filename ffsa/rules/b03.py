"""Quantized functional operators.  Every operator of the operator table (YAML) is compared
with its public entry point and its dequantizing fallback: all paths of both functions are
enumerated; on each path that reaches the wrapped torch function the strict-mode obligations
must have been established by the path's conditions, every quantized argument must have been
dequantized, every argument must be forwarded under its own name, and the output quantizer
must be applied to the result; refusing paths must be justified by strict mode."""
from __future__ import annotations

import ast
import os

import yaml

from .common import *

ASSUMPTIONS = ["the operator table (quantized_operators.yaml) states the intended operators", "Quantizer and torch callables are opaque"]
FB, OP = "fastforward._gen.fallback", "fastforward._gen.operators"
QT = ("class", "fastforward.quantized_tensor.QuantizedTensor")
TENSOR = ("ext", "torch.Tensor")
STRICT, OQ = ("param", "strict_quantization"), ("param", "output_quantizer")


def table(p):
    path = os.path.join(os.path.dirname(p.module("fastforward._quantops").path), "quantized_operators.yaml")
    if not os.path.exists(path):
        raise AnalysisBroken("operator table not found")
    out = {}
    for row in yaml.safe_load(open(path)):
        fn = ast.parse("def " + row["op"].strip() + ": pass").body[0]
        a = fn.args
        defs = dict(zip([x.arg for x in a.args[len(a.args) - len(a.defaults):]], a.defaults))
        out[fn.name] = dict(params=[(x.arg, kind(x.annotation), defs.get(x.arg)) for x in a.args], fallback=row.get("fallback"), quantized="Quantized" in ast.unparse(fn.returns))
    return out


def kind(a):
    """Set of facts about a parameter type: quantized / maybe / optional / scalar alternative / sequence."""
    k = set()

    def alt(x):
        if isinstance(x, ast.BinOp):
            alt(x.left), alt(x.right)
        elif isinstance(x, ast.Subscript):
            n = ast.unparse(x.value)
            if n == "Optional":
                k.add("opt")
                alt(x.slice)
            elif n in ("Sequence", "List", "list", "tuple", "Tuple"):
                if "Quantized" in ast.unparse(x.slice):
                    k.add("seq")
                    alt(x.slice)
                else:
                    k.add("other")
            else:
                k.add("other")
        else:
            n = ast.unparse(x)
            k.add({"Quantized": "q", "MaybeQuantized": "maybe", "Tensor": "tensor", "None": "opt"}.get(n, "other"))

    alt(a)
    return k


def check(ctx):
    p = ctx.p
    ops = table(p)
    models = flag_models(p)
    for name, spec in ops.items():
        f = p.funcs.get(f"{FB}.{name}")
        if f is None:
            ctx.check("fallback-exists", name, False, FB, "operator of the table has no fallback implementation")
        else:
            ctx.analysed.add(f.qual)
            fallback(ctx, name, spec, f)
        g = p.funcs.get(f"{OP}.{name}")
        if g is None:
            ctx.check("operator-exists", name, False, OP, "operator of the table has no public entry point")
        else:
            ctx.analysed.add(g.qual)
            entry(ctx, name, spec, g, models)
        for h, what in ((f, "fallback"), (g, "operator")):
            if h is not None:
                signature(ctx, name, spec, h, what)
    for mod in (FB, OP):
        m = p.module(mod)
        exported = next((ast.literal_eval(s.value) for s in m.tree.body if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "__all__"), [])
        missing = [n for n in ops if n not in exported]
        ctx.check("operators-exported", short(mod), not missing, m.rel, f"{missing} not exported")
    stubs(ctx, ops)
    for r in ("strict-contract", "fallback-forwards", "entry-dispatches"):
        ctx.floor(r, 50)


def isq(st, t):
    v = st.holds(("isinstance", t, QT))
    if v is None:
        for c, b in st.conds:
            if c[0] == "isinstance" and c[1] == t and b and c[2] == QT:
                return True
        if st.holds(("cmp", "is", t, NONE)) is True or st.holds(("isinstance", t, TENSOR)) is False:
            return False
    return v


def is_deq(v, t):
    return v[0] == "call" and v[1][0] in ("attr", "bound") and ref_name(v[1]).endswith("dequantize") and (v[1][1] == t or v[1][-1] == t)


def fallback(ctx, name, spec, f):
    bad, fwd = [], []
    try:
        outs = run(ctx, f, inline=inline_pkg(FB, "fastforward._quantops"), merge=False, cap=20000)
    except Budget:
        ctx.skip("strict-contract", name, "too many paths")
        return
    ret = 0
    for o in outs:
        st = o.st
        strict = st.truth_of(STRICT) if hasattr(st, "truth_of") else st.holds(STRICT)
        noq = st.holds(("cmp", "is", OQ, NONE))
        if noq is None and st.holds(OQ) is not None:
            noq = not st.holds(OQ)
        if o.kind == "raise":
            if not (o.val[0] == "call" and ref_name(o.val[1]).endswith("QuantizationError")):
                bad.append("a violation of strict mode is not reported as QuantizationError")
            elif strict is not True:
                bad.append("the operator is refused although strict quantization is off")
            elif not justified(st, spec, noq):
                bad.append("the operator is refused in strict mode although all required arguments are quantized")
            continue
        ret += 1
        if strict is not False:
            if spec["quantized"] and noq is not False:
                bad.append("strict mode accepts a call without output quantizer")
            for pn, k, _ in spec["params"]:
                if "q" not in k:
                    continue
                t = ("param", pn)
                if "seq" in k:
                    el = ("elem", t)
                    some = [c for c, b in st.conds if mentions(c, t) and c[0] == "call"]
                    if st.holds(("nonempty", t)) is False or some:
                        continue
                    if isq(st, el) is not True:
                        bad.append(f"strict mode accepts an unquantized element of '{pn}'")
                    continue
                if "opt" in k and (st.holds(("cmp", "is", t, NONE)) is True or st.holds(t) is False):
                    continue
                if "other" in k and st.holds(("isinstance", t, TENSOR)) is False:
                    continue
                if isq(st, t) is not True:
                    bad.append(f"strict mode accepts an unquantized '{pn}'")
        v = o.val
        applied = False
        if v[0] == "call" and v[1] == OQ:
            applied = True
            if len(v[2]) != 1 or v[3]:
                fwd.append("the output quantizer is not applied to the result")
            v = v[2][0] if v[2] else v
        if applied and noq is True:
            fwd.append("a missing output quantizer is called")
        if not applied and noq is not True and spec["quantized"]:
            fwd.append("the output quantizer is not applied to the result")
        want = spec["fallback"]
        if not (v[0] == "call" and ref_name(v[1]) in (f"ext:{want}", want)):
            fwd.append(f"{fmt(v[1])[:50] if v[0] == 'call' else fmt(v)[:50]} is computed instead of {want}")
            continue
        got = dict(v[3])
        for (pn, _, _), a in zip(spec["params"], v[2]):
            got.setdefault(pn, a)
        for pn, k, _ in spec["params"]:
            t = ("param", pn)
            if pn not in got:
                fwd.append(f"'{pn}' is not passed on")
                continue
            a = got.pop(pn)
            qk = k & {"q", "maybe"}
            if not qk:
                if a != t:
                    fwd.append(f"'{pn}' is passed on changed")
                continue
            if "seq" in k:
                els = contents(a, st)
                el = ("elem", t)
                if st.holds(("nonempty", t)) is False:
                    continue
                if isq(st, el) is True and not (els and all(is_deq(x, el) for x in els)):
                    fwd.append(f"elements of '{pn}' are not dequantized")
                elif isq(st, el) is False and els != [el]:
                    fwd.append(f"elements of '{pn}' are passed on changed")
                elif isq(st, el) is None and els == [el]:
                    fwd.append(f"elements of '{pn}' are not dequantized")
                continue
            if is_deq(a, t):
                if isq(st, t) is not True:
                    fwd.append(f"'{pn}' is dequantized without being quantized")
            elif a == t:
                if isq(st, t) is not False and st.holds(("cmp", "is", t, NONE)) is not True and st.holds(("isinstance", t, TENSOR)) is not False and st.holds(t) is not False:
                    fwd.append(f"a quantized '{pn}' is not dequantized")
            elif a == NONE and (st.holds(("cmp", "is", t, NONE)) is True or st.holds(t) is False):
                pass
            else:
                fwd.append(f"'{pn}' is passed on as {fmt(a)[:40]}")
        if got:
            fwd.append(f"extra arguments {sorted(got)} are passed on")
    if not ret:
        bad.append("the operator never computes")
    ctx.check("strict-contract", name, not bad, f.loc, "; ".join(sorted(set(bad))))
    ctx.check("fallback-forwards", name, not fwd, f.loc, "; ".join(sorted(set(fwd))))


def justified(st, spec, noq):
    if noq is True and spec["quantized"]:
        return True
    for pn, k, _ in spec["params"]:
        if "q" not in k:
            continue
        t = ("param", pn)
        if "seq" in k:
            if isq(st, ("elem", t)) is False or any(mentions(c, t) for c, b in st.conds if c[0] == "call"):
                return True
            continue
        if st.holds(("cmp", "is", t, NONE)) is True and "opt" in k:
            continue
        if "other" in k and st.holds(("isinstance", t, TENSOR)) is not True:
            continue
        if isq(st, t) is False:
            return True
    return False


def entry(ctx, name, spec, f, models):
    bad = []
    FLAG = ("attr", ("flag", "strict_quantization"), "value")
    fbq = f"{FB}.{name}"
    disp = kern = fall = 0
    for o in run(ctx, f, inline=inline_pkg(OP), models=models, merge=False):
        if o.kind == "raise":
            bad.append("the entry point raises itself")
            continue
        st, v = o.st, o.val
        given = st.holds(("cmp", "is", STRICT, NONE))
        strict = FLAG if given is True else STRICT
        if given is None and not (v[0] == "call" and any(mentions(x, FLAG) for _, x in v[3])):
            bad.append("the global strict mode is not consulted when no explicit mode is given")
        want = {pn: ("param", pn) for pn, _, _ in spec["params"]}
        want["strict_quantization"] = strict
        if spec["quantized"]:
            want["output_quantizer"] = OQ
        ds = [e for e in events(o, "call") if e.name.endswith("dispatcher.dispatch")]
        if len(ds) != 1:
            bad.append("the dispatcher is not asked exactly once")
            continue
        d = ds[0]
        disp += 1
        nm = evarg(d, 0, "op_name")
        if nm != const(name):
            bad.append(f"the dispatcher is asked for {fmt(nm)} instead of '{name}'")
        got = {k: x for k, x in d.kwargs if k != "op_name"}
        if len(d.args) > 1 or diff(got, want):
            bad.append(f"the dispatcher does not see argument(s) {diff(got, want) or 'by name'} unchanged")
        hit = st.holds(d.value)
        if hit is None and st.holds(("cmp", "is", d.value, NONE)) is not None:
            hit = not st.holds(("cmp", "is", d.value, NONE))
        if v[0] != "call":
            bad.append("no operator result is returned")
            continue
        if v[1] == d.value:
            kern += 1
            if hit is False:
                bad.append("a missing kernel is called")
        elif v[1] == ("func", fbq):
            fall += 1
            if hit is not False:
                bad.append("the fallback is used although a kernel matches")
        else:
            bad.append(f"{fmt(v[1])[:50]} is called instead of the kernel or the operator's own fallback")
            continue
        got = dict(v[3])
        if v[2] or diff(got, want):
            bad.append(f"the implementation does not get argument(s) {diff(got, want)} unchanged")
    if not kern or not fall:
        bad.append("kernel or fallback case missing")
    ctx.check("entry-dispatches", name, not bad, f.loc, "; ".join(sorted(set(bad))))


def diff(got, want):
    return sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))


def norm_default(d):
    if d is None:
        return None
    try:
        v = ast.literal_eval(d)
        return ("lit", type(v) is bool, v)
    except Exception:
        return ("src", ast.unparse(d))


def signature(ctx, name, spec, f, what):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    bad = []
    want = [pn for pn, _, _ in spec["params"]]
    if pos[: len(want)] != want:
        bad.append(f"parameters are {pos}, the operator table has {want}")
    for pn, _, d in spec["params"]:
        g, w = norm_default(defs.get(pn)), norm_default(d)
        if (g is None) != (w is None):
            bad.append(f"'{pn}' {'has a' if g else 'lacks the'} default")
        elif g != w and not (w[0] == "lit" and g[0] == "lit" and g[2] == w[2]) and w[1] is not Ellipsis and w != ("lit", False, Ellipsis):
            bad.append(f"default of '{pn}' is {ast.unparse(defs[pn])}, the operator table has {ast.unparse(d)}")
    kwd = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)}
    kwd.update({k: v for k, v in defs.items() if k not in want})
    sd = norm_default(kwd.get("strict_quantization"))
    if spec["quantized"] and norm_default(kwd.get("output_quantizer")) != ("lit", False, None):
        bad.append("output_quantizer is not optional")
    if what == "operator" and sd != ("lit", False, None):
        bad.append("an explicit strict mode is required or preset")
    if what == "fallback" and sd is not None and sd[2] is not True:
        bad.append("the fallback is not strict by default")
    ctx.check(f"{what}-signature", name, not bad, f.loc, "; ".join(bad))


def stubs(ctx, ops):
    """Defaults in the operator table agree with the type stubs of the installed torch."""
    base = None
    for root in ("/opt/venv/lib/python3.12/site-packages/torch",):
        if os.path.exists(os.path.join(root, "nn/functional.pyi")):
            base = root
    if base is None:
        ctx.skip("torch-defaults", "torch stubs", "not installed")
        return
    sigs = {}
    for fn, pre in (("nn/functional.py", "torch.nn.functional."), ("nn/functional.pyi", "torch.nn.functional."), ("_C/_VariableFunctions.pyi", "torch.")):
        try:
            t = ast.parse(open(os.path.join(base, fn)).read())
        except (OSError, SyntaxError):
            continue
        done = set(sigs)
        for n in t.body:
            if isinstance(n, ast.FunctionDef) and pre + n.name not in done:
                sigs.setdefault(pre + n.name, []).append(n)
    for name, spec in ops.items():
        cands = [s for s in sigs.get(spec["fallback"], ())]
        cands = [s for s in cands if {x for x, _, _ in spec["params"]} <= {x.arg for x in s.args.posonlyargs + s.args.args + s.args.kwonlyargs}]
        if not cands:
            continue
        best, bad = None, []
        for s in cands:
            a = s.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            defs = {**dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)), **{x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}}
            b = []
            for pn, _, d in spec["params"]:
                w = norm_default(defs.get(pn))
                g = norm_default(d)
                if w and g and w[0] == g[0] == "lit" and w[2] is not Ellipsis and g[2] is not Ellipsis and g[2] is not None and w[2] is not None and w[2] != g[2] and not same_tuple(w[2], g[2]):
                    b.append(f"default of '{pn}' is {g[2]!r}, torch uses {w[2]!r}")
            if best is None or len(b) < len(best):
                best = b
        ctx.check("torch-defaults", name, not best, "quantized_operators.yaml", "; ".join(best))


def same_tuple(a, b):
    f = lambda x: set(x) if isinstance(x, tuple) else {x}
    return f(a) == f(b)
