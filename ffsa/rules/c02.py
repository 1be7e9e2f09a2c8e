"""Ranges and parameters.  The range functions are interpreted path by path; the scale and offset of
every path are brought into a canonical algebraic form and compared with the affine relation between
range and parameters, for symmetric, one-sided and asymmetric quantization.  The range setter and
getter, the symmetric flag and the range operator of the quantizer are decided on their paths."""
from __future__ import annotations

from fractions import Fraction
from itertools import product

from .. import algebra as A
from .c01 import Bad, P, differs
from .common import *

ASSUMPTIONS = ["equality of formulas is over the reals; torch elementwise functions have their documented meaning"]
R = "fastforward.quantization.affine.range."
LQ = "fastforward.nn.linear_quantizer.LinearQuantizer"
SELF = ("param", "self")
B = ("param", "num_bits")


def check(ctx):
    integers(ctx)
    range_of_parameters(ctx)
    parameters(ctx)
    setter(ctx)
    getter(ctx)
    symmetric_flag(ctx)
    operator(ctx)


def bits(b=B):
    return A.atom(("leaf", (), b))


def grid(b=B):
    p = A.power(A.num(2), A.sub(bits(b), A.ONE))
    return A.scale(p, Fraction(-1)), A.sub(p, A.ONE)


class Vals:
    """Canonical values: conversions are transparent, |max integer| is the max integer."""

    def __init__(self, inner=None, b=B):
        self.inner, self.hi = inner, grid(b)[1]

    def alg(self):
        a = A.Alg(strip=A.Alg.STRIP)

        def leaf(t, w):
            if self.inner is not None:
                r = self.inner(t, w)
                if r is not None:
                    return r
            if t[0] == "call":
                if ref_name(t[1]) in ("func:fastforward.common.ensure_tensor", "func:fastforward.common.tensor_or_none") and t[2]:
                    return a.ev(t[2][0], w)
                n, xs, kw = a.op(t)
                if n in ("abs", "absolute") and len(xs) == 1 and a.ev(xs[0], w) in (self.hi, A.scale(self.hi, Fraction(-1))):
                    return self.hi
            if t[0] == "param":
                return A.atom(("leaf", (), t))
            return None

        a.leaf = leaf
        return a

    def __call__(self, t):
        return self.alg().ev(t)


def integers(ctx):
    rule = "range.integers"
    lo, hi = grid()
    for name, want in (("integer_minimum", lo), ("integer_maximum", hi)):
        f = ctx.func(R + name)
        for o in {o.val: o for o in normals(run(ctx, f))}.values():
            got = Vals()(o.val)
            ctx.check(rule, name, got == want, f.loc, differs(got, want))
    ctx.floor(rule, 2)


def range_of_parameters(ctx):
    rule = "range.of_parameters"
    f = ctx.func(R + "quantization_range")
    lo, hi = grid()
    s, off = A.atom(("leaf", (), ("param", "scale"))), A.atom(("leaf", (), ("param", "offset")))
    for o in normals(run(ctx, f, merge=False)):
        none = o.st.holds(("cmp", "is", ("param", "offset"), NONE))
        key = "without offset" if none else "with offset"
        if o.val[0] not in ("tuple", "list") or len(o.val) != 3:
            ctx.check(rule, key, False, f.loc, "does not return a minimum and a maximum")
            continue
        k = A.ZERO if none else off
        for i, (name, b) in enumerate((("minimum", lo), ("maximum", hi))):
            want = A.mul(A.add(b, k), s)
            got = Vals()(o.val[1 + i])
            ctx.check(rule, f"{name} {key}", got == want, f.loc, differs(got, want))
    ctx.floor(rule, 4)


# ------------------------------------------------------------------ parameters of a range
def base(t):
    """The range parameter a tensor is a converted copy of."""
    while True:
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in A.Alg.STRIP | {"reshape", "flatten", "view"}:
            t = t[1][1]
        elif t[0] == "call" and ref_name(t[1]) in ("func:fastforward.common.ensure_tensor", "ext:torch.as_tensor", "ext:torch.tensor") and t[2]:
            t = t[2][0]
        else:
            return t


def nonneg(c):
    """Polarity with which the condition states that every minimum is non-negative, else None."""
    if c[0] == "not":
        r = nonneg(c[1])
        return None if r is None else not r
    if c[0] == "call" and c[1] in (("builtin", "bool"),) and len(c[2]) == 1:
        return nonneg(c[2][0])
    if c[0] == "call" and c[1][0] == "attr" and c[1][2] in ("item",):
        return nonneg(c[1][1])
    if c[0] == "cmp" and c[1] in ("<", "<="):
        l, r = c[2], c[3]
        for x, zero, ge in ((r, l, True), (l, r, False)):
            if zero == const(0) or zero == const(0.0):
                n, a, kw = A.Alg().op(x) if x[0] == "call" else (None, [], {})
                if n == "item" and a:
                    x = a[0]
                    n, a, kw = A.Alg().op(x) if x[0] == "call" else (None, [], {})
                if n in ("min", "amin") and len(a) == 1 and base(a[0]) == ("param", "min_range"):
                    if ge:
                        return True if c[1] == "<=" else None
                    return False if c[1] == "<" else None
        return None
    if c[0] == "call":
        n, a, kw = A.Alg().op(c)
        if n == "all" and len(a) == 1 and a[0][0] == "cmp" and a[0][1] == "<=" and a[0][2] in (const(0), const(0.0)) and base(a[0][3]) == ("param", "min_range"):
            return True
        if n == "all" and len(a) == 1 and a[0][0] == "call":
            m, b, _ = A.Alg().op(a[0])
            if m in ("ge", "greater_equal") and b[1] in (const(0), const(0.0)) and base(b[0]) == ("param", "min_range"):
                return True
        if n == "any" and len(a) == 1 and a[0][0] == "cmp" and a[0][1] == "<" and a[0][3] in (const(0), const(0.0)) and base(a[0][2]) == ("param", "min_range"):
            return False
    return None


def parameters(ctx):
    rule = "range.parameters"
    f = ctx.func(R + "parameters_for_range")
    V = Vals()
    lo, hi = grid()
    mn, mx = (A.atom(("leaf", (), ("param", n))) for n in ("min_range", "max_range"))
    steps = A.sub(A.power(A.num(2), bits()), A.ONE)
    outs = normals(run(ctx, f, merge=False, functional=True))
    bad, seen, decided = {}, set(), set()
    for o in outs:
        facts = {"sym": o.st.holds(("param", "symmetric")), "allow": o.st.holds(("param", "allow_one_sided")), "nonneg": None}
        for c, b in o.st.conds:
            r = nonneg(c)
            if r is not None:
                facts["nonneg"] = r == b
        known = {k: [v] if v is not None else [True, False] for k, v in facts.items()}
        if o.val[0] not in ("tuple", "list") or len(o.val) != 3:
            ctx.check(rule, "result", False, f.loc, "does not return scale and offset")
            continue
        sc, off = o.val[1], o.val[2]
        for sym, allow, nn in product(known["sym"], known["allow"], known["nonneg"]):
            one = allow and nn
            case = "symmetric" if sym and not one else "one-sided" if sym else "asymmetric"
            decided.add(case)
            got = V(sc)
            a = sole(got)
            if a is None or a[0] != "clamp" or a[3] is not None or a[2] is None or not eps(a[2]):
                bad.setdefault((case, "scale"), "the scale is not bounded away from zero")
                inner = got
            else:
                inner = a[1]
            if case == "symmetric":
                ab = lambda x: A.atom(("abs", max(x, A.scale(x, Fraction(-1)), key=repr)))
                want = A.atom(("max", tuple(sorted((A.mul(ab(mn), A.inv(A.scale(lo, Fraction(-1)))), A.mul(ab(mx), A.inv(hi))), key=repr))))
                if inner != want:
                    bad.setdefault((case, "scale"), differs(inner, want))
                if off != NONE and V(off) != A.ZERO:
                    bad.setdefault((case, "offset"), "symmetric quantization has an offset")
                continue
            low = A.ZERO if case == "one-sided" else mn
            want = A.mul(A.sub(mx, low), A.inv(steps))
            if inner != want:
                bad.setdefault((case, "scale"), differs(inner, want))
            if off == NONE:
                bad.setdefault((case, "offset"), "there is no offset")
                continue
            want = A.sub(A.mul(low, A.inv(got)), lo)
            if V(off) != want:
                bad.setdefault((case, "offset"), differs(V(off), want))
    for case in ("symmetric", "one-sided", "asymmetric"):
        for part in ("scale", "offset"):
            if case in decided:
                m = bad.get((case, part))
                ctx.check(rule, f"{part} of {case} quantization", m is None, f.loc, m or "")
    ctx.floor(rule, 6)


def sole(p):
    if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1 and p[0][0][0][1] == 1:
        return p[0][0][0][0]
    return None


def eps(p):
    k = A.const_of(p)
    if k is not None:
        return k > 0
    a = sole(p)
    return a is not None and a[0] == "leaf" and a[2][0] == "attr" and a[2][2] in ("eps", "tiny", "smallest_normal", "resolution")


# ------------------------------------------------------------------ quantizer
PFR = {"func:" + R + "parameters_for_range"}


def pick(t):
    """(index, range term) for a component of the range tuple handed to the setter."""
    while t[0] == "call" and ref_name(t[1]) in ("func:fastforward.common.ensure_tensor", "ext:torch.as_tensor") and t[2]:
        t = t[2][0]
    if t[0] in ("item", "idx") and t[1][0] == "comp" and t[2][0] == "const":
        c = t[1]
        ok = len(c[3]) == 1 and not c[3][0][1]
        e = c[2]
        while e[0] == "call" and e[2] and ref_name(e[1]) in ("func:fastforward.common.ensure_tensor", "ext:torch.as_tensor"):
            e = e[2][0]
        return (t[2][2], c[3][0][0]) if ok and e == ("elem", c[3][0][0]) else None
    if t[0] == "item" and t[2][0] == "const":
        return t[2][2], t[1]
    return None


def pfr_call(c, lo_ok, hi_ok):
    """Problem with a call computing parameters for a range, or None."""
    names = ("min_range", "max_range", "num_bits", "symmetric", "allow_one_sided")
    vals = {n: arg(c, i, n) for i, n in enumerate(names)}
    if vals["min_range"] is None or not lo_ok(vals["min_range"]):
        return "the minimum of the range is not used as the minimum"
    if vals["max_range"] is None or not hi_ok(vals["max_range"]):
        return "the maximum of the range is not used as the maximum"
    for n in names[2:]:
        if vals[n] != ("attr", SELF, n):
            return f"{n} of the quantizer is not used"
    return None


def unwrap_inplace(t):
    """Value written by an in-place update."""
    a = A.Alg()
    while t[0] == "call":
        n, xs, kw = a.op(t)
        if n in ("copy", "fill") and len(xs) == 2:
            t = xs[1]
        elif n in A.Alg.STRIP | {"reshape", "view", "expand_as", "view_as"} and xs and t[1][0] == "attr":
            t = xs[0]
        elif n in ("zero", "zeros_like"):
            return const(0.0)
        elif n in ("Parameter",) and xs:
            t = xs[0]
        else:
            break
    return t


def keep_property(*names):
    def pol(f, i):
        return f.module.name == i.entry.module.name and f.name not in names

    return pol


def setter(ctx):
    rule = "quantizer.range_setter"
    f = ctx.p.find_setter(LQ, "quantization_range")
    if f is None:
        raise AnalysisBroken("the quantization range of the linear quantizer has no setter")
    par = ("param", f.params()[1])
    outs = normals(run(ctx, f, inline=keep_property("symmetric", "has_uninitialized_params"), functional=True, merge=False))
    bad = {}
    n = 0
    lo_ok = lambda t: pick(t) == (0, par)
    hi_ok = lambda t: pick(t) == (1, par)
    for o in outs:
        n += 1
        sc = unwrap_inplace(o.st.heap.get((SELF, "scale"), NONE))
        if sc[0] != "item" or sc[2] != const(0) or ref_name(sc[1][1] if sc[1][0] == "call" else NONE) not in PFR:
            bad.setdefault("scale", "a path leaves the scale without the parameters of the range")
            continue
        c = sc[1]
        m = pfr_call(c, lo_ok, hi_ok)
        if m:
            bad.setdefault("parameters", m)
        none = next((b for k, b in o.st.conds if k[0] == "cmp" and k[1] == "is" and k[3] == NONE and origin(k[2]) == ("attr", SELF, "offset")), None)
        pnone = o.st.holds(("cmp", "is", ("item", c, const(1)), NONE))
        if none:
            continue
        off = o.st.heap.get((SELF, "offset"))
        off = unwrap_inplace(off) if off is not None else NONE
        if pnone:
            if A.Alg().ev(off) != A.ZERO:
                bad.setdefault("offset", "an existing offset is not reset when the range needs none")
        elif off != ("item", c, const(1)):
            bad.setdefault("offset", "the offset of the range is not stored")
    for part in ("scale", "parameters", "offset"):
        ctx.check(rule, part, n > 0 and part not in bad, f.loc, bad.get(part, "no path completes"))
    ctx.floor(rule, 3)


def origin(t):
    while t[0] == "call" and t[1][0] == "attr":
        t = t[1][1]
    return t


def getter(ctx):
    rule = "quantizer.range_getter"
    f = ctx.p.find_method(LQ, "quantization_range")
    lo, hi = grid(("attr", SELF, "num_bits"))
    V = Vals(b=("attr", SELF, "num_bits"))
    s, off = (A.atom(("leaf", (), ("attr", SELF, n))) for n in ("scale", "offset"))
    n, ok, why = 0, True, ""
    pol = lambda g, i: g.module.name in (i.entry.module.name, R[:-1]) and g.name != "has_uninitialized_params"
    for o in normals(run(ctx, f, inline=pol, merge=False)):
        if o.val in (("tuple", NONE, NONE),):
            un = next((b for k, b in o.st.conds if any(x[0] == "attr" and x[2] == "has_uninitialized_params" for x in walk(k))), None)
            if un is not True:
                ok, why = False, "an initialized quantizer reports no range"
            continue
        n += 1
        none = o.st.holds(("cmp", "is", ("attr", SELF, "offset"), NONE))
        if o.val[0] not in ("tuple", "list") or len(o.val) != 3 or none is None:
            ok, why = False, "does not return the range of the current parameters"
            continue
        k = A.ZERO if none else off
        for i, b in ((1, lo), (2, hi)):
            want = A.mul(A.add(b, k), s)
            got = V(o.val[i])
            if got != want:
                ok, why = False, differs(got, want)
    ctx.check(rule, "quantization range", ok and n > 0, f.loc, why or "never returns a range")
    ctx.floor(rule, 1)


def symmetric_flag(ctx):
    """The symmetric flag of the quantizer agrees with the flag it was constructed with."""
    rule = "quantizer.symmetric"
    init = ctx.p.find_method(LQ, "__init__")
    prop = ctx.p.find_method(LQ, "symmetric")
    states = {}  # (symmetric, allow) -> set of offset kinds
    for o in normals(run(ctx, init, inline=no_inline, merge=False)):
        sym, al = o.st.holds(("param", "symmetric")), o.st.holds(("param", "allow_one_sided"))
        kind = None
        for e in o.st.events:
            if e.kind == "call" and e.name.endswith(("register_parameter", "register_buffer")) and evarg(e, 0, "name") == const("offset"):
                v = evarg(e, 1, "param" if e.name.endswith("parameter") else "tensor", NONE)
                kind = ("none" if v == NONE else "parameter" if e.name.endswith("parameter") else "buffer")
            if e.kind == "setattr" and e.name == "offset" and e.obj == SELF:
                v = e.value
                kind = "none" if v == NONE else "buffer" if "Buffer" in fmt(v) else "parameter"
        for s in ([sym] if sym is not None else [True, False]):
            for a in ([al] if al is not None else [True, False]):
                states.setdefault((s, a), set()).add(kind)
        allow = [e.value for e in events(o, "setattr", "allow_one_sided") if e.obj == SELF]
        ctx.check("quantizer.one_sided_flag", f"symmetric={sym} allow_one_sided={al}", bool(allow) and all(v == ("param", "allow_one_sided") or v == const(al) for v in allow), init.loc, "allow_one_sided is not stored")
    if prop is None:
        ctx.skip(rule, "symmetric", "not a property")
        return
    pol = [o for o in normals(run(ctx, prop, inline=no_inline, merge=False))]

    def value(kind):
        def fold(t):
            if t[0] == "const":
                return bool(t[2])
            if t[0] == "not":
                v = fold(t[1])
                return None if v is None else not v
            if t[0] == "cmp" and t[1] == "is" and t[2] == ("attr", SELF, "offset") and t[3] == NONE:
                return kind == "none"
            if t[0] == "cmp" and t[1] == "in" and t[2] == const("offset"):
                where = {x[2] for x in walk(t[3]) if x[0] == "attr"}
                if "_buffers" in where:
                    return kind == "buffer"
                if "_parameters" in where:
                    return kind in ("parameter", "none")
            if t[0] == "isinstance" and t[1] == ("attr", SELF, "offset"):
                n = fmt(t[2])
                return kind == "parameter" if "Parameter" in n else kind == "buffer" if "Buffer" in n else kind != "none"
            return None

        res = set()
        for o in pol:
            vs = [(fold(c), b) for c, b in o.st.conds]
            if any(v is not None and v != b for v, b in vs):
                continue
            res.add(fold(o.val) if all(v is not None for v, b in vs) else None)
        return next(iter(res)) if len(res) == 1 else None

    for (s, a), kinds in sorted(states.items()):
        for k in sorted(kinds, key=str):
            key = f"symmetric={s} allow_one_sided={a}"
            v = value(k) if k is not None else None
            if v is None:
                ctx.skip(rule, key, "not decided")
                continue
            ctx.check(rule, key, v == s, prop.loc, f"a quantizer constructed with symmetric={s}, allow_one_sided={a} reports symmetric={v}")
            if s and a:
                ctx.check("quantizer.offset_storage", key, k != "none", init.loc, "a one-sided range needs an offset but none is stored")
            if not s:
                ctx.check("quantizer.offset_storage", key, k == "parameter", init.loc, "the offset of an asymmetric quantizer is not a parameter")
            if s and not a:
                ctx.check("quantizer.offset_storage", key, k == "none", init.loc, "a symmetric quantizer has an offset")
    ctx.floor(rule, 4)


def operator(ctx):
    """The range operator used by range estimation quantizes with the parameters of the range."""
    rule = "quantizer.operator_for_range"
    f = ctx.p.find_method(LQ, "operator_for_range")
    if f is None:
        ctx.skip(rule, "operator_for_range", "not found")
        return
    sap = "fastforward.quantization.affine.function.StaticAffineQuantParams"
    pol = lambda g, i: g.module.name in (i.entry.module.name, "fastforward.quantization.affine.static") and g.name not in ("symmetric",)
    lo_ok = lambda t: t == ("param", "min_range")
    hi_ok = lambda t: t == ("param", "max_range")
    for o in normals(run(ctx, f, inline=pol)):
        ps = [c for c in calls_in(o.val) if c[1] == ("class", sap)] + [e.value for e in events(o, "call") if e.name == f"class:{sap}"]
        # the parameters may be captured by the returned closure
        ok, why = bool(ps), "does not build the parameters of the range"
        for c in ps[:1]:
            fields = [n for n, _ in ctx.p.fields(sap)]
            v = {n: arg(c, i, n) for i, n in enumerate(fields)}
            pc = v["scale"][1] if v["scale"] and v["scale"][0] == "item" else NONE
            if v["scale"] != ("item", pc, const(0)) or v["offset"] != ("item", pc, const(1)) or pc[0] != "call" or ref_name(pc[1]) not in PFR:
                ok, why = False, "scale and offset are not those of the range"
            elif pfr_call(pc, lo_ok, hi_ok):
                ok, why = False, pfr_call(pc, lo_ok, hi_ok)
            else:
                for n in ("num_bits", "quantized_dtype"):
                    if v[n] != ("attr", SELF, n):
                        ok, why = False, f"{n} of the quantizer is not used"
                if truth_of(o, ("attr", SELF, "granularity")) is not False and not (v["granularity"] and mentions(v["granularity"], ("attr", SELF, "granularity"))):
                    ok, why = False, "the granularity of the quantizer is not used"
        if ok and o.val[0] in ("closure", "partial", "bound"):
            D = ("param", "@data")
            for r in call_term(ctx, o.val, [D], o.st, inline=no_inline):
                if r.kind in ("return", "value"):
                    good = r.val[0] == "call" and (ref_name(r.val[1]).endswith("quantize") or r.val[1][-1] == "quantize") and D in r.val[2] + tuple(x for _, x in r.val[3])
                    if not good:
                        ok, why = False, "the operator does not return the quantized data"
        ctx.check(rule, short(f.qual), ok, f.loc, why)
    ctx.floor(rule, 1)


def truth_of(o, t):
    v = o.st.holds(t)
    if v is None:
        n = o.st.holds(("cmp", "is", t, NONE))
        return None if n is None else not n
    return v
