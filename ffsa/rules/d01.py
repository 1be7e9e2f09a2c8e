"""Range estimation.  Every range estimator is prepared symbolically from its public constructor, and
the override it installs is interpreted for the first and for any later batch: the state it keeps
and the range it sets are brought into algebraic form and compared with the running, smoothed or
error-minimising range; the grid search is followed candidate by candidate."""
from __future__ import annotations

import ast
import re
from fractions import Fraction

from .. import algebra as A
from ..concrete import CInterp
from .c01 import row_extreme
from .c03 import snippet
from .common import *

ASSUMPTIONS = ["equality of formulas is over the reals", "tiles_to_rows puts every tile in one row (decided by C03)", "overrides receive every input of the quantizer (decided by A02)"]
RS = "fastforward.range_setting"
MM, ME = RS + ".minmax", RS + ".min_error"
Q, X, CB, OV = ("param", "q"), ("param", "data"), ("param", "cb"), ("param", "ov")
T = ("ext", "torch.Tensor")
TILES = "func:fastforward.quantization.tiled_tensor.tiles_to_rows"


class EInterp(CInterp):
    """Buffers are attributes; an override is its own handle; tensors made from tensors are not None."""

    def call(self, fn, args, kws, st, f, node, as_cm=False):
        if fn[0] == "attr" and fn[2] == "register_buffer" and len(args) >= 2 and args[0][0] == "const":
            return self.V(st.hset((fn[1], args[0][2]), args[1]), NONE)
        if fn == ("attr", Q, "register_override") and len(args) + len(kws) == 1:
            ov = [*args, *[v for _, v in kws]][0]
            st = st.with_event(Ev("override", "", Q, (ov,), (), ov, self.loc(node, f), f.qual))
            return self.V(st, ov)
        return super().call(fn, args, kws, st, f, node, as_cm)

    def truth(self, t, st):
        if t[0] == "cmp" and t[1] == "is" and NONE in t[2:]:
            o = t[2] if t[3] == NONE else t[3]
            if o[0] == "call" and (o[1][0] == "ext" or (o[1][0] == "attr" and o[1][1] == X)):
                return False
        return super().truth(t, st)


def policy(ctx, *deny):
    def pol(f, i):
        c = f.cls if not isinstance(f.cls, str) else ctx.p.classes[f.cls]
        if c is not None and any("Protocol" in ast.unparse(b) for b in c.node.bases):
            return False
        return f.module.name.startswith(RS) and f.name not in deny

    return pol


def drive(ctx, module, src, args=None, given=(), types=None, deny=()):
    f = snippet(ctx, module, src)
    facts = [(("isinstance", X, T), True)]
    for c in ("RangeSettable", "SupportsRangeBasedOperator"):
        facts.append((("isinstance", Q, ("class", f"{RS}.common.{c}")), True))
    i = EInterp(ctx.p, merge=False, inline=policy(ctx, *deny), ctor_inline=lambda q: q.startswith(RS), functional=True, max_depth=10, given=facts + list(given), types=types or {})
    outs = i.run(f, args or {})
    ctx.analysed.update(i.inlined)
    for o in outs:
        bad = next((e for e in o.st.events if e.kind in ("inplace", "setitem", "aug") and view_of(e.obj, X)), None)
        ctx.check("data.untouched", f.qual.rsplit(".", 2)[0] + " " + re.sub(r"\W+", " ", src.split("\n")[1]).strip(), bad is None, bad.loc if bad else f.qual, "the caller's data is changed in place")
    return outs


VIEWS = ("view", "reshape", "permute", "transpose", "t", "detach", "contiguous", "as_subclass", "squeeze", "unsqueeze", "flatten", "narrow", "select", "expand", "to", "type", "float", "movedim", "swapaxes", "view_as", "unflatten", "unbind", "split", "chunk")


def view_of(t, x):
    """May share memory with x."""
    while t and t != x:
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in VIEWS:
            t = t[1][1]
        elif t[0] == "call" and ref_name(t[1]).rsplit(".", 1)[-1] in (*VIEWS, "tiles_to_rows", "rows_to_tiles") and t[2]:
            t = t[2][0]
        elif t[0] in ("item", "attr") and (t[0] == "item" or t[2] in ("data", "T", "mT")):
            t = t[1]
        elif t[0] in ("elem",):
            t = t[1]
        else:
            return False
    return t == x


def check(ctx):
    protocol(ctx)
    minmax(ctx, "RunningMinMaxRangeEstimator", "", running)
    minmax(ctx, "SmoothedMinMaxRangeEstimator", "gamma=gamma, ", smoothed)
    grid(ctx)
    search_grid(ctx)
    supported(ctx)


# ------------------------------------------------------------------ the estimation step
def protocol(ctx):
    """Set up once, estimate on every batch before the quantizer runs, then the requested output."""
    cq = RS + ".common.SimpleEstimatorStep"
    f = ctx.p.find_method(cq, "forward")
    name = short(cq)
    src = "def driver(ov, q, cb, data):\n    return ov.forward(q, cb, (data,), {})\n"
    kw = "def driver(ov, q, cb, data):\n    return ov.forward(q, cb, (), {'data': data})\n"
    n = 0
    for how, s in (("positional", src), ("keyword", kw)):
        for o in drive(ctx, RS + ".common", s, types={OV: cq}, deny=("setup_estimator", "estimate_step")):
            if o.kind != "return":
                continue
            n += 1
            ev = list(o.st.events)
            at = {k: [i for i, e in enumerate(ev) if e.kind == "call" and e.name.endswith(k)] for k in (".setup_estimator", ".estimate_step")}
            cb = [i for i, e in enumerate(ev) if e.kind == "call" and (e.obj == CB or e.name == "param:cb")]
            est = at[".estimate_step"]
            ctx.check("step.estimates", f"{name} {how}", len(est) == 1 and ev[est[0]].args == (Q, X), f.loc, "a batch does not lead to exactly one estimation step with the quantizer and the data")
            ctx.check("step.before", f"{name} {how}", not cb or (bool(est) and est[0] < cb[0]), f.loc, "the quantizer runs before its range is estimated")
            flag = [b for c, b in o.st.conds if "initialized" in fmt(c)]
            known = at[".setup_estimator"]
            sets = [e.value for e in ev if e.kind == "setattr" and "initialized" in e.name]
            if not flag:
                ctx.skip("step.setup", f"{name} {how}", "the set-up flag was not recognised")
            elif flag[0]:
                ctx.check("step.setup", f"{name} later {how}", not known and all(v == TRUE for v in sets), f.loc, "the estimator is set up again on a later batch, forgetting what it has seen")
            else:
                ok = len(known) == 1 and ev[known[0]].args == (X,) and sets[-1:] == [TRUE] and bool(est) and known[0] < est[0]
                ctx.check("step.setup", f"{name} first {how}", ok, f.loc, "the estimator is not set up, once, with the first batch")
            off = [b for c, b in o.st.conds if "disable" in fmt(c)]
            if not off:
                ctx.skip("step.output", f"{name} {how}", "the disable flag was not recognised")
            elif off[0]:
                ctx.check("step.output", f"{name} disabled {how}", o.val == X and not cb, f.loc, f"with quantization disabled the output is {fmt(o.val)} instead of the input")
            else:
                ctx.check("step.output", f"{name} enabled {how}", o.val == ("call", CB, (X,), ()) and len(cb) == 1, f.loc, f"the output is {fmt(o.val)} instead of the quantizer's")
    ctx.floor("step.estimates", 4)


# ------------------------------------------------------------------ min/max estimators
def is_inf(t):
    return t[0] == "const" and isinstance(t[2], float) and abs(t[2]) == float("inf") and (1 if t[2] > 0 else -1) or 0


def receiver(t, name):
    """The object a method of that name is called on."""
    if t[0] != "call":
        return None
    if t[1][0] == "attr" and t[1][2] == name:
        return t[1][1]
    if t[1][0] == "bound" and t[1][1].rsplit(".", 1)[-1] == name:
        return t[1][2]
    return None


def tile_of(t, st):
    while t[0] == "call" and ref_name(t[1]) in ("builtin:tuple", "builtin:list", "ext:torch.Size") and len(t[2]) == 1:
        t = t[2][0]
    g = receiver(t, "tile_size")
    if g is None:
        return False
    s = arg(t, 0, "data_shape", NONE)
    own = g in (("attr", Q, "granularity"),) or (g[0] == "attr" and g[2] == "granularity" and g[1][0] == "attr" and g[1][1] == OV)
    return own and s in (("attr", X, "shape"), ("call", ("attr", X, "size"), (), ()))


def rows_of(t, data, st=None):
    """Rows of the tiles of `data` in the quantizer's granularity."""
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("detach", "contiguous") and not t[2]:
        t = t[1][1]
    return t[0] == "call" and ref_name(t[1]) == TILES and len(t[2]) == 2 and plain(t[2][0]) == data and tile_of(t[2][1], st)


def plain(t):
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("detach", "contiguous") and not t[2]:
        t = t[1][1]
    return t


class Vals:
    def __init__(self, obj):
        self.obj = obj
        self.alg = A.Alg(leaf=self.leaf)

    def leaf(self, t, w):
        if w:
            return None
        e = row_extreme(t)
        if e is not None and rows_of(e[1], X):
            return A.atom(("batch", e[0]))
        if t[0] == "attr" and t[1] == self.obj:
            return A.atom(("old", t[2]))
        if t[0] == "item" and t[1] == ("attr", Q, "quantization_range"):
            return A.atom(("range", t[2][2]))
        if t[0] == "param":
            return A.atom(("param", t[1]))
        s = is_inf(t)
        if s:
            return A.atom(("inf", s))
        if t[0] == "call" and ref_name(t[1]) == "ext:torch.full" and len(t[2]) >= 2:
            return self(t[2][1])
        return None

    def __call__(self, t):
        return simplify(self.alg.ev(t))


def only(p):
    """The atom a polynomial consists of."""
    return p[0][0][0][0] if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1 and p[0][0][0][1] == 1 else None


def simplify(p):
    a = only(p)
    if a and a[0] in ("min", "max"):
        xs = [simplify(x) for x in a[1]]
        neutral = A.atom(("inf", 1 if a[0] == "min" else -1))
        rest = [x for x in xs if x != neutral]
        if len(rest) == 1:
            return rest[0]
        flat = []
        for x in rest:
            b = only(x)
            flat += list(b[1]) if b and b[0] == a[0] else [x]
        return A.atom((a[0], tuple(sorted(set(flat), key=repr))))
    return p


def infinite(o, vals):
    """{value: known to contain an infinity} for the values tested on the path; None for an infeasible path."""
    res = {}
    for c, b in o.st.conds:
        t = c
        while t[0] == "call" and t[1][0] in ("attr", "builtin") and (t[1][-1] in ("item", "any", "bool") or ref_name(t[1]) in ("builtin:bool",)) and (t[1][0] == "builtin" or not t[2]):
            t = t[2][0] if t[1][0] == "builtin" else t[1][1]
        if t[0] == "call" and ref_name(t[1]) in ("ext:torch.any",) and t[2]:
            t = t[2][0]
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "isinf":
            x = t[1][1]
        elif t[0] == "call" and ref_name(t[1]) == "ext:torch.isinf":
            x = t[2][0]
        else:
            continue
        a = only(vals(x))
        if a and a[0] == "inf" and not b:
            return None
        res[a] = b
    return res


def minmax(ctx, cls, opts, formula):
    cq = f"{MM}.{cls}"
    f = ctx.p.find_method(cq, "prepare")
    ctx.p.cls(cq)
    # first batch, from the constructor of the estimator
    src = f"def driver(q, data, cb, gamma, dq):\n    ov = {cls}({opts}disable_quantization=dq).prepare(q)\n    return ov, ov.forward(q, cb, (data,), {{}})\n"
    state, kinds, n, loc = {}, {}, 0, f.loc
    for o in drive(ctx, MM, src):
        if o.kind != "return":
            continue
        if o.val[0] != "tuple" or o.val[1][0] != "new":
            ctx.skip("minmax.range", cls, "the override that prepare registers is not recognised")
            continue
        ov = o.val[1]
        kinds[ov[1]] = ov
        out(ctx, cls, o, o.val[2], ("param", "dq"), loc)
        vals = Vals(("none",))
        inf = infinite(o, vals)
        if inf is None:
            continue
        n += judge(ctx, cls, o, ov, vals, inf, formula, state, "first batch", loc)
    # any later batch, from any state
    for k in kinds:
        src = "def driver(ov, q, data, cb):\n    return ov.forward(q, cb, (data,), {})\n"
        for o in drive(ctx, MM, src, types={OV: k}):
            if o.kind != "return":
                continue
            vals = Vals(OV)
            inf = infinite(o, vals)
            if inf is None:
                continue
            n += judge(ctx, cls, o, OV, vals, inf, formula, state, "later batch", loc)
    ctx.check("minmax.reached", cls, n > 0, f.loc, "never sets a range")
    ctx.floor("minmax.range", 12)
    ctx.floor("minmax.output", 4)


def out(ctx, cls, o, val, flag, loc):
    t = o.st.holds(flag)
    if t is None:
        ctx.check("minmax.output", f"{cls} disable", False, loc, "disable_quantization has no effect")
    elif t:
        ctx.check("minmax.output", f"{cls} disabled", val == X, loc, f"with quantization disabled the output is {fmt(val)}")
    else:
        ctx.check("minmax.output", f"{cls} enabled", val == ("call", CB, (X,), ()), loc, f"the output is {fmt(val)}, not the quantizer's")


def judge(ctx, cls, o, ov, vals, inf, formula, state, when, loc):
    sets = [e for e in o.st.events if e.kind == "setattr" and e.name == "quantization_range" and e.obj == Q]
    if not sets or sets[-1].value[0] not in ("tuple", "list") or len(sets[-1].value) != 3:
        ctx.check("minmax.range", f"{cls} {when}", False, loc, "a batch does not update the quantizer's range" if not sets else f"the range is set to {fmt(sets[-1].value)}")
        return 0
    for i, kind in ((0, "min"), (1, "max")):
        v = sets[-1].value[1 + i]
        p = vals(v)
        # the attribute that keeps the value for the next batch
        kept = sorted(k[1] for k, w in o.st.heap.items() if k[0] == ov and isinstance(k[1], str) and w == v)
        known = state.get(kind)
        ctx.check("minmax.state", f"{cls} {kind} {when}", bool(kept) and (known is None or known in kept), loc, f"the {kind} is not kept for the next batch")
        if kept and known is None:
            state[kind] = known = kept[0]
        olds = [A.atom(("old", known))] if when == "later batch" else [A.atom(("range", i))]
        none = [b for c, b in o.st.conds if c[0] == "cmp" and c[1] == "is" and NONE in c[2:] and vals((c[2] if c[3] == NONE else c[3])) in olds]
        old = None if none and none[0] else olds[0]
        ok, msg = formula(ctx, vals, o, ov, kind, p, old, inf, when)
        ctx.check("minmax.range", f"{cls} {kind} {when}{'' if old else ' unset'}", ok, loc, msg)
    return 1


def running(ctx, vals, o, ov, kind, p, old, inf, when):
    batch = A.atom(("batch", kind))
    want = batch if old is None else A.atom((kind, tuple(sorted((old, batch), key=repr))))
    return p == want, f"the {kind} is {A.show(p)} instead of {A.show(want)}"


def smoothed(ctx, vals, o, ov, kind, p, old, inf, when):
    batch = A.atom(("batch", kind))
    if old is None:
        return p == batch, f"the first {kind} is {A.show(p)} instead of the batch's"
    if when == "first batch":
        g = A.atom(("param", "gamma"))
    else:
        g = None
    # the smoothing factor: the attribute that holds the constructor's argument
    cands = [g] if g is not None else [A.atom(("old", "gamma"))] + [A.atom(a) for a in {x for m, _ in p for x, _ in m} if a[0] == "old"]
    want = [A.add(A.mul(c, batch), A.mul(A.sub(A.ONE, c), old)) for c in cands]
    reset = any(inf.values())
    return p in want or (reset and p == batch), f"the {kind} is {A.show(p)} instead of {A.show(want[0])}"


# ------------------------------------------------------------------ grid search
def cand(t):
    """(tensor, element key) for an element of an iteration over or an index into candidates."""
    if t[0] == "item":
        b, k = t[1], t[2]
        if b[0] == "elem" and b[1][0] == "call" and ref_name(b[1][1]) in ("builtin:zip", "builtin:enumerate") and k[0] == "const":
            fn, a = ref_name(b[1][1]), b[1][2]
            if fn == "builtin:zip" and k[2] < len(a):
                return a[k[2]], b
            if fn == "builtin:enumerate":
                return (None, b) if k[2] == 0 else (a[0], b)
        if b[0] == "item":
            # element of a pair inside enumerate(zip(...))
            x = cand(b)
            if x is not None and x[0] is not None and x[0][0] == "call" and ref_name(x[0][1]) == "builtin:zip" and k[0] == "const" and k[2] < len(x[0][2]):
                return x[0][2][k[2]], x[1]
        kk = cand(k)
        if kk is not None and kk[0] is None:
            return b, kk[1]
        return b, k
    if t[0] == "elem":
        it = t[1]
        if it[0] == "call" and ref_name(it[1]) == "builtin:range":
            return None, t
        return it, t
    if t[0] == "idx":
        return None, t
    return None


def together(o, x, y, tens):
    """Whether two element keys belong to the same step of one loop over the candidates."""
    if x == y:
        return True

    def over(k):
        it = k[1] if k[0] in ("elem", "idx") else None
        return it is not None and (it in tens or (it[0] == "call" and ref_name(it[1]) == "builtin:zip" and all(a in tens for a in it[2])))

    # a zipped iteration is one loop, two loops over the candidates are two
    loops = {e.loc for e in o.st.events if e.kind == "loop" and any(mentions(e.obj, w) for w in tens)}
    return over(x) and over(y) and len(loops) <= 1


def count_of(t, tensors):
    """The number of candidates of one of the tensors."""
    if t[0] == "item" and t[2] == const(0) and t[1] in [("attr", x, "shape") for x in tensors] + [("call", ("attr", x, "size"), (), ()) for x in tensors]:
        return True
    if t[0] == "call" and ref_name(t[1]) == "builtin:len" and t[2] and t[2][0] in tensors:
        return True
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] == "size" and t[1][1] in tensors and t[2] == (const(0),)


def grid(ctx):
    cls = "MinErrorGridRangeEstimator"
    f = ctx.p.find_method(f"{ME}.{cls}", "prepare")
    src = f"def driver(q, data, cb, err, n, gen, pol):\n    ov = {cls}(error_fn=err, num_candidates=n, search_grid_generator=gen, update_range_policy=pol).prepare(q)\n    return ov, ov.forward(q, cb, (data,), {{}})\n"
    G, ERR, N_, POL = (("param", n) for n in ("gen", "err", "n", "pol"))
    kind = pol = None
    seen = 0
    for o in drive(ctx, ME, src):
        if o.kind != "return" or o.val[0] != "tuple" or o.val[1][0] != "new":
            continue
        kind = o.val[1][1]
        gens = [e for e in events(o, "call") if e.obj == G or e.name == "param:gen"]
        ok = len(gens) == 1
        ctx.check("grid.candidates", "generator called once", ok, f.loc, "the candidates do not come from one call of the search grid generator")
        if not ok:
            continue
        a = gens[0].args
        rows = len(a) == 4 and rows_of(a[0], X)
        ctx.check("grid.candidates", "generator arguments", rows and a[1] == ("attr", Q, "symmetric") and a[3] == N_ and receiver(a[2], "parameter_dimensionality") == ("attr", Q, "granularity"), f.loc, f"the generator is called with {', '.join(map(fmt, a))}")
        seen += search(ctx, o, ERR, POL, ("item", gens[0].value, const(0)), ("item", gens[0].value, const(1)), "first batch", f.loc, True)
        counted(ctx, o, o.val[1], POL, "first batch", f.loc)
        kept = [k[1] for k, v in o.st.heap.items() if k[0] == o.val[1] and v == POL and isinstance(k[1], str)]
        pol = kept[0] if kept else pol
    if kind is None:
        ctx.skip("grid.error", cls, "the override that prepare registers is not recognised")
        return
    src = "def driver(ov, q, data, cb):\n    return ov.forward(q, cb, (data,), {})\n"
    ov = {}
    for o in drive(ctx, ME, src, types={OV: kind}, given=[(("attr", OV, "_initialized"), True)]):
        if o.kind != "return":
            continue
        ops = [e for e in events(o, "call") if e.name.endswith(".operator_for_range")]
        if not ops and o.st.conds:
            continue
        if pol is not None:
            counted(ctx, o, OV, ("attr", OV, pol), "later batch", f.loc)
        if not ops:
            continue
        x, y = cand(ops[0].args[0]) or (None, None), cand(ops[0].args[1]) or (None, None)
        lasting(ctx, o, x[0], y[0], f.loc)
        seen += search(ctx, o, None, None, x[0], y[0], "later batch", f.loc, False)
    ctx.check("grid.reached", cls, seen > 0, f.loc, "no candidate is evaluated")
    ctx.floor("grid.error", 3)
    ctx.floor("grid.best", 2)


def counted(ctx, o, ov, pol, when, loc):
    """The policy is asked with the number of the batches seen, this one included; every batch advances it."""
    asked = [e for e in events(o, "call") if e.value and e.value[0] == "call" and e.value[1] == pol]
    for e in asked:
        if len(e.args) != 2:
            ctx.check("grid.policy", f"{when} arguments", False, loc, f"the update policy is called with {', '.join(map(fmt, e.args))}")
            continue
        n = A.Alg().ev(e.args[1])
        ctx.check("grid.policy", f"{when} estimator", e.args[0] == ov, loc, f"the update policy is given {fmt(e.args[0])}, not the estimator")
        if ov[0] == "new":
            ctx.check("grid.policy", f"{when} count", n == A.Alg().ev(const(1)), loc, f"the update policy is told that this is step {fmt(e.args[1])}, although it is the first")
            held = [k[1] for k, v in o.st.heap.items() if k[0] == ov and v == const(1) and isinstance(k[1], str)]
            ctx.check("grid.policy", f"{when} counted", bool(held), loc, "the first batch is not counted")
            continue
        subs = [t for t in attrs_of(e.args[1], ov)]
        if len(subs) != 1:
            ctx.check("grid.policy", f"{when} count", False, loc, f"the update policy is told that this is step {fmt(e.args[1])}")
            continue
        old = subs[0]
        ctx.check("grid.policy", f"{when} count", n == A.add(A.Alg().ev(old), A.Alg().ev(const(1))), loc, f"the update policy is told that this is step {fmt(e.args[1])} after {fmt(old)} steps")
        end = o.st.heap.get((ov, old[2]), old)
        ctx.check("grid.policy", f"{when} counted", A.Alg().ev(end) == A.add(A.Alg().ev(old), A.Alg().ev(const(1))), loc, f"a batch leaves the count of batches at {fmt(end)}: later policy decisions are made for the wrong step")


def attrs_of(t, ov):
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "attr" and x[1] == ov:
                if x not in out:
                    out.append(x)
                return
            for y in x:
                walk(y)

    walk(t)
    return out


def lasting(ctx, o, MIN, MAX, loc):
    """After the first batch, neither the grid nor the errors of the candidates so far are replaced."""
    held = {}
    for e in events(o, "setitem"):
        if e.obj and e.obj[0] == "attr" and e.obj[1] == OV:
            held[e.obj[2]] = "the errors accumulated over the earlier batches"
    for t in (MIN, MAX):
        if t and t[0] == "attr" and t[1] == OV:
            held[t[2]] = "the candidates the errors belong to"
    for k, what in held.items():
        lost = [e for e in o.st.events if e.kind == "setattr" and e.obj == OV and e.name == k and not contains(e.value, lambda t: t == ("attr", OV, k))]
        lost += [e for e in o.st.events if e.kind == "setattr" and e.obj == OV and e.name == k and e.value[0] == "call" and (ref_name(e.value[1]) or "").rsplit(".", 1)[-1].endswith("_like")]
        lost += [e for e in events(o, "call") if e.obj == ("attr", OV, k) and e.name in ("method:.zero_", "method:.fill_", "method:.mul_", "method:.div_", "method:.copy_")]
        ctx.check("grid.lasting", k, not lost, lost[0].loc if lost else loc, f"a later batch replaces {what}")


def search(ctx, o, ERR, POL, MIN, MAX, when, loc, first):
    ops = [e for e in events(o, "call") if e.name.endswith(".operator_for_range")]
    sets = [e for e in o.st.events if e.kind == "setattr" and e.name == "quantization_range" and e.obj == Q]
    n = 0
    cum = None
    for e in ops:
        n += 1
        lo, hi = cand(e.args[0]), cand(e.args[1])
        tens = [MIN, MAX] + [v for k, v in o.st.heap.items() if v[0] == "call" and ref_name(v[1]) == "ext:torch.zeros_like" and v[2][:1] in ((MIN,), (MAX,))] + [("attr", OV, k) for k in ("cumulative_error",)]
        ok = e.obj == Q or (e.obj and e.obj[0] == "attr" and e.obj[2] == "_quantizer")
        ok = ok and lo is not None and hi is not None and lo[0] == MIN and hi[0] == MAX and together(o, lo[1], hi[1], tens) and e.args[2] == ("attr", X, "shape") and MIN != MAX
        ctx.check("grid.operator", when, ok, loc, f"a candidate is tried as {', '.join(map(fmt, e.args))}")
        if not ok:
            continue
        key = lo[1]
        # the candidates covered
        it = key[1] if key[0] in ("elem", "idx") else None
        if it is None:
            ctx.skip("grid.all", when, "the iteration over the candidates is not recognised")
        else:
            while it[0] == "call" and ref_name(it[1]) in ("builtin:enumerate", "builtin:list", "builtin:tuple") and it[2]:
                it = it[2][0]
            if it[0] == "call" and ref_name(it[1]) == "builtin:range":
                full = len(it[2]) == 1 and count_of(it[2][0], tens)
            else:
                full = it in tens or (it[0] == "call" and ref_name(it[1]) == "builtin:zip" and all(a in tens for a in it[2]))
            ctx.check("grid.all", when, full, loc, f"the search runs over {fmt(it)}, which need not be all the candidates of the grid; the others keep an error of zero and win")
        # the error of the candidate
        deq = ("call", ("attr", ("call", e.value, (X,), ()), "dequantize"), (), ())
        errs = [c for c in events(o, "call") if len(c.args) == 2 and any(contains(x, lambda t: t == deq) for x in c.args) and not c.name.endswith("tiles_to_rows") and ref_name(TT(c)) != TILES]
        if not errs:
            ctx.check("grid.error", when, False, loc, "the error between quantized and original data is not computed")
            continue
        c = errs[0]
        ok = rows_of(c.args[0], deq) and rows_of(c.args[1], X)
        ctx.check("grid.error", when, ok, loc, f"the error is computed between {fmt(c.args[0])} and {fmt(c.args[1])}, not between the rows of the quantized and the original data")
        if ERR is not None:
            ctx.check("grid.error", f"{when} function", c.obj == ERR or c.name == "param:err", loc, "the given error function is not used")
        acc = [s for s in o.st.events if s.kind == "setitem" and contains(s.value, lambda t: t == c.value)]
        if not acc:
            ctx.skip("grid.accumulate", when, "the accumulation of the errors is not recognised")
            continue
        s = acc[0]
        old = ("item", s.obj, s.args[0])
        kk = cand(old)
        v = A.Alg().ev(s.value)
        good = kk is not None and together(o, kk[1], key, tens) and v == A.add(A.Alg().ev(old), A.Alg().ev(c.value))
        ctx.check("grid.accumulate", when, good, loc, f"the error of a candidate becomes {fmt(s.value)}: it is not added to the candidate's error so far")
        cum = s.obj
    if ops and POL is not None:
        none = o.st.holds(("cmp", "is", POL, NONE))
        pol, res = (False if none else o.st.holds(POL)), [b for c, b in o.st.conds if c[0] == "call" and c[1] == POL]
        must = pol is False or (res and res[0])
        if pol is None and not res:
            ctx.check("grid.policy", when, False, loc, "the update policy is not consulted")
        else:
            ctx.check("grid.policy", f"{when} {'no policy' if pol is False else res[:1]}", bool(sets) == bool(must), loc, "the range is not updated" if must else "the range is updated against the policy")
    if sets and cum is not None:
        v = sets[-1].value
        last = ops[-1]
        ev = list(o.st.events)
        ctx.check("grid.best", f"{when} after the search", ev.index(sets[-1]) > ev.index(last), loc, "the range is set before all candidates are evaluated")
        if v[0] not in ("tuple", "list") or len(v) != 3:
            ctx.check("grid.best", when, False, loc, f"the range is {fmt(v)}")
            return n
        b0, b1 = pick(v[1], MIN), pick(v[2], MAX)
        if b0 is None or b1 is None:
            known = v[1][0] == "item" and v[2][0] == "item"
            if known:
                ctx.check("grid.best", when, False, loc, f"the range is {fmt(v)}, not a candidate's minimum and maximum")
            else:
                ctx.skip("grid.best", when, "the selection of the best candidate is not recognised")
            return n
        ctx.check("grid.best", when, b0 == b1, loc, "minimum and maximum are taken from different candidates")
        e = argmin(b0)
        ctx.check("grid.best", f"{when} smallest error", e is not None and contains(e, lambda t: t == cum) and not contains(e, lambda t: t[0] == "un"), loc, f"the candidate is chosen by {fmt(b0)}")
    return n


def TT(c):
    return ("func", c.name[5:]) if c.name.startswith("func:") else ("builtin", c.name)


def pick(t, tensor):
    """The candidate index per parameter, of tensor[index, arange(parameters)] or a gather."""
    if t[0] == "item" and t[1] == tensor and t[2][0] == "tuple" and len(t[2]) == 3:
        p = t[2][2]
        if p[0] == "call" and ref_name(p[1]) == "ext:torch.arange" and len(p[2]) == 1:
            c = p[2][0]
            if c[0] == "item" and c[2] in (const(1), const(-1)) and c[1][0] == "attr" and c[1][2] == "shape":
                return t[2][1]
    if t[0] == "call" and t[1] in (("attr", tensor, "gather"),) and len(t[2]) == 2 and t[2][0] == const(0):
        return t[2][1]
    return None


def argmin(t):
    if t[0] == "attr" and t[2] == "indices":
        t = t[1]
        n, a, kw = A.Alg().op(t) if t[0] == "call" else (None, (), {})
        d = kw.get("dim", a[1] if len(a) > 1 else None)
        return a[0] if n == "min" and d == const(0) else None
    if t[0] == "item" and t[2] == const(1):
        t = t[1]
        n, a, kw = A.Alg().op(t) if t[0] == "call" else (None, (), {})
        d = kw.get("dim", a[1] if len(a) > 1 else None)
        return a[0] if n == "min" and d == const(0) else None
    if t[0] == "call":
        n, a, kw = A.Alg().op(t)
        d = kw.get("dim", a[1] if len(a) > 1 else None)
        return a[0] if n == "argmin" and d == const(0) else None
    return None


# ------------------------------------------------------------------ the default grid
def search_grid(ctx):
    cq = ME + "._UniformSearchGrid"
    if cq not in ctx.p.classes:
        ctx.skip("uniform.grid", cq, "not found")
        return
    f = ctx.p.find_method(cq, "__call__")
    src = "def driver(g, data, symmetric, p, n):\n    return g(data, symmetric, p, n)\n" if False else "def driver(g, data, symmetric, p, n):\n    return g.__call__(data, symmetric, p, n)\n"
    SYM = ("param", "symmetric")
    k = 0
    for o in drive(ctx, ME, src, types={("param", "g"): cq}):
        if o.kind != "return" or o.val[0] not in ("tuple", "list") or len(o.val) != 3:
            continue
        lo, hi = o.val[1], o.val[2]
        sym = o.st.holds(SYM)
        neg = next((b for c, b in o.st.conds if c[0] == "cmp" and c[1] in ("<", "<=") and contains(c, lambda t: t == X)), None)
        val = A.Alg()
        name = "non-negative data" if neg is False else ("symmetric" if sym else "asymmetric")
        k += 1
        if neg is False:
            ctx.check("uniform.grid", f"{name} minimum", val.ev(lo) == A.ZERO, f.loc, f"the minima are {fmt(lo)} although no data is negative")
            ctx.check("uniform.count", name, rows_count(lo) in (None, ("param", "n")) and rows_count(hi) in (None, ("param", "n")), f.loc, "another number of candidates than requested")
        elif sym:
            ctx.check("uniform.grid", f"{name} minimum", A.add(val.ev(lo), val.ev(hi)) == A.ZERO, f.loc, f"the minima {fmt(lo)} are not the negated maxima")
            ctx.check("uniform.count", name, rows_count(lo) in (None, ("param", "n")) and rows_count(hi) in (None, ("param", "n")), f.loc, "another number of candidates than requested")
        else:
            a, b = repeated(lo), repeated(hi)
            if a is None or b is None:
                ctx.skip("uniform.product", name, "the combination of minima and maxima is not recognised")
                continue
            (ka, ra, ta), (kb, rb, tb) = a, b
            ca, cb = rows_count(ta), rows_count(tb)
            good = {ka, kb} == {"tile", "each"} and ca is not None and cb is not None and ra == cb and rb == ca
            ctx.check("uniform.product", name, good, f.loc, "minima and maxima are not combined into all their pairs")
    ctx.floor("uniform.grid", 2)


def rows_count(t):
    """The number of steps of the linspace or of the rows of zeros that gives the candidates."""
    cs = {}
    for c in walk(t):
        if c[0] == "call" and ref_name(c[1]) == "ext:torch.linspace":
            x = arg(c, 2, "steps", NONE)
            cs[x] = 1
        if c[0] == "call" and ref_name(c[1]) == "ext:torch.zeros" and c[2] and c[2][0][0] in ("tuple", "list"):
            cs[c[2][0][1]] = 1
    return next(iter(cs)) if len(cs) == 1 else None


def repeated(t):
    """('tile'|'each', times, tensor) for whole repetitions along the first dimension."""
    if t[0] != "call" or t[1][0] != "attr":
        return None
    n, a, kw = t[1][2], t[2], dict(t[3])
    if n in ("repeat", "tile"):
        d = list(a[0][1:]) if len(a) == 1 and a[0][0] in ("tuple", "list") else list(a)
        if len(d) == 2 and d[1] == const(1):
            return "tile", d[0], t[1][1]
    if n == "repeat_interleave" and kw.get("dim", a[1] if len(a) > 1 else None) == const(0):
        return "each", a[0] if a else kw.get("repeats"), t[1][1]
    return None


# ------------------------------------------------------------------ which quantizers take part
def supported(ctx):
    for mod, cls, proto in ((MM, "RunningMinMaxRangeEstimator", "RangeSettable"), (MM, "SmoothedMinMaxRangeEstimator", "RangeSettable"), (ME, "MinErrorGridRangeEstimator", "SupportsRangeBasedOperator")):
        cq = f"{mod}.{cls}"
        f = ctx.p.find_method(cq, "prepare")
        P = ("class", f"{RS}.common.{proto}")
        for yes in (True, False):
            i = EInterp(ctx.p, merge=False, inline=policy(ctx), ctor_inline=lambda q: q.startswith(RS), given=[(("isinstance", Q, P), yes)], max_depth=8)
            outs = i.run(snippet(ctx, mod, f"def driver(q):\n    return {cls}().prepare(q)\n"), {})
            ctx.analysed.update(i.inlined)
            if yes:
                ok = any(o.kind == "return" for o in outs) and all(any(e.kind == "override" for e in o.st.events) for o in outs if o.kind == "return")
                ctx.check("prepare.override", cls, ok, f.loc, "no estimator is attached to a quantizer")
            else:
                ctx.check("prepare.unsupported", cls, bool(outs) and all(o.kind == "raise" for o in outs), f.loc, "a quantizer without a settable range is accepted and silently not estimated")
        g = ctx.p.find_method(cq, "split_module")
        SELF = ("param", "self")
        init = ctx.p.find_method(cq, "__init__")
        ctor = EInterp(ctx.p, merge=False, inline=policy(ctx), ctor_inline=lambda q: q.startswith(RS))
        kept = {k[1] for o in ctor.run(snippet(ctx, mod, f"def driver(s):\n    return {cls}(skip_unsupported_quantizers=s)\n"), {}) for k, v in o.st.heap.items() if v == ("param", "s") and isinstance(k[1], str)}
        ctx.check("split.option", cls, len(kept) == 1, init.loc, "skip_unsupported_quantizers is not kept")
        for skip in (True, False):
            i = EInterp(ctx.p, merge=False, inline=policy(ctx), max_depth=8, types={SELF: cq}, given=[(("attr", SELF, k), skip) for k in kept])
            outs = i.run(g, {g.params()[1]: ("param", "module")})
            ctx.analysed.update(i.inlined)
            for o in outs:
                it = [e for e in o.st.events if e.kind == "loop"]
                if not it:
                    continue
                src = [c for c in events(o, "call") if c.name == "func:fastforward.nn.quantized_module.named_quantizers"]
                full = bool(src) and src[0].args[:1] == (("param", "module"),) and evarg(src[0], 2, "recurse", TRUE) == TRUE
                ctx.check("split.all", f"{cls} source", full, g.loc, "not all quantizers of the module are visited")
                sup = [b for c, b in o.st.conds if c[0] == "isinstance" and c[2] == P]
                ys = [e for e in o.st.events if e.kind == "yield"]
                if sup and not sup[0] and skip:
                    ctx.check("split.all", f"{cls} unsupported skipped", not ys, g.loc, "an unsupported quantizer is estimated although it should be skipped")
                else:
                    ctx.check("split.all", f"{cls} {'supported' if sup and sup[0] else 'any'}", bool(ys), g.loc, "a quantizer is left out of the estimation")
    ctx.floor("split.all", 6)
