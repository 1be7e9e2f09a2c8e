"""Granularity and tiling.  Sizes are symbolic monomials (a dimension is the number of tiles times the
tile size); the layout functions are reduced to the order in which they read the elements, and the
tile sizes of every granularity, the inference of a granularity from sizes and the compatibility
check are evaluated for every combination of dimension classes."""
from __future__ import annotations

from itertools import product

from ..concrete import CInterp
from .common import *

ASSUMPTIONS = ["sizes are decided up to rank 4, in general position (different products of size symbols are different numbers)", "reshape, permute and transpose of torch have their documented row-major meaning"]
T = "fastforward.quantization.tiled_tensor."
G = "fastforward.quantization.granularity"
X = ("param", "data")
N = [("param", f"n{i}") for i in range(4)]
S = [("param", f"t{i}") for i in range(4)]
U, V, W = ([("param", f"{c}{i}") for i in range(4)] for c in "uvw")
SIZES = N + S + U + V + W


# v is smaller than the dimension it does not divide
LARGER = {}
for _j in range(4):
    _d, _v = CInterp.term((1, tuple(sorted((N[_j], S[_j]))))), V[_j]
    LARGER.update({("cmp", "<", _d, _v): False, ("cmp", "<=", _d, _v): False, ("cmp", "<", _v, _d): True, ("cmp", "<=", _v, _d): True, ("cmp", "==", _v, _d): False})


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


def check(ctx):
    layouts(ctx)
    compatibility(ctx)
    tile_sizes(ctx)
    inference(ctx)
    equality(ctx)


def interp(ctx, **kw):
    kw.setdefault("inline", inline_pkg("fastforward", maxsize=60))
    kw.setdefault("ctor_inline", lambda q: q.startswith("fastforward."))
    return CInterp(ctx.p, merge=False, sizes=SIZES, **kw)


def mul(*xs):
    m = (1, tuple(sorted(xs)))
    return CInterp.term(m)


def dims(n, t):
    return tuple(mul(a, b) for a, b in zip(n, t))


def seq(xs):
    return ("tuple",) + tuple(xs)


def snippet(ctx, module, src):
    """A driver function, parsed in the scope of a module of the package."""
    node = ast.parse(src).body[0]
    return Func(f"{module}.<driver>", node, ctx.p.modules[module], None, [])


def drive(ctx, module, src, args, **kw):
    f = snippet(ctx, module, src)
    i = interp(ctx, **kw)
    outs = i.run(f, args)
    ctx.analysed.update(i.inlined)
    return outs


# ---- element order
def atoms(i, t):
    m = i.mono(t)
    if m is None:
        if t[0] == "bin" and t[1] in ("//", "/") and i.mono(t[2]) and i.mono(t[3]):
            raise Wrong(f"{fmt(t)} is not the number of tiles of any dimension")
        raise Unknown(fmt(t))
    return m


def regroup(i, groups, targets):
    flat = [a for g in groups for a in g]
    ms = []
    for t in targets:
        ms.append(None if t == const(-1) else atoms(i, t))
    if ms.count(None) > 1 or any(m is not None and m[0] != 1 for m in ms):
        raise Unknown("reshape")
    total = (1, tuple(sorted(flat)))
    if None in ms:
        rest = total
        for m in ms:
            if m is not None:
                rest = rest and i.quotient(rest, m)
        if rest is None:
            raise Wrong("reshaped to a size that does not divide the number of elements")
        ms[ms.index(None)] = rest
    elif tuple(sorted(a for m in ms for a in m[1])) != total[1]:
        raise Wrong("reshaped to a different number of elements")
    out, k = [], 0
    for m in ms:
        want, g = list(m[1]), []
        while want:
            if k >= len(flat):
                raise Wrong("reshape")
            a = flat[k]
            if a not in want:
                raise Wrong("a reshape splits or joins dimensions out of order")
            want.remove(a)
            g.append(a)
            k += 1
        out.append(g)
    return out


def layout(i, t, start):
    """Groups (per dimension, the symbols from outermost to innermost) of a tensor term."""
    if t == X:
        return start
    if t[0] != "call":
        raise Unknown(fmt(t))
    if t[1][0] == "attr":
        nm, base, args = t[1][2], t[1][1], list(t[2])
    elif t[1][0] == "ext" and t[1][1].startswith("torch.") and t[2]:
        nm, base, args = t[1][1].rsplit(".", 1)[1], t[2][0], list(t[2][1:])
    else:
        raise Unknown(fmt(t[1]))
    args += [v for k, v in t[3]]
    if len(args) == 1 and args[0][0] in ("tuple", "list"):
        args = list(args[0][1:])
    g = layout(i, base, start)
    if nm in ("reshape", "view"):
        return regroup(i, g, args)
    if nm in ("contiguous", "clone"):
        return g
    ints = [a[2] for a in args if a[0] == "const" and isinstance(a[2], int)]
    if len(ints) != len(args):
        raise Unknown(nm)
    if nm == "permute" and sorted(x % len(g) for x in ints) == list(range(len(g))):
        return [g[x] for x in ints]
    if nm in ("transpose", "swapaxes", "swapdims") and len(ints) == 2:
        g = list(g)
        g[ints[0]], g[ints[1]] = g[ints[1]], g[ints[0]]
        return g
    if nm == "flatten" and len(ints) <= 2:
        a, b = (ints + [0, -1][len(ints):])
        a, b = a % len(g), b % len(g)
        return g[:a] + [[x for y in g[a : b + 1] for x in y]] + g[b + 1 :]
    if nm == "t" and len(g) == 2:
        return g[::-1]
    raise Unknown(nm)


def order(groups):
    return " x ".join("(" + " ".join(a[1] for a in g) + ")" for g in groups)


def layouts(ctx):
    for name in ("tiles_to_rows", "rows_to_tiles"):
        f = ctx.func(T + name)
        rule = f"layout.{name}"
        ps = f.params()
        for k in range(1, 5):
            for whole in (False, True):
                n, t = ([], S[:k]) if whole else (N[:k], S[:k])
                full = t if whole else dims(n, t)
                tile = const("data_shape") if whole else seq(t)
                rows = ([list(n), list(t)])
                split = [[b] for b in t] if whole else [[a, b] for a, b in zip(n, t)]
                if name == "tiles_to_rows":
                    args, start, want = [X, tile], split, rows
                    shapes = {X: tuple(full)}
                else:
                    args, start, want = [X, seq(full), tile], rows, split
                    shapes = {X: (mul(*n) if n else const(1), mul(*t))}
                i = interp(ctx, shapes=shapes, inline=inline_same_module())
                outs = i.run(f, dict(zip(ps, args)))
                ctx.analysed.add(f.qual)
                construct = f"{name} rank {k}{' whole' if whole else ''}"
                for o in {(o.kind, o.val): o for o in outs}.values():
                    if o.kind != "return":
                        if not undecided(o):
                            ctx.check(rule, construct, False, f.loc, f"fails on data that consists of whole tiles: {fmt(o.val)}")
                        continue
                    try:
                        got = layout(i, o.val, start)
                    except Unknown as e:
                        ctx.skip(rule, construct, str(e))
                        continue
                    except Wrong as e:
                        ctx.check(rule, construct, False, f.loc, str(e))
                        continue
                    ctx.check(rule, construct, got == want, f.loc, f"elements are laid out as {order(got)} instead of {order(want)}")
                # rows of a different number or size are refused
                if name == "rows_to_tiles" and not whole:
                    for bad, what in (((W[0], mul(*t)), "number"), ((mul(*n), W[0]), "size"), ((mul(*n, *t),), "rank")):
                        i = interp(ctx, shapes={X: bad}, inline=inline_same_module())
                        outs = i.run(f, dict(zip(ps, args)))
                        ctx.check("layout.refuses", f"{name} rank {k} {what}", all(o.kind == "raise" for o in outs), f.loc, f"rows of the wrong {what} are accepted")
        ctx.floor(rule, 8)


def undecided(o):
    """The path depends on a condition that the case does not decide."""
    return any(c not in LARGER for c, _ in o.st.conds)


def compatibility(ctx):
    f = ctx.func(T + "check_tile_compatibility")
    a, b = f.params()[:2]
    rule = "compatibility"
    for k in range(1, 4):
        for bad in product((False, True), repeat=k):
            d = [U[j] if x else mul(N[j], S[j]) for j, x in enumerate(bad)]
            t = [V[j] if x else S[j] for j, x in enumerate(bad)]
            outs = interp(ctx, inline=inline_same_module()).run(f, {a: seq(d), b: seq(t)})
            name = "dimensions " + ",".join("indivisible" if x else "divisible" for x in bad)
            verdict(ctx, rule, name, outs, f.loc, any(bad))
    for d, t in ((2, 1), (1, 2), (3, 2)):
        outs = interp(ctx, inline=inline_same_module()).run(f, {a: seq(S[:d]), b: seq(S[:t])})
        verdict(ctx, rule, f"rank {d} tile rank {t}", outs, f.loc, True)
    ctx.floor(rule, 12)
    ctx.analysed.add(f.qual)


def verdict(ctx, rule, name, outs, loc, refuse):
    sure = [o for o in outs if not undecided(o)]
    if not sure:
        ctx.skip(rule, name, "undecided")
        return
    for o in sure:
        ctx.check(rule, name, (o.kind == "raise") == refuse, loc, "is accepted" if refuse else f"is refused: {fmt(o.val)}")
        if o.kind == "raise" and refuse:
            e = o.val[1] if o.val[0] == "call" else o.val
            ctx.check(rule + ".error", name, ref_name(e).endswith("ValueError"), loc, f"raises {fmt(o.val)} instead of ValueError")


RAISES = "raises"


def tile_sizes(ctx):
    rule = "tile-size"
    d = dims(N[:3], S[:3])
    full = seq(d)
    one = const(1)
    n0, n1, n2 = N[:3]
    t0, t1, t2 = S[:3]
    big = mul(W[0], d[1])
    cases = [
        ("PerTensor()", full, {const("data_shape"), full}, ()),
        ("PerChannel()", full, {seq((one, d[1], d[2]))}, (d[0],)),
        ("PerChannel(1)", full, {seq((d[0], one, d[2]))}, (d[1],)),
        ("PerChannel(-1)", full, {seq((d[0], d[1], one))}, (d[2],)),
        ("PerChannel((0, 2))", full, {seq((one, d[1], one))}, (d[0], d[2])),
        ("PerChannel((0, 1, 2))", full, {seq((one, one, one))}, d),
        ("PerChannel(())", full, {full}, ()),
        ("PerBlock(1, t1)", full, {seq((d[0], t1, d[2]))}, (n1,)),
        ("PerBlock(1, t1, 0)", full, {seq((one, t1, d[2]))}, (d[0], n1)),
        ("PerBlock([0], [t0], [2])", full, {seq((t0, d[1], one))}, (n0, d[2])),
        ("PerBlock((2, 1), (t2, t1), (0,))", full, {seq((one, t1, t2))}, (d[0], n1, n2)),
        ("PerBlock(-1, t2, (0, 1))", full, {seq((one, one, t2))}, (d[0], d[1], n2)),
        ("PerBlock(block_dims=1, block_sizes=t1, per_channel_dims=(2,), strict_blocks=False)", full, {seq((d[0], t1, one))}, (n1, d[2])),
        ("PerBlock(1, t1, (1,))", full, {seq((d[0], t1, d[2]))}, (n1,)),
        ("PerBlock((0, 1), (t0, d1))", full, {seq((t0, d[1], d[2]))}, (n0,)),
        ("PerBlock(1, v1)", full, RAISES, None),
        ("PerBlock((0, 1), (t0, v1))", full, RAISES, None),
        ("PerBlock(1, big)", full, RAISES, None),
        ("PerBlock(1, big, (), False)", full, RAISES, None),
        ("PerBlock((0, 1), (t0,))", full, RAISES, None),
        ("PerTile((t0, t1, t2))", full, {seq((t0, t1, t2))}, (n0, n1, n2)),
        ("PerTile((1, t1, d2))", full, {seq((one, t1, d[2]))}, (d[0], n1)),
        ("PerTile((t0, v1, t2))", full, RAISES, None),
        ("PerTile((t0, t1))", full, RAISES, None),
    ]
    args = {"t0": t0, "t1": t1, "t2": t2, "v1": V[1], "d1": d[1], "d2": d[2], "big": big}
    for ctor, shape, want, count in cases:
        for meth in ("tile_size", "parameter_dimensionality"):
            src = f"def driver(shape, t0, t1, t2, v1, d1, d2, big):\n    return {ctor}.{meth}(shape)\n"
            outs = drive(ctx, G, src, {"shape": shape, **args}, given=LARGER.items())
            sure = [o for o in outs if not undecided(o)]
            r = rule if meth == "tile_size" else "parameter-count"
            if not sure:
                ctx.skip(r, ctor, "undecided")
                continue
            cls = ctx.p.classes.get(f"{G}.{ctor.split('(')[0]}")
            loc = cls.loc if cls else ""
            for o in sure:
                if want == RAISES:
                    ctx.check(r, ctor, o.kind == "raise", loc, f"{ctor}.{meth} of a tensor it does not fit yields {fmt(o.val)}")
                elif o.kind == "raise":
                    ctx.check(r, ctor, False, loc, f"{ctor}.{meth} fails: {fmt(o.val)}")
                elif meth == "tile_size":
                    got = seq(o.val[1:]) if o.val[0] in ("tuple", "list") else o.val
                    ctx.check(r, ctor, got in want, loc, f"the tile size of {ctor} for shape {fmt(shape)} is {fmt(o.val)}")
                else:
                    ctx.check(r, ctor, o.val == (mul(*flat(count)) if count else one), loc, f"the number of parameters of {ctor} for shape {fmt(shape)} is {fmt(o.val)}")
    ctx.floor(rule, 20)
    ctx.floor("parameter-count", 20)


def flat(ms):
    for m in ms:
        stack = [m]
        while stack:
            x = stack.pop()
            if x[0] == "bin":
                stack += [x[2], x[3]]
            else:
                yield x


def inference(ctx):
    f = ctx.func(G + ".granularity_from_sizes")
    rule = "inference"
    kinds = {
        "whole": lambda j: (mul(N[j], S[j]), mul(N[j], S[j])),
        "one": lambda j: (mul(N[j], S[j]), const(1)),
        "block": lambda j: (mul(N[j], S[j]), S[j]),
        "unit": lambda j: (const(1), const(1)),
    }
    src = f"def driver(data, tile):\n    return {f.name}(data, tile).tile_size(data)\n"
    simple = f"def driver(data, tile):\n    return {f.name}(data, tile)\n"
    for k in (1, 2, 3):
        for combo in product(kinds, repeat=k):
            pairs = [kinds[c](j) for j, c in enumerate(combo)]
            d, t = seq(a for a, _ in pairs), seq(b for _, b in pairs)
            name = "sizes " + ",".join(combo)
            for o in drive(ctx, G, src, {"data": d, "tile": t}):
                if undecided(o):
                    ctx.skip(rule, name, "undecided")
                    continue
                got = d if o.val == const("data_shape") else o.val
                ctx.check(rule, name, o.kind == "return" and got[0] in ("tuple", "list") and got[1:] == t[1:], f.loc, f"for data {fmt(d)} and tiles {fmt(t)} the inferred granularity has tile size {fmt(o.val)}")
            for o in drive(ctx, G, simple, {"data": d, "tile": t}):
                if undecided(o) or o.kind != "return" or o.val[0] != "new":
                    continue
                want = "PerTensor" if d == t else ("PerBlock" if "block" in combo else "PerChannel")
                got = o.val[1].rsplit(".", 1)[-1]
                ctx.check("inference.simplest", name, got == want, f.loc, f"{got} instead of {want} is inferred for data {fmt(d)} and tiles {fmt(t)}")
            if combo.count("block"):
                for o in drive(ctx, G, src.replace(".tile_size(data)", ".strict_blocks"), {"data": d, "tile": t}):
                    if not undecided(o) and o.kind == "return" and o.val[0] == "const":
                        ctx.check("inference.strict", name, o.val == TRUE, f.loc, "blocks that divide the data are inferred as not strict")
    ctx.floor(rule, 80)
    # tiles that do not divide the data are only expressed by blocks that need not divide it
    for j, k in ((0, 1), (0, 2), (1, 2)):
        d = [mul(N[x], S[x]) for x in range(k)]
        t = [S[x] for x in range(k)]
        d[j], t[j] = mul(V[j], U[j]), mul(V[j], W[j])
        for o in drive(ctx, G, src, {"data": seq(d), "tile": seq(t)}):
            if undecided(o) or o.kind == "raise":
                continue
            ctx.check("inference.uneven", f"dimension {j} of {k}", o.val[1:] == tuple(t), f.loc, f"the inferred granularity has tile size {fmt(o.val)}")
        strict = f"def driver(data, tile):\n    return {f.name}(data, tile).strict_blocks\n"
        for o in drive(ctx, G, strict, {"data": seq(d), "tile": seq(t)}):
            if o.kind == "return" and o.val[0] == "const":
                ctx.check("inference.uneven", f"strict, dimension {j} of {k}", o.val == FALSE, f.loc, "blocks that do not divide the data are inferred as strict")


EQUAL = [
    ("PerTensor()", "PerTensor()", True),
    ("PerChannel(0)", "PerChannel((0,))", True),
    ("PerChannel((0, 1))", "PerChannel((0, 1))", True),
    ("PerBlock(1, t1, 0)", "PerBlock((1,), (t1,), (0,), True)", True),
    ("PerTile((t0, t1))", "PerTile((t0, t1))", True),
    ("PerChannel(0)", "PerChannel(1)", False),
    ("PerChannel(0)", "PerChannel((0, 1))", False),
    ("PerBlock(1, t1, 0)", "PerBlock(2, t1, 0)", False),
    ("PerBlock(1, t1, 0)", "PerBlock(1, t2, 0)", False),
    ("PerBlock(1, t1, 0)", "PerBlock(1, t1, 2)", False),
    ("PerBlock(1, t1, 0)", "PerBlock(1, t1)", False),
    ("PerBlock(1, t1, 0, True)", "PerBlock(1, t1, 0, False)", False),
    ("PerTile((t0, t1))", "PerTile((t0, t2))", False),
    ("PerTile((2, 4))", "PerTile((4, 2))", False),
    ("PerTile((2, 4))", "PerTile((2, 4, 4))", False),
    ("PerBlock((0, 1), (2, 4))", "PerBlock((0, 1), (4, 2))", False),
    ("PerBlock((0, 1), (4, 4))", "PerBlock((0,), (4,))", False),
    ("PerTensor()", "PerChannel(())", False),
    ("PerChannel(0)", "PerTensor()", False),
    ("PerTile((t0, t1))", "PerTensor()", False),
]


def equality(ctx):
    rule = "equality"
    for l, r, want in EQUAL:
        src = f"def driver(t0, t1, t2):\n    a = {l}\n    return a.__eq__({r})\n"
        outs = drive(ctx, G, src, {"t0": S[0], "t1": S[1], "t2": S[2]})
        sure = [o for o in outs if not undecided(o) and o.kind == "return" and o.val[0] == "const"]
        name = f"{l} == {r}"
        if not sure or len(sure) != len(outs):
            ctx.skip(rule, name, "undecided")
            continue
        cls = ctx.p.classes.get(f"{G}.{l.split('(')[0]}")
        for o in sure:
            ctx.check(rule, name, o.val == const(want), cls.loc if cls else "", f"{name} is {o.val[2]}")
    ctx.floor(rule, 8)
    # no comparison forgets the order or the number of the sizes
    lossy = ("builtin:set", "builtin:frozenset", "builtin:sorted", "builtin:len", "builtin:sum", "ext:math.prod")

    def hidden(side, x):
        return [y[2][0] for y in walk(side) if y[0] == "call" and ref_name(y[1]) in lossy and y[2] and any(z == x for z in walk(y[2][0]))]

    for cq in sorted(ctx.p.subclasses(f"{G}.Granularity")):
        f = ctx.p.classes[cq].methods.get("__eq__")
        if f is None:
            continue
        me, other = (("param", n) for n in f.params()[:2])
        bad = set()
        for o in run(ctx, f, inline=inline_same_module(), types={me: cq, other: cq}, merge=False):
            if o.kind != "return" or o.val == FALSE:
                continue
            facts = [x for t in [c for c, b in o.st.conds if b] + [o.val] for x in walk(t) if x[0] == "cmp" and x[1] == "=="]
            loose = [(x, a, b) for x in facts for a, b in ((hidden(x[2], me), hidden(x[3], other)), (hidden(x[2], other), hidden(x[3], me))) if a and b]
            exact = [x for x in facts if x not in [y[0] for y in loose]]
            for x, a, b in loose:
                if not any({a[0], b[0]} <= set(walk(y)) for y in exact):
                    bad.add("granularities whose dimensions or sizes merely have the same members or number compare equal")
        ctx.check("equality.exact", short(f.qual), not bad, f.loc, "; ".join(bad))
