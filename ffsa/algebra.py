"""Canonical forms of elementwise tensor expressions.

A term of the abstract interpreter that denotes an elementwise computation is
turned into a Laurent polynomial with rational coefficients over atoms, so that
two ways of writing the same formula have the same canonical form. Rounding,
clamping and the like are atoms over canonical polynomials; `where` is resolved
by case distinction over canonical comparison literals. Nothing is evaluated
numerically and no solver is involved.
"""
from __future__ import annotations

from fractions import Fraction

from .absint import ref_name
from .project import FALSE, NONE, TRUE

# ---------------------------------------------------------------- polynomials


def poly(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=repr))


def num(c):
    return poly({(): Fraction(c)})


ZERO, ONE = num(0), num(1)


def atom(a, e=1):
    return poly({((a, e),): Fraction(1)})


def add(*ps):
    d = {}
    for p in ps:
        for m, c in p:
            d[m] = d.get(m, 0) + c
    return poly(d)


def scale(p, k):
    return poly({m: c * k for m, c in p})


def sub(a, b):
    return add(a, scale(b, Fraction(-1)))


def _mm(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=repr))


def mul(a, b):
    d = {}
    for m1, c1 in a:
        for m2, c2 in b:
            m = _mm(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return poly(d)


def inv(p):
    if len(p) == 1:
        m, c = p[0]
        return poly({tuple((a, -e) for a, e in m): 1 / c})
    lead = p[0][1] if p else Fraction(1)
    return scale(atom(("sum", scale(p, 1 / lead)), -1), 1 / lead)


def const_of(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and p[0][0] == ():
        return p[0][1]
    return None


def power(p, q):
    k = const_of(q)
    if k is not None and k.denominator == 1:
        if k < 0:
            return power(inv(p), scale(q, Fraction(-1)))
        r = ONE
        for _ in range(min(int(k), 16)):
            r = mul(r, p)
        return r
    b = const_of(p)
    if b is not None and b > 0:
        # base ** (rest + c) = base**c * base**rest
        c = next((v for m, v in q if m == ()), Fraction(0))
        rest = sub(q, num(c))
        if c.denominator == 1:
            return scale(atom(("pow", b, rest)), b ** int(c))
    return atom(("pow", p, q))


def positive(p):
    """Polynomial that is positive whatever the atoms are (only powers of positive constants)."""
    return bool(p) and all(c > 0 and all(a[0] in ("pow",) and isinstance(a[1], Fraction) for a, _ in m) for m, c in p)


class Need(Exception):
    def __init__(self, lit):
        self.lit = lit


NEG = {"lt": "ge", "le": "gt", "eq": "ne", "ge": "lt", "gt": "le", "ne": "eq"}


def literal(op, p):
    """Canonical comparison `p op 0` as (literal, polarity); literals use lt, le, eq."""
    if op in ("ge", "gt"):
        # p >= 0  <=>  not (p < 0)
        l, pol = literal("lt" if op == "ge" else "le", p)
        return l, not pol
    if op == "ne":
        l, pol = literal("eq", p)
        return l, not pol
    # scale by the magnitude of the leading coefficient; orient so that the leading coefficient is positive
    lead = p[0][1] if p else Fraction(1)
    k = abs(lead)
    p = scale(p, 1 / k) if k else p
    if lead < 0:
        n = scale(p, Fraction(-1))
        if op == "eq":
            return ("eq", n), True
        # -n < 0 <=> n > 0 <=> not (n <= 0)
        return ("le" if op == "lt" else "lt", n), False
    return (op, p), True


class Alg:
    """Evaluates terms to polynomials under a valuation of comparison literals.

    leaf(term, wrap): optional hook naming leaves (returns a polynomial or None);
    strip: names of value-preserving calls removed around elementwise values;
    rounders: callables that round to nearest."""

    STRIP = {"contiguous", "clone", "detach", "requires_grad_", "to", "float", "double", "half", "type", "type_as", "cpu", "cuda"}

    def __init__(self, leaf=None, strip=STRIP, rounders=(), assume=None, shape_strip=()):
        self.leaf = leaf
        self.strip = set(strip)
        self.rounders = set(rounders) | {"ext:torch.round", "builtin:round"}
        self.assume = assume or {}
        self.shape_strip = set(shape_strip)

    # ---- calls
    def op(self, t):
        """(operation name, operand terms, keyword terms) of a call, with function and method spelling unified."""
        fn, args, kw = t[1], list(t[2]), dict(t[3])
        r = ref_name(fn)
        if r in self.rounders:
            return "round", args, kw
        if fn[0] == "ext" and (fn[1].startswith("torch.") or fn[1].startswith("math.")):
            n = fn[1].rsplit(".", 1)[1]
            for k in ("input", "self"):
                if k in kw:
                    args.insert(0, kw.pop(k))
            return n, args, kw
        if fn[0] == "attr":
            return fn[2], [fn[1]] + args, kw
        if fn[0] == "builtin":
            return fn[1], args, kw
        return None, args, kw

    def truth(self, t, w=()):
        """Truth of an elementwise boolean under the current valuation."""
        if t == TRUE or t == FALSE:
            return t == TRUE
        if t[0] == "not":
            return not self.truth(t[1], w)
        if t[0] == "cmp" and t[1] in ("<", "<=", "==", "!=", ">", ">="):
            return self.lit({"<": "lt", "<=": "le", "==": "eq", "!=": "ne", ">": "gt", ">=": "ge"}[t[1]], t[2], t[3], w)
        if t[0] == "bin" and t[1] in ("|", "&", "^"):
            a, b = self.truth(t[2], w), self.truth(t[3], w)
            return a or b if t[1] == "|" else a and b if t[1] == "&" else a != b
        if t[0] == "un" and t[1] in ("~", "not"):
            return not self.truth(t[2], w)
        if t[0] == "item" and self.is_col(t[2]):
            return self.truth(t[1], ("col",) + w)
        if t[0] == "call":
            n, a, kw = self.op(t)
            if n in ("logical_or", "bitwise_or", "__or__") and len(a) == 2:
                x, y = self.truth(a[0], w), self.truth(a[1], w)
                return x or y
            if n in ("logical_and", "bitwise_and", "__and__") and len(a) == 2:
                x, y = self.truth(a[0], w), self.truth(a[1], w)
                return x and y
            if n in ("logical_xor", "bitwise_xor") and len(a) == 2:
                return self.truth(a[0], w) != self.truth(a[1], w)
            if n in ("logical_not", "bitwise_not") and len(a) == 1:
                return not self.truth(a[0], w)
            al = {"less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "not_equal": "ne"}
            n2 = al.get(n, n)
            if n2 in NEG and len(a) == 2:
                return self.lit(n2, a[0], a[1], w)
        return self._ask(("truth", w, t))

    def lit(self, op, l, r, w):
        a, b = self.ev(l, w), self.ev(r, w)
        if op in ("eq", "ne"):
            # x == clamp(x, lo, hi)  <=>  lo <= x <= hi
            for x, y in ((a, b), (b, a)):
                if len(y) == 1 and y[0][1] == 1 and len(y[0][0]) == 1 and y[0][0][0][1] == 1 and y[0][0][0][0][0] == "clamp" and y[0][0][0][0][1] == x:
                    _, _, lo, hi = y[0][0][0][0]
                    inside = (lo is None or not self._lit("lt", sub(x, lo))) and (hi is None or not self._lit("gt", sub(x, hi)))
                    return inside if op == "eq" else not inside
        return self._lit(op, sub(a, b))

    def _lit(self, op, p):
        k = const_of(p)
        if k is not None:
            return {"lt": k < 0, "le": k <= 0, "eq": k == 0, "ge": k >= 0, "gt": k > 0, "ne": k != 0}[op]
        l, pol = literal(op, p)
        v = self._ask(l)
        return v if pol else not v

    def _ask(self, l):
        if l not in self.assume:
            raise Need(l)
        return self.assume[l]

    # ---- values
    @staticmethod
    def is_col(key):
        full = ("slice", NONE, NONE, NONE)
        ell = ("const", "ellipsis", Ellipsis)
        if key[0] != "tuple" or len(key) != 3 or key[2] != NONE:
            return False
        return key[1] == full or key[1] == ell or (key[1][0] == "const" and key[1][2] is Ellipsis)

    def ev(self, t, w=()):
        """Value of `t` under the shape wrappers `w` (innermost first)."""
        w = tuple(k for i, k in enumerate(w) if not (k == "flat" and i and w[i - 1] == "flat"))
        if self.leaf is not None:
            r = self.leaf(t, w)
            if r is not None:
                return r
        h = t[0]
        if h == "const":
            if isinstance(t[2], bool):
                return num(int(t[2]))
            if isinstance(t[2], (int, float)) and t[2] == t[2] and abs(t[2]) != float("inf"):
                return num(Fraction(t[2]))
            return atom(("leaf", (), t))
        if h == "un" and t[1] in ("-", "+"):
            p = self.ev(t[2], w)
            return scale(p, Fraction(-1)) if t[1] == "-" else p
        if h == "bin":
            op = t[1]
            if op in ("+", "-", "*", "/", "**"):
                a, b = self.ev(t[2], w), self.ev(t[3], w)
                return self.arith(op, a, b)
            if op in ("//", "%"):
                return atom((op, self.ev(t[2], w), self.ev(t[3], w)))
            if op == "<<":
                return mul(self.ev(t[2], w), power(num(2), self.ev(t[3], w)))
        if h in ("list", "tuple") and len(t) == 2:
            return self.ev(t[1], w)
        if h == "item" and self.is_col(t[2]):
            return self.ev(t[1], ("col",) + w)
        if h == "ite":
            return self.ev(t[2] if self.truth(t[1], w) else t[3], w)
        if h == "call":
            r = self.call(t, w)
            if r is not None:
                return r
        return atom(("leaf", w, t))

    def arith(self, op, a, b):
        return {"+": add, "-": sub, "*": mul, "/": lambda x, y: mul(x, inv(y)), "**": power}[op](a, b)

    def clamp(self, x, lo, hi):
        """clamp with one- and two-sided nesting merged."""
        if len(x) == 1 and x[0][1] == 1 and len(x[0][0]) == 1 and x[0][0][0][1] == 1 and x[0][0][0][0][0] == "clamp":
            _, y, lo0, hi0 = x[0][0][0][0]
            if (lo is None or lo0 is None) and (hi is None or hi0 is None):
                return self.clamp(y, lo if lo is not None else lo0, hi if hi is not None else hi0)
        return atom(("clamp", x, lo, hi))

    def call(self, t, w):
        n, a, kw = self.op(t)
        if n is None:
            return None
        E = lambda x: self.ev(x, w)
        alpha = E(kw["alpha"]) if "alpha" in kw else ONE
        if n in ("add", "__add__") and len(a) == 2:
            return add(E(a[0]), mul(alpha, E(a[1])))
        if n in ("sub", "subtract", "__sub__") and len(a) == 2:
            return sub(E(a[0]), mul(alpha, E(a[1])))
        if n in ("rsub", "__rsub__") and len(a) == 2:
            return sub(E(a[1]), mul(alpha, E(a[0])))
        if n in ("mul", "multiply", "__mul__") and len(a) == 2:
            return mul(E(a[0]), E(a[1]))
        if n in ("div", "divide", "true_divide", "__truediv__") and len(a) == 2 and "rounding_mode" not in kw:
            return mul(E(a[0]), inv(E(a[1])))
        if n in ("neg", "negative") and len(a) == 1:
            return scale(E(a[0]), Fraction(-1))
        if n == "reciprocal" and len(a) == 1:
            return inv(E(a[0]))
        if n == "square" and len(a) == 1:
            p = E(a[0])
            return mul(p, p)
        if n == "ldexp" and len(a) == 2:
            return mul(E(a[0]), power(num(2), E(a[1])))
        if n == "exp2" and len(a) == 1:
            return power(num(2), E(a[0]))
        if n in ("pow", "__pow__", "float_power") and len(a) == 2:
            return power(E(a[0]), E(a[1]))
        if n in ("copy", "copy_") and len(a) == 2:
            return E(a[1])
        if n in ("fill", "fill_") and len(a) == 2:
            return E(a[1])
        if n in ("zero", "zero_") and len(a) == 1:
            return ZERO
        if n in ("abs", "absolute") and len(a) == 1:
            p = E(a[0])
            if positive(p):
                return p
            if positive(scale(p, Fraction(-1))):
                return scale(p, Fraction(-1))
            m = scale(p, Fraction(-1))
            # 2**(b-1) - 1 and its kind stay symbolic: orient the argument
            return atom(("abs", max(p, m, key=repr)))
        if n in ("round", "floor", "ceil", "trunc", "sqrt", "exp", "log2", "log", "sign") and len(a) == 1 and not kw:
            p = E(a[0])
            k = const_of(p)
            if n == "round" and k is not None and k.denominator == 1:
                return p
            if n == "round" and len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1 and p[0][0][0][1] == 1 and p[0][0][0][0][0] == "round":
                return p
            return atom((n, p))
        if n in ("clamp", "clip", "clamp_min", "clamp_max"):
            x = E(a[0])
            lo = hi = None
            if n == "clamp_min":
                lo = a[1] if len(a) > 1 else kw.get("min")
            elif n == "clamp_max":
                hi = a[1] if len(a) > 1 else kw.get("max")
            else:
                lo = a[1] if len(a) > 1 else kw.get("min")
                hi = a[2] if len(a) > 2 else kw.get("max")
            return self.clamp(x, E(lo) if lo is not None and lo != NONE else None, E(hi) if hi is not None and hi != NONE else None)
        if n in ("max", "maximum", "min", "minimum", "fmax", "fmin") and len(a) == 2 and not kw and not (n in ("max", "min") and a[1][0] == "const" and t[1][0] != "builtin"):
            x, y = E(a[0]), E(a[1])
            kind = "max" if "max" in n else "min"
            if x == y:
                return x
            return atom((kind, tuple(sorted((x, y), key=repr))))
        if n == "where" and len(a) == 3:
            if t[1][0] == "attr":  # x.where(cond, y)
                return E(a[0]) if self.truth(a[1], w) else E(a[2])
            return E(a[1]) if self.truth(a[0], w) else E(a[2])
        if n in ("masked_fill", "masked_fill_") and len(a) == 3:
            return E(a[2]) if self.truth(a[1], w) else E(a[0])
        if n in ("zeros_like", "zeros", "new_zeros"):
            return ZERO
        if n in ("ones_like", "ones", "new_ones"):
            return ONE
        if n == "full_like" and len(a) >= 2:
            return E(a[1])
        if n == "new_full" and len(a) >= 3:
            return E(a[2])
        if n == "new_tensor" and len(a) >= 2:
            return E(a[1])
        if n in ("tensor", "as_tensor") and len(a) >= 1:
            return E(a[0])
        if t[1][0] == "builtin" and n in ("float", "int", "bool") and len(a) == 1:
            return E(a[0])
        if n in self.strip and a:
            return E(a[0])
        if n in ("unsqueeze",) and len(a) == 2 and a[1][0] == "const" and a[1][2] in (1, -1):
            return self.ev(a[0], ("col",) + w)
        if n in ("reshape", "view") and len(a) >= 2:
            dims = a[1:]
            if len(dims) == 1 and dims[0][0] in ("tuple", "list"):
                dims = list(dims[0][1:])
            vals = [d[2] if d[0] == "const" else None for d in dims]
            if vals == [-1]:
                return self.ev(a[0], ("flat",) + w)
            if vals == [-1, 1]:
                return self.ev(a[0], ("flat", "col") + w)
        if n in ("flatten", "ravel") and len(a) == 1:
            return self.ev(a[0], ("flat",) + w)
        if n in self.shape_strip and a:
            return E(a[0])
        return None


def cases(fns, leaf=None, known=None, exclusive=(), limit=256, **kw):
    """Evaluate the functions alg -> value under every valuation of the comparison
    literals they ask for. Yields (valuation, [values]). `exclusive`: pairs of
    literals that cannot both be true; `known`: literals with a fixed value."""
    todo, n = [dict(known or {})], 0
    while todo:
        v = todo.pop()
        n += 1
        if n > limit:
            raise Need(("limit",))
        alg = Alg(leaf=leaf, assume=v, **kw)
        try:
            vals = [f(alg) for f in fns]
        except Need as e:
            if e.lit == ("limit",):
                raise
            for b in (True, False):
                w = {**v, e.lit: b}
                if not any(w.get(x) == vx and w.get(y) == vy for (x, vx), (y, vy) in exclusive):
                    todo.append(w)
            continue
        yield v, vals


def show(p):
    if not p:
        return "0"
    out = []
    for m, c in p:
        fs = [] if c == 1 and m else [str(c)]
        for a, e in m:
            s = show_atom(a)
            fs.append(s if e == 1 else f"{s}^{e}")
        out.append("*".join(fs))
    return " + ".join(out)


def show_atom(a):
    if a[0] == "leaf":
        from .absint import fmt

        s = a[2] if isinstance(a[2], str) else fmt(a[2])
        return "".join(f"{k}." for k in a[1]) + s
    if a[0] == "clamp":
        return f"clamp({show(a[1])}, {show(a[2]) if a[2] is not None else '-'}, {show(a[3]) if a[3] is not None else '-'})"
    if a[0] == "pow":
        return f"({a[1] if isinstance(a[1], Fraction) else show(a[1])})^({show(a[2])})"
    if a[0] in ("max", "min"):
        return f"{a[0]}({', '.join(show(x) for x in a[1])})"
    return f"{a[0]}({', '.join(_show(x) for x in a[1:])})"


def is_poly(x):
    return isinstance(x, tuple) and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], Fraction) for y in x)


def _show(x):
    from .absint import fmt

    if is_poly(x):
        return show(x)
    return fmt(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x)
