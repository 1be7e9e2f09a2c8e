"""Interpreter variant for shape arithmetic: sequences whose elements are known terms are
computed with (length, range, slicing, concatenation, generators), and the shapes of tensors
are tracked through reshape and permute.  Dimensions stay symbolic."""
from __future__ import annotations

import ast

from .absint import Ev, Interp, Out, State, _is_generator, contains, ref_name
from .project import FALSE, NONE, TRUE, const


class CInterp(Interp):
    def __init__(self, proj, shapes=None, given=(), sizes=(), heap=None, exact=True, **kw):
        super().__init__(proj, **kw)
        self.shapes = dict(shapes or {})
        self.given = list(given)
        self.sizes = set(sizes)  # symbols for sizes > 1 in general position (distinct products are distinct)
        self.exact = exact  # the declared types are the exact classes
        self.heap0 = dict(heap or {})

    # ---- sizes: monomials over the size symbols
    def mono(self, t):
        """(coefficient, sorted symbols) of a product of size symbols and integers, or None."""
        if t in self.sizes:
            return (1, (t,))
        if t[0] == "const" and type(t[2]) is int:
            return (t[2], ())
        if t[0] == "bin" and t[1] == "*":
            a, b = self.mono(t[2]), self.mono(t[3])
            if a and b:
                return (a[0] * b[0], tuple(sorted(a[1] + b[1])))
        return None

    @staticmethod
    def term(m):
        xs = list(m[1])
        if m[0] != 1 or not xs:
            xs = [const(m[0])] + xs
        r = xs[0]
        for x in xs[1:]:
            r = ("bin", "*", r, x)
        return r

    @staticmethod
    def quotient(a, b):
        if b[0] == 0 or a[0] % b[0]:
            return None
        rest = list(a[1])
        for x in b[1]:
            if x not in rest:
                return None
            rest.remove(x)
        return (a[0] // b[0], tuple(rest))

    def compare(self, op, l, r):
        """Truth of a comparison of sizes, or None."""
        for a, b in ((l, r), (r, l)):
            if op == "==" and a[0] == "bin" and a[1] == "%" and b == const(0):
                x, y = self.mono(a[2]), self.mono(a[3])
                if x and y and (x[1] or y[1]):
                    return self.quotient(x, y) is not None
            if op == "==" and a[0] == "bin" and a[1] == "/":
                x, y, z = self.mono(a[2]), self.mono(a[3]), self.mono(b)
                if x and y and z:
                    return self.compare("==", a[2], self.term((y[0] * z[0], tuple(sorted(y[1] + z[1])))))
        a, b = self.mono(l), self.mono(r)
        if a is None or b is None or not (a[1] or b[1]):
            return None
        if op == "==":
            return a == b
        if a == b:
            return op == "<="
        if a[0] > 0 and (self.quotient(b, a) or (0,))[0] > 0:
            return True
        if b[0] > 0 and (self.quotient(a, b) or (0,))[0] > 0:
            return False
        if not a[1]:
            return True if a[0] <= 2 ** len(b[1]) * b[0] - 1 and b[0] > 0 else None
        if not b[1]:
            return False if a[0] > 0 and b[0] <= 2 ** len(a[1]) * a[0] - 1 else None
        return None

    # ---- literals
    def lit(self, t):
        """Elements of a literal sequence, or None."""
        if t[0] in ("tuple", "list", "vec", "set") and not any(x[0] == "star" for x in t[1:]):
            return list(t[1:])
        return None

    def dims(self, t):
        """Shape of a tensor term (tuple of dimension terms), or None."""
        if t in self.shapes:
            return self.shapes[t]
        if t[0] == "call" and t[1][0] == "attr":
            nm, base, args = t[1][2], t[1][1], list(t[2])
        elif t[0] == "call" and t[1][0] == "ext" and t[1][1].startswith("torch.") and t[2]:
            nm, base, args = t[1][1].rsplit(".", 1)[1], t[2][0], list(t[2][1:])
        else:
            return None
        if len(args) == 1 and args[0][0] in ("tuple", "list"):
            args = list(args[0][1:])
        args += [v for k, v in t[3] if k in ("shape", "size", "dims")]
        if len(args) == 1 and args[0][0] in ("tuple", "list"):
            args = list(args[0][1:])
        if nm in ("reshape", "view"):
            return tuple(args) if not any(a == const(-1) for a in args) else None
        src = self.dims(base)
        if src is None:
            return None
        if nm == "permute" and all(a[0] == "const" and isinstance(a[2], int) for a in args) and len(args) == len(src):
            return tuple(src[a[2]] for a in args)
        if nm in ("transpose", "swapaxes") and len(args) == 2 and all(a[0] == "const" for a in args):
            r = list(src)
            i, j = args[0][2], args[1][2]
            r[i], r[j] = r[j], r[i]
            return tuple(r)
        if nm in ("contiguous", "clone", "detach", "to"):
            return src
        return None

    def concrete_items(self, it, s):
        if it[0] == "call" and it[1][0] == "builtin" and it[1][1] == "zip" and it[2]:
            cols, cyc = [], []
            for a in it[2]:
                if a[0] == "call" and a[1] in (("ext", "itertools.cycle"), ("ext", "itertools.repeat")) and len(a[2]) == 1:
                    xs = self.concrete_items(a[2][0], s) if a[1][1].endswith("cycle") else [a[2][0]]
                    cols.append(xs)
                    cyc.append(True)
                else:
                    cols.append(self.concrete_items(a, s))
                    cyc.append(False)
            if all(c is not None for c in cols) and not all(cyc):
                n = min(len(c) for c, y in zip(cols, cyc) if not y)
                if all(c or not n for c, y in zip(cols, cyc) if y):
                    cols = [[c[i % len(c)] for i in range(n)] if y else c[:n] for c, y in zip(cols, cyc)]
                    return [("tuple",) + r for r in zip(*cols)]
            return None
        if it[0] in ("tuple", "list", "vec", "set"):
            return self.lit(it)
        if it[0] == "dict":
            d = self.pairs(it)
            return None if d is None else list(d)
        r = super().concrete_items(it, s)
        return r

    # ---- operators
    def binop(self, op, l, r):
        if op == "*":
            for a, b in ((l, r), (r, l)):
                if a[0] in ("tuple", "list") and b[0] == "const" and isinstance(b[2], int) and self.lit(a) is not None and b[2] <= 16:
                    return (a[0],) + tuple(self.lit(a)) * b[2]
        if op in ("+",) and l[0] in ("tuple", "list") and r[0] in ("tuple", "list"):
            return super().binop(op, l, r) if l[0] == r[0] else ("bin", op, l, r)
        if l[0] == "vec" or r[0] == "vec":
            ls, rs = (self.lit(x) if x[0] == "vec" else None for x in (l, r))
            n = len(ls if ls is not None else rs)
            ls = ls if ls is not None else [l] * n
            rs = rs if rs is not None else [r] * n
            if len(ls) == len(rs):
                return ("vec",) + tuple(self.binop(op, a, b) for a, b in zip(ls, rs))
        if op in ("*", "//", "/", "%"):
            a, b = self.mono(l), self.mono(r)
            if a and b and (a[1] or b[1]):
                if op == "*":
                    return self.term((a[0] * b[0], tuple(sorted(a[1] + b[1]))))
                q = self.quotient(a, b)
                if q is not None:
                    return const(0) if op == "%" else self.term(q)
            if op in ("//", "/") and r == const(1) or op == "*" and r == const(1):
                return l
            if op == "*" and l == const(1):
                return r
        return super().binop(op, l, r)

    def truth(self, t, st):
        if t[0] == "cmp" and t[1] in ("==", "is"):
            ls, rs = self.lit(t[2]), self.lit(t[3])
            if ls is not None and rs is not None:
                if t[2] == t[3]:
                    return True
                if len(ls) != len(rs):
                    return False
                vs = [self.truth(("cmp", "==", a, b), st) for a, b in zip(ls, rs)]
                if any(v is False for v in vs):
                    return False
                if all(v is True for v in vs):
                    return True
            elif (ls is not None and t[3][0] == "const") or (rs is not None and t[2][0] == "const"):
                return False
            elif t[2] == t[3]:
                return True
        if t[0] == "cmp" and t[1] == "in":
            rs = self.lit(t[3]) if t[3][0] != "dict" else (list(self.pairs(t[3])) if self.pairs(t[3]) is not None else None)
            if rs is not None:
                vs = [self.truth(("cmp", "==", t[2], x), st) for x in rs]
                if any(v is True for v in vs):
                    return True
                if all(v is False for v in vs):
                    return False
        if t[0] == "cmp" and t[1] in ("==", "<", "<=") and t[2][0] == "const" and t[3][0] == "const":
            a, b = t[2][2], t[3][2]
            try:
                return {"==": a == b, "<": a < b, "<=": a <= b}[t[1]]
            except TypeError:
                pass
        if t[0] == "cmp" and t[1] in ("==", "<", "<="):
            r = self.compare(*t[1:])
            if r is not None:
                return r
        m = self.mono(t)
        if m and m[1]:
            return m[0] != 0
        if t[0] == "bin" and t[1] == "%":
            r = self.compare("==", t, const(0))
            if r is not None:
                return not r
        if t[0] in ("tuple", "list") and self.lit(t) is not None:
            return len(t) > 1
        if t[0] == "isinstance" and t[1] in self.sizes or t[0] == "isinstance" and self.mono(t[1]):
            if t[2][0] in ("ext", "builtin"):
                return t[2][1].rsplit(".", 1)[-1] in ("int", "Integral", "Number", "object")
        if t[0] == "isinstance" and t[1][0] == "new" and t[2][0] == "class":
            return self.p.is_subclass(t[1][1], t[2][1])
        if t[0] == "isinstance" and t[1] in self.types and t[2][0] == "class" and self.exact:
            return self.p.is_subclass(self.types[t[1]], t[2][1])
        if t[0] == "call" and t[1] == ("ext", "dataclasses.is_dataclass") and t[2] and t[2][0][0] in ("new", "class"):
            return self.p.is_dataclass(t[2][0][1])
        if t[0] == "new":
            return True
        if t[0] == "cmp" and t[1] in ("is", "==") and t[2][0] == "class" and t[3][0] == "class":
            return t[2] == t[3]
        if t[0] == "isinstance" and self.lit(t[1]) is not None and t[2][0] in ("ext", "builtin"):
            return t[2][1].rsplit(".", 1)[-1] in ("Sequence", "Iterable", "Collection", "Sized", "Size", t[1][0])
        return super().truth(t, st)

    # ---- attributes and calls
    def class_of(self, t):
        if t[0] == "new":
            return ("class", t[1])
        return None

    def literal_attr(self, cls, name):
        """Literal value of a class attribute as a term, or None."""
        r = self.p.class_attr(cls, name)
        if r is None:
            return None
        node = r[1][1] if isinstance(r[1], tuple) else r[1]
        try:
            v = ast.literal_eval(node)
        except (ValueError, TypeError):
            return None

        def lift(x):
            return (type(x).__name__,) + tuple(map(lift, x)) if isinstance(x, (tuple, list)) else const(x)

        return lift(v)

    def dataclass_fields(self, t):
        cq = t[1] if t[0] in ("new", "class") else self.types.get(t)
        if cq is None or not self.p.is_dataclass(cq):
            return None
        return [n for n, _ in self.p.fields(cq)]

    def construct(self, cq, args, kws, st, f):
        """A dataclass instance with its fields on the heap, or None."""
        fields = self.p.fields(cq)
        vals = dict(zip([n for n, _ in fields], args))
        if len(args) > len(fields) or any(k not in dict(fields) or k in vals for k, _ in kws):
            return None
        vals.update(dict(kws))
        s = st.copy()
        s.nfresh += 1
        obj = ("new", cq, s.nfresh)
        for n, d in fields:
            if n not in vals:
                if d is None:
                    return None
                try:
                    vals[n] = const(ast.literal_eval(d))
                except ValueError:
                    vals[n] = ("default", cq, n)
            s = s.hset((obj, n), vals[n])
        return self.V(s, obj)

    def getattr(self, b, attr, st):
        if b[0] == "dcfield" and attr == "name":
            return b[1]
        if attr == "__dataclass_fields__" and self.dataclass_fields(b) is not None:
            return self.mkdict({const(n): ("dcfield", const(n)) for n in self.dataclass_fields(b)})
        if attr in ("shape", "ndim"):
            d = self.dims(b)
            if d is not None:
                return ("tuple",) + tuple(d) if attr == "shape" else const(len(d))
        return super().getattr(b, attr, st)

    def item(self, b, key, st):
        if b[0] == "dict" and self.pairs(b) is not None and key in self.pairs(b):
            return self.pairs(b)[key]
        xs = self.lit(b)
        if xs is not None and key[0] == "const" and isinstance(key[2], int) and -len(xs) <= key[2] < len(xs):
            return xs[key[2]]
        if xs is not None and key[0] == "slice" and all(x == NONE or x[0] == "const" for x in key[1:]):
            return (b[0],) + tuple(xs[slice(*(None if x == NONE else x[2] for x in key[1:]))])
        return super().item(b, key, st)

    def run(self, func, args=None, self_term=("param", "self"), depth=0):
        self._seed = True
        return super().run(func, args, self_term, depth)

    def block(self, body, st, func):
        if getattr(self, "_seed", False):
            self._seed = False
            for c, b in self.given:
                st = st.cond(c, b)
            if self.heap0:
                st = st.copy()
                st.heap = {**st.heap, **self.heap0}
        return super().block(body, st, func)

    def assign(self, t, v, st, f, n, aug=False):
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            cur = st.env.get(t.value.id)
            if cur is not None and self.pairs(cur) is not None:
                outs = []
                for o in self.eval(t.slice, st, f):
                    if o.kind != "value" or o.val[0] != "const":
                        return super().assign(t, v, st, f, n, aug)
                    s = self.emit(o.st, Ev("setitem", "", cur, (o.val,), (), v, self.loc(n, f), f.qual))
                    outs.append(Out("normal", s.set(t.value.id, self.mkdict({**self.pairs(cur), o.val: v})), NONE))
                return outs
            if cur is not None and cur[0] == "list" and self.lit(cur) is not None:
                outs = []
                for o in self.eval(t.slice, st, f):
                    if o.kind != "value" or o.val[0] != "const" or not isinstance(o.val[2], int) or not -len(cur) < o.val[2] < len(cur) - 1:
                        return super().assign(t, v, st, f, n, aug)
                    xs = self.lit(cur)
                    xs[o.val[2]] = v
                    s = self.emit(o.st, Ev("setitem", "", cur, (o.val,), (), v, self.loc(n, f), f.qual))
                    outs.append(Out("normal", s.set(t.value.id, ("list",) + tuple(xs)), NONE))
                return outs
        return super().assign(t, v, st, f, n, aug)

    def pairs(self, t):
        """{key constant: value} of a literal dictionary term, or None."""
        if t[0] == "dict" and all(x[0] == "pair" and x[1][0] == "const" for x in t[1:]):
            d = {}
            for x in t[1:]:
                d[x[1]] = x[2]
            return d
        return None

    @staticmethod
    def mkdict(d):
        return ("dict",) + tuple(("pair", k, v) for k, v in d.items())

    def e_Dict(self, e, st, f):
        if not e.keys:
            return self.V(st, ("dict",))
        return super().e_Dict(e, st, f)

    def e_DictComp(self, e, st, f):
        if len(e.generators) == 1:
            pair = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
            r = self._comp_known("list", e, [pair], st, f)
            if r is not None and all(o.kind != "value" or all(x[0] == "tuple" and len(x) == 3 and x[1][0] == "const" for x in o.val[1:]) for o in r):
                return [Out("value", o.st, self.mkdict({x[1]: x[2] for x in o.val[1:]})) if o.kind == "value" else o for o in r]
        return super().e_DictComp(e, st, f)

    def known_items(self, it, st):
        if it[0] in ("dict", "vec", "set"):
            return self.concrete_items(it, st)
        return super().known_items(it, st)

    def s_Delete(self, n, st, f):
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            d = self.pairs(st.env.get(t.value.id, NONE))
            if d is not None:
                outs = []
                for o in self.eval(t.slice, st, f):
                    if o.kind != "value" or o.val not in d:
                        return super().s_Delete(n, st, f)
                    d2 = {k: v for k, v in d.items() if k != o.val}
                    outs.append(Out("normal", o.st.set(t.value.id, self.mkdict(d2)), NONE))
                return outs
        return super().s_Delete(n, st, f)

    def e_List(self, e, st, f):
        """Lists are values here; named ones are updated by rebinding the name."""
        if not e.elts:
            return self.V(st, ("list",))
        return super().e_List(e, st, f)

    def e_Call(self, e, st, f, as_cm=False):
        # in-place methods of a named literal dictionary or list
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.attr in ("update", "pop", "setdefault"):
            nm, a = e.func.value.id, e.func.attr
            d = self.pairs(st.env.get(nm, NONE))
            if d is not None:
                def ku(s, vs):
                    pos = vs[: len(e.args)]
                    d2 = dict(self.pairs(s.env[nm]))
                    if a == "update":
                        extra = dict(zip([k.arg for k in e.keywords], vs[len(e.args) :]))
                        for src in pos + [v for k, v in extra.items() if k is None]:
                            if self.pairs(src) is None:
                                return super(CInterp, self).e_Call(e, s, f, as_cm)
                            d2.update(self.pairs(src))
                        d2.update({const(k): v for k, v in extra.items() if k is not None})
                        return self.V(s.set(nm, self.mkdict(d2)), NONE)
                    if not pos or pos[0][0] != "const":
                        return super(CInterp, self).e_Call(e, s, f, as_cm)
                    if a == "pop":
                        v = d2.pop(pos[0], pos[1] if len(pos) > 1 else None)
                        if v is None:
                            return super(CInterp, self).e_Call(e, s, f, as_cm)
                    else:
                        v = d2.setdefault(pos[0], pos[1] if len(pos) > 1 else NONE)
                    return self.V(s.set(nm, self.mkdict(d2)), v)

                if sum(k.arg is None for k in e.keywords) <= 1:
                    return self.seq(list(e.args) + [k.value for k in e.keywords], st, f, ku)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.attr in ("append", "extend", "insert", "reverse"):
            nm = e.func.value.id
            cur = st.env.get(nm)
            if cur is not None and cur[0] == "list" and self.lit(cur) is not None and not e.keywords:
                def k(s, vs):
                    xs = self.lit(cur)
                    a = e.func.attr
                    if a == "append" and len(vs) == 1:
                        xs.append(vs[0])
                    elif a == "extend" and len(vs) == 1 and self.concrete_items(vs[0], s) is not None:
                        xs += self.concrete_items(vs[0], s)
                    elif a == "insert" and len(vs) == 2 and vs[0][0] == "const":
                        xs.insert(vs[0][2], vs[1])
                    elif a == "reverse":
                        xs.reverse()
                    else:
                        return super(CInterp, self).e_Call(e, s, f, as_cm)
                    return self.V(s.set(nm, ("list",) + tuple(xs)), NONE)

                return self.seq(e.args, st, f, k)
        return super().e_Call(e, st, f, as_cm)

    def call(self, fn, args, kws, st, f, node, as_cm=False):
        if fn[0] == "class" and self.ctor_inline(fn[1]) and self.p.is_dataclass(fn[1]) and self.p.find_method(fn[1], "__init__") is None and self.p.find_method(fn[1], "__post_init__") is None:
            r = self.construct(fn[1], args, kws, st, f)
            if r is not None:
                return r
        if fn in (("ext", "dataclasses.fields"), ("ext", "dataclasses.asdict")) and len(args) == 1 and not kws:
            ns = self.dataclass_fields(args[0])
            if ns is not None and fn[1].endswith("fields"):
                return self.V(st, ("list",) + tuple(("dcfield", const(n)) for n in ns))
            if ns is not None:
                return self.V(st, self.mkdict({const(n): self.getattr(args[0], n, st) for n in ns}))
        if fn in (("ext", "dataclasses.replace"), ("ext", "copy.replace")) and len(args) == 1:
            ns = self.dataclass_fields(args[0])
            cq = args[0][1] if args[0][0] == "new" else self.types.get(args[0])
            if ns is not None and all(k in ns for k, _ in kws) and self.ctor_inline(cq):
                vals = {n: self.getattr(args[0], n, st) for n in ns}
                vals.update(dict(kws))
                r = self.construct(cq, [], list(vals.items()), st, f)
                if r is not None:
                    return r
        if fn == ("builtin", "dict") and len(args) <= 1 and not any(k in (None, "**") for k, _ in kws):
            d = {} if not args else self.pairs(args[0])
            if d is not None:
                return self.V(st, self.mkdict({**d, **{const(k): v for k, v in kws}}))
        if fn[0] == "attr" and fn[1][0] == "dict" and self.pairs(fn[1]) is not None and not kws:
            d = self.pairs(fn[1])
            if fn[2] in ("keys", "values", "items") and not args:
                return self.V(st, ("list",) + tuple(list(d) if fn[2] == "keys" else (d.values() if fn[2] == "values" else (("tuple", k, v) for k, v in d.items()))))
            if fn[2] == "copy" and not args:
                return self.V(st, fn[1])
            if fn[2] == "get" and args and args[0][0] == "const":
                return self.V(st, d.get(args[0], args[1] if len(args) > 1 else NONE))
        if fn[0] == "builtin" and not kws:
            if fn[1] == "len" and len(args) == 1:
                xs = self.concrete_items(args[0], st)
                if xs is not None:
                    return self.V(st, const(len(xs)))
            if fn[1] == "range" and args and all(a[0] == "const" and isinstance(a[2], int) for a in args):
                r = range(*(a[2] for a in args))
                if len(r) <= 64:
                    return self.V(st, ("list",) + tuple(const(x) for x in r))
            if fn[1] == "type" and len(args) == 1 and self.class_of(args[0]):
                return self.V(st, self.class_of(args[0]))
            if fn[1] == "getattr" and len(args) in (2, 3) and args[1][0] == "const":
                b, nm = args[0], args[1][2]
                if b[0] == "new" and (b, nm) in st.heap:
                    return self.V(st, st.heap[(b, nm)])
                if self.dataclass_fields(b) and nm in self.dataclass_fields(b):
                    return self.V(st, self.getattr(b, nm, st))
                if b[0] in ("class", "new"):
                    v = self.literal_attr(b[1], nm)
                    if v is None and len(args) == 3 and self.p.class_attr(b[1], nm) is None and self.p.find_method(b[1], nm) is None and b[0] == "class":
                        v = args[2]
                    if v is not None:
                        return self.V(st, v)
            if fn[1] in ("list", "tuple") and not args:
                return self.V(st, (fn[1],))
            if fn[1] in ("list", "tuple", "reversed", "iter", "sorted") and len(args) == 1:
                xs = self.concrete_items(args[0], st)
                if xs is not None and (fn[1] != "sorted" or all(x[0] == "const" for x in xs)):
                    if fn[1] == "sorted":
                        xs = sorted(xs, key=lambda x: x[2])
                    if fn[1] == "reversed":
                        xs = xs[::-1]
                    return self.V(st, ("tuple" if fn[1] == "tuple" else "list",) + tuple(xs))
            if fn[1] in ("int", "float") and len(args) == 1 and args[0][0] == "const":
                return self.V(st, const(int(args[0][2]) if fn[1] == "int" else float(args[0][2])))
            if fn[1] in ("enumerate", "zip") and args:
                xs = self.concrete_items(("call", fn, tuple(args), ()), st)
                if xs is not None:
                    return self.V(st, ("list",) + tuple(xs))
            if fn[1] in ("any", "all") and len(args) == 1:
                xs = self.concrete_items(args[0], st)
                if xs is not None:
                    args = [("list",) + tuple(xs)]
        if fn == ("ext", "torch.Size") and len(args) == 1 and not kws:
            xs = self.concrete_items(args[0], st)
            if xs is not None:
                return self.V(st, ("tuple",) + tuple(xs))
        if fn in (("ext", "torch.tensor"), ("ext", "torch.as_tensor"), ("ext", "numpy.array")) and args and self.lit(args[0]) is not None:
            return self.V(st, ("vec",) + tuple(self.lit(args[0])))
        if fn in (("ext", "itertools.chain"), ("ext", "itertools.chain.from_iterable")) and not kws:
            src = args if not fn[1].endswith("iterable") else (self.concrete_items(args[0], st) if args else None)
            cols = [self.concrete_items(a, st) for a in src] if src is not None else [None]
            if all(c is not None for c in cols):
                return self.V(st, ("list",) + tuple(x for c in cols for x in c))
        if fn == ("ext", "math.prod") and len(args) == 1 and self.concrete_items(args[0], st) is not None:
            return self.V(st, self.prod(self.concrete_items(args[0], st)))
        if fn[0] == "attr":
            b, nm = fn[1], fn[2]
            d = self.dims(b)
            if d is not None:
                if nm == "size" and not args and not kws:
                    return self.V(st, ("tuple",) + tuple(d))
                if nm == "size" and len(args) == 1 and args[0][0] == "const":
                    return self.V(st, d[args[0][2]])
                if nm in ("dim", "ndimension") and not args:
                    return self.V(st, const(len(d)))
                if nm == "numel" and not args:
                    return self.V(st, self.prod(d))
            xs = self.lit(b)
            if xs is not None:
                if nm == "numel" and not args:
                    return self.V(st, self.prod(xs))
                if nm in ("tolist", "copy") and not args:
                    return self.V(st, ("list",) + tuple(xs))
                if nm == "index" and len(args) == 1 and args[0] in xs:
                    return self.V(st, const(xs.index(args[0])))
        if fn[0] in ("func", "bound"):
            target = self.p.funcs.get(fn[1])
            if target is not None and not target.is_cm and _is_generator(target) and self._may_inline(target):
                mark = len(st.events)
                full = ([fn[2]] if fn[0] == "bound" else []) + list(args)
                outs = self.inline_call(target, full, dict(kws), st, f, node, bound=True)
                res = []
                for o in outs:
                    if o.kind != "value":
                        res.append(o)
                        continue
                    items, ok = [], True
                    for e in o.st.events[mark:]:
                        if e.kind == "yield" and e.func == target.qual:
                            if e.name == "from":
                                xs = self.concrete_items(e.extra[0], o.st)
                                ok = ok and xs is not None
                                items += xs or []
                            else:
                                items.append(e.value)
                    res.append(Out("value", o.st, ("list",) + tuple(items)) if ok else Out("value", o.st, ("call", fn, tuple(args), tuple(sorted(kws)))))
                return res
        return super().call(fn, args, kws, st, f, node, as_cm)

    def prod(self, xs):
        r = const(1)
        for x in xs:
            r = self.binop("*", r, x)
        return r
