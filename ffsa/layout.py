"""Element layouts: a term over tensors of known small shapes is unfolded into one expression per
element.  Shapes and positions are computed from the term; the elements themselves stay symbolic
leaves, so what is decided is which element lands where and by which formula."""
from __future__ import annotations

import itertools

from .absint import ref_name


class Unknown(Exception):
    pass


INT = {"int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True), "long": (64, True), "int": (32, True), "short": (16, True), "uint8": (8, False), "uint16": (16, False), "uint32": (32, False)}
FLOAT = {"float16": 2, "half": 2, "bfloat16": 2, "float32": 4, "float": 4, "float64": 8, "double": 8}
CANON = {"half": "float16", "float": "float32", "double": "float64", "long": "int64", "int": "int32", "short": "int16"}
METHOD_CAST = {"byte": "uint8", "char": "int8", "short": "int16", "int": "int32", "long": "int64", "half": "float16", "float": "float32", "double": "float64", "bfloat16": "bfloat16"}
SAME = {"contiguous", "clone", "detach", "cpu", "numpy", "requires_grad_"}


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


class T:
    """A tensor of known shape; `data` holds one expression per element, in row-major order."""

    def __init__(self, shape, data, dtype):
        self.shape, self.data, self.dtype = tuple(shape), list(data), dtype
        if prod(self.shape) != len(self.data):
            raise Unknown("shape")

    def at(self, idx):
        k = 0
        for i, n in zip(idx, self.shape):
            k = k * n + i
        return self.data[k]

    def build(self, shape, fn):
        return T(shape, [self.at(fn(i)) for i in itertools.product(*map(range, shape))], self.dtype)

    def reshape(self, dims):
        dims = list(dims)
        if dims.count(-1) > 1:
            raise Unknown("reshape")
        if -1 in dims:
            rest = prod(d for d in dims if d != -1)
            if not rest or len(self.data) % rest:
                raise Unknown("reshape")
            dims[dims.index(-1)] = len(self.data) // rest
        return T(dims, self.data, self.dtype)

    def permute(self, order):
        order = [o % len(self.shape) for o in order]
        if sorted(order) != list(range(len(self.shape))):
            raise Unknown("permute")
        return self.build([self.shape[o] for o in order], lambda i: [i[order.index(d)] for d in range(len(order))])

    def map(self, fn, dtype=None):
        return T(self.shape, [fn(x) for x in self.data], dtype or self.dtype)

    def index(self, key):
        key = list(key)
        if any(k is Ellipsis for k in key):
            e = next(i for i, k in enumerate(key) if k is Ellipsis)
            used = sum(1 for k in key if k is not None and k is not Ellipsis)
            key[e:e + 1] = [slice(None)] * (len(self.shape) - used)
        shape, plan, d, advanced = [], [], 0, 0
        for k in key:
            if k is None:
                shape.append(1)
                plan.append(("new",))
                continue
            if d >= len(self.shape):
                raise Unknown("index")
            n = self.shape[d]
            if isinstance(k, T):
                advanced += 1
                if len(k.shape) != 1 or advanced > 1 or any(type(x) is not int or not -n <= x < n for x in k.data):
                    raise Unknown("index tensor")
                plan.append(("pick", d, [x % n for x in k.data]))
                shape.append(len(k.data))
            elif isinstance(k, slice):
                pos = list(range(n))[k]
                plan.append(("pick", d, pos))
                shape.append(len(pos))
            elif type(k) is int and -n <= k < n:
                plan.append(("fix", d, k % n))
            else:
                raise Unknown("index")
            d += 1
        for dd in range(d, len(self.shape)):
            plan.append(("pick", dd, list(range(self.shape[dd]))))
            shape.append(self.shape[dd])

        def src(i):
            out, j = [0] * len(self.shape), 0
            for p in plan:
                if p[0] == "fix":
                    out[p[1]] = p[2]
                elif p[0] == "new":
                    j += 1
                else:
                    out[p[1]] = p[2][i[j]]
                    j += 1
            return out
        return self.build(shape, src)

    def cast(self, dtype):
        dtype = CANON.get(dtype, dtype)
        if dtype == self.dtype:
            return self
        if dtype in INT:
            bits, signed = INT[dtype]
            if self.dtype in INT:
                b0, s0 = INT[self.dtype]
                if (signed, bits > b0) == (True, True) or signed == s0 and bits >= b0:
                    return T(self.shape, self.data, dtype)
            return self.map(lambda x: ("wrap", bits, signed, x) if type(x) is not int else wrap(x, bits, signed), dtype)
        if dtype in FLOAT:
            return self.map(lambda x: ("to", dtype, x), dtype)
        raise Unknown("dtype " + str(dtype))

    def view_as(self, dtype):
        dtype = CANON.get(dtype, dtype)
        if dtype == self.dtype:
            return self
        if self.dtype in INT and dtype in INT and INT[self.dtype][0] == INT[dtype][0]:
            bits, signed = INT[dtype]
            return self.map(lambda x: ("wrap", bits, signed, x), dtype)
        if self.dtype in FLOAT and dtype == "uint8" and self.shape:
            n = FLOAT[self.dtype]
            return T(self.shape[:-1] + (self.shape[-1] * n,), [("byte", k, x) for x in self.data for k in range(n)], dtype)
        raise Unknown("view")


def wrap(x, bits, signed):
    x &= (1 << bits) - 1
    return x - (1 << bits) if signed and x >> (bits - 1) else x


def join(ts, dim, new=False):
    if new:
        ts = [t.index([slice(None)] * (dim % (len(t.shape) + 1)) + [None]) for t in ts]
    if not ts:
        raise Unknown("cat")
    dim %= len(ts[0].shape)
    if any(len(t.shape) != len(ts[0].shape) or any(a != b for i, (a, b) in enumerate(zip(t.shape, ts[0].shape)) if i != dim) for t in ts) or len({t.dtype for t in ts}) != 1:
        raise Unknown("cat")
    shape = list(ts[0].shape)
    shape[dim] = sum(t.shape[dim] for t in ts)
    out = []
    for i in itertools.product(*map(range, shape)):
        k = i[dim]
        for t in ts:
            if k < t.shape[dim]:
                out.append(t.at(i[:dim] + (k,) + i[dim + 1:]))
                break
            k -= t.shape[dim]
    return T(shape, out, ts[0].dtype)


def broadcast(a, b):
    n = max(len(a.shape), len(b.shape))
    sa, sb = (1,) * (n - len(a.shape)) + a.shape, (1,) * (n - len(b.shape)) + b.shape
    if any(x != y and 1 not in (x, y) for x, y in zip(sa, sb)):
        raise Unknown("broadcast")
    shape = [max(x, y) for x, y in zip(sa, sb)]
    a, b = T(sa, a.data, a.dtype), T(sb, b.data, b.dtype)
    return a.build(shape, lambda i: [k % m for k, m in zip(i, sa)]), b.build(shape, lambda i: [k % m for k, m in zip(i, sb)])


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "//": lambda a, b: a // b, "%": lambda a, b: a % b, "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b, "**": lambda a, b: a ** b}
NAMED = {"add": "+", "sub": "-", "subtract": "-", "mul": "*", "multiply": "*", "bitwise_or": "|", "bitwise_and": "&", "bitwise_xor": "^", "bitwise_left_shift": "<<", "bitwise_right_shift": ">>", "remainder": "%", "floor_divide": "//"}


def combine(op, a, b):
    """Elementwise operation; arithmetic on integer tensors wraps in their type."""
    if not isinstance(a, T) and not isinstance(b, T):
        if type(a) is int and type(b) is int:
            return OPS[op](a, b)
        raise Unknown("operands")
    ta, tb = isinstance(a, T), isinstance(b, T)
    if ta and tb:
        a, b = broadcast(a, b)
        dt = a.dtype
        if dt != b.dtype:
            if dt in INT and b.dtype in INT:
                dt = max((dt, b.dtype), key=lambda d: INT[d][0] + (1 if not INT[d][1] else 0))
                if INT[a.dtype][1] != INT[b.dtype][1]:
                    raise Unknown("mixed signs")
            else:
                raise Unknown("mixed types")
        pairs = zip(a.data, b.data)
        shape = a.shape
    else:
        t, c = (a, b) if ta else (b, a)
        if type(c) not in (int, float) or type(c) is float and t.dtype in INT:
            raise Unknown("scalar")
        dt, shape = t.dtype, t.shape
        pairs = ((x, c) for x in t.data) if ta else ((c, x) for x in t.data)
    out = []
    for x, y in pairs:
        e = OPS[op](x, y) if type(x) is int and type(y) is int else ("op", op, x, y)
        if dt in INT:
            bits, signed = INT[dt]
            e = wrap(e, bits, signed) if type(e) is int else ("wrap", bits, signed, e)
        out.append(e)
    return T(shape, out, dt)


def bounds(x, lo, hi):
    if type(x) is int:
        return max(lo, min(hi, x)) if lo is not None and hi is not None else x
    return ("clamp", x, lo, hi)


def value(e, env):
    """Value of an integer element expression for given leaf values."""
    if type(e) is int:
        return e
    if e in env:
        return env[e]
    if e[0] == "op":
        return OPS[e[1]](value(e[2], env), value(e[3], env))
    if e[0] == "wrap":
        return wrap(value(e[3], env), e[1], e[2])
    if e[0] == "clamp":
        v = value(e[1], env)
        if e[2] is not None:
            v = max(v, e[2])
        if e[3] is not None:
            v = min(v, e[3])
        return v
    if e[0] == "to":
        return value(e[2], env)
    raise Unknown("value")


def leaves(e):
    if type(e) is tuple and e and e[0] == "leaf":
        return {e}
    return set().union(*(leaves(x) for x in e)) if type(e) is tuple and e else set()


class Layout:
    """Evaluates terms; `known` maps terms to tensors, ints or strings."""

    def __init__(self, known):
        self.known = dict(known)

    def dtype(self, t):
        if t[0] in ("ext", "global", "builtin"):
            n = t[1].rsplit(".", 1)[-1]
            if n in INT or n in FLOAT:
                return n
        return None

    def ev(self, t):
        if t in self.known:
            return self.known[t]
        k = t[0]
        if k == "const":
            if t[1] == "Ellipsis" or t[2] is Ellipsis:
                return Ellipsis
            return t[2]
        if k in ("tuple", "list"):
            return [self.ev(x) for x in t[1:]]
        if k == "slice":
            return slice(*(self.ev(x) for x in t[1:]))
        if k == "bin":
            return combine(t[1], self.ev(t[2]), self.ev(t[3]))
        if k == "un" and t[1] == "-":
            x = self.ev(t[2])
            return combine("-", 0, x) if isinstance(x, T) else -x
        if k == "attr":
            b = self.ev(t[1])
            if isinstance(b, T):
                if t[2] == "shape":
                    return list(b.shape)
                if t[2] == "T" and len(b.shape) == 2:
                    return b.permute([1, 0])
                if t[2] == "mT":
                    n = len(b.shape)
                    return b.permute(list(range(n - 2)) + [n - 1, n - 2])
                if t[2] == "data":
                    return b
                if t[2] == "ndim":
                    return len(b.shape)
            raise Unknown("attribute " + str(t[2]))
        if k == "item":
            b, key = self.ev(t[1]), self.ev(t[2])
            if isinstance(b, T):
                return b.index(key if isinstance(key, list) else [key])
            if isinstance(b, list) and (type(key) is int or isinstance(key, slice)):
                return b[key]
            raise Unknown("item")
        if k == "call":
            return self.call(t)
        raise Unknown(k)

    def args(self, t, names):
        """Positional and named arguments in the order of `names`."""
        got = dict(zip(names, t[2]))
        for n, v in t[3]:
            got[n] = v
        return {n: self.ev(v) for n, v in got.items()}

    def ints(self, t, skip=0):
        xs = [self.ev(x) for x in t[2][skip:]]
        for n, v in t[3]:
            if n in ("shape", "dims", "size"):
                xs = [self.ev(v)]
        if len(xs) == 1 and isinstance(xs[0], list):
            xs = xs[0]
        if not all(type(x) is int for x in xs):
            raise Unknown("sizes")
        return xs

    def call(self, t):
        fn = t[1]
        rn = ref_name(fn) or ""
        name = rn.split(":")[-1].rsplit(".", 1)[-1]
        if fn[0] == "attr" and not rn.startswith("ext:"):
            b = self.ev(fn[1])
            if isinstance(b, T):
                return self.op(fn[2], b, t, 0)
            raise Unknown("receiver")
        if rn.startswith("ext:torch"):
            if name in ("cat", "concat", "concatenate", "stack", "hstack"):
                a = self.args(t, ["tensors", "dim"])
                d = a.get("dim", a.get("axis", 0))
                ts = a.get("tensors")
                if not isinstance(ts, list) or not all(isinstance(x, T) for x in ts):
                    raise Unknown("cat")
                if name == "hstack":
                    d = 0 if len(ts[0].shape) == 1 else 1
                return join(ts, d, new=name == "stack")
            if name == "arange":
                xs = [self.ev(x) for x in t[2]]
                if not all(type(x) is int for x in xs) or any(n not in ("device", "dtype") for n, _ in t[3]):
                    raise Unknown("arange")
                return T((len(range(*xs)),), range(*xs), "int64")
            if t[2]:
                b = self.ev(t[2][0])
                if isinstance(b, T):
                    return self.op(name, b, t, 1)
        if rn in ("builtin:int", "builtin:len") and len(t[2]) == 1:
            x = self.ev(t[2][0])
            if rn == "builtin:int" and type(x) is int:
                return x
            if rn == "builtin:len":
                return x.shape[0] if isinstance(x, T) else len(x)
        if rn == "builtin:slice":
            return slice(*(self.ev(x) for x in t[2]))
        raise Unknown("call " + rn)

    def op(self, name, b, t, skip):
        pos, n = t[2][skip:], len(b.shape)
        if name in SAME:
            return b
        if name in ("size",):
            return b.shape[self.ev(pos[0])] if pos else list(b.shape)
        if name == "numel":
            return len(b.data)
        if name == "dim":
            return n
        if name in METHOD_CAST and not pos:
            return b.cast(METHOD_CAST[name])
        if name in ("to", "type", "view", "astype"):
            dt = next((self.dtype(x) for x in list(pos) + [v for _, v in t[3]] if self.dtype(x)), None)
            if dt:
                return b.view_as(dt) if name == "view" else b.cast(dt)
            if name == "to":
                return b
        if name in ("reshape", "view"):
            return b.reshape(self.ints(t, skip))
        if name == "flatten":
            a = [self.ev(x) for x in pos]
            s = a[0] if a else 0
            e = (a[1] if len(a) > 1 else -1) % n
            if t[3]:
                kw = {k: self.ev(v) for k, v in t[3]}
                s, e = kw.get("start_dim", s), kw.get("end_dim", e) % n
            return b.reshape(list(b.shape[:s]) + [prod(b.shape[s:e + 1])] + list(b.shape[e + 1:]))
        if name == "unflatten":
            a = [self.ev(x) for x in pos]
            d = a[0] % n
            return b.reshape(list(b.shape[:d]) + list(a[1]) + list(b.shape[d + 1:]))
        if name in ("swapaxes", "transpose", "swapdims"):
            i, j = [x % n for x in ([self.ev(x) for x in pos] + [self.ev(v) for _, v in t[3]])]
            o = list(range(n))
            o[i], o[j] = o[j], o[i]
            return b.permute(o)
        if name == "t":
            return b.permute(list(range(n))[::-1])
        if name == "permute":
            return b.permute(self.ints(t, skip))
        if name == "unsqueeze":
            d = self.ev(pos[0]) if pos else self.ev(t[3][0][1])
            d %= n + 1
            return b.reshape(list(b.shape[:d]) + [1] + list(b.shape[d:]))
        if name == "squeeze":
            d = (self.ev(pos[0]) if pos else self.ev(t[3][0][1])) % n
            if b.shape[d] != 1:
                return b
            return b.reshape(list(b.shape[:d]) + list(b.shape[d + 1:]))
        if name in ("chunk", "unbind", "split"):
            a = {**dict(zip(["n", "dim"] if name != "unbind" else ["dim"], [self.ev(x) for x in pos])), **{("dim" if k == "axis" else "n" if k in ("chunks", "split_size") else k): self.ev(v) for k, v in t[3]}}
            d = a.get("dim", 0) % n
            size = b.shape[d]
            step = 1 if name == "unbind" else -(-size // a["n"]) if name == "chunk" else a["n"]
            if type(step) is not int:
                raise Unknown("split")
            pre = [slice(None)] * d
            return [b.index(pre + ([i] if name == "unbind" else [slice(i, min(i + step, size))])) for i in range(0, size, step)]
        if name in ("index_select",):
            a = [self.ev(x) for x in pos] + [self.ev(v) for _, v in t[3]]
            return b.index([slice(None)] * (a[0] % n) + [a[1]])
        if name in ("clamp", "clip"):
            a = {**dict(zip(["min", "max"], [self.ev(x) for x in pos])), **{k: self.ev(v) for k, v in t[3]}}
            return b.map(lambda x: bounds(x, a.get("min"), a.get("max")))
        if name in NAMED and len(pos) == 1 and not t[3]:
            return combine(NAMED[name], b, self.ev(pos[0]))
        raise Unknown("operation " + name)
