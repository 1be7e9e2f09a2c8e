"""Abstract interpreter over the Python syntax tree with trace partitioning.

Abstract values are provenance terms (hashable tuples): where a value comes from and
through which calls / attributes / operators it went.  Branches partition the trace on
the tested term, loops are over-approximated by {zero, one} iteration, project helpers
are inlined (bounded), other calls stay uninterpreted.  Nothing is executed and no
solver is involved.
"""
from __future__ import annotations

import ast
import builtins
from typing import Callable, NamedTuple

from .project import FALSE, NONE, TRUE, AnalysisBroken, Func, Project, const


class Budget(AnalysisBroken):
    pass


class Ev(NamedTuple):
    kind: str  # call setattr setitem delattr delitem raise yield enter exit aug loop endloop
    name: str
    obj: tuple
    args: tuple
    kwargs: tuple
    value: tuple
    loc: str
    func: str
    extra: tuple = ()


class Out(NamedTuple):
    kind: str  # normal return raise break continue
    st: "State"
    val: tuple


class State:
    __slots__ = ("env", "heap", "events", "conds", "nfresh", "pend")

    def __init__(self, env=None, heap=None, events=(), conds=(), nfresh=0, pend=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.events = events
        self.conds = conds
        self.nfresh = nfresh
        self.pend = pend

    def copy(self):
        return State(dict(self.env), self.heap, self.events, self.conds, self.nfresh, self.pend)

    def with_event(self, ev):
        s = self.copy()
        s.events = s.events + (ev,)
        return s

    def set(self, name, v):
        s = self.copy()
        s.env[name] = v
        return s

    def hset(self, key, v):
        s = self.copy()
        s.heap = dict(s.heap)
        s.heap[key] = v
        return s

    def cond(self, t, b):
        if (t, b) in self.conds:
            return self
        s = self.copy()
        s.conds = s.conds + ((t, b),)
        return s

    def holds(self, t):
        for c, b in self.conds:
            if c == t:
                return b
        return None


def walk(t):
    """All subterms of a term."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(x)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def mentions(t, sub):
    return any(x == sub for x in walk(t))


def ref_name(t):
    """Printable/canonical callee name of a term."""
    h = t[0]
    if h in ("func", "class", "ext", "builtin", "global", "mod", "name", "param"):
        return f"{h}:{t[1]}"
    if h == "attr":
        return f"method:.{t[2]}"
    if h == "bound":
        return f"func:{t[1]}"
    if h == "closure":
        return f"closure:{t[1]}"
    if h == "partial":
        return ref_name(t[1])
    return f"{h}:"


def fmt(t, depth=0):
    """Readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    h = t[0]
    if depth > 6:
        return "…"
    f = lambda x: fmt(x, depth + 1)
    if h == "const":
        return repr(t[2])
    if h in ("func", "class", "ext", "builtin", "global", "mod", "name", "param"):
        return str(t[1]).replace("fastforward.", "")
    if h == "attr":
        return f"{f(t[1])}.{t[2]}"
    if h == "item":
        return f"{f(t[1])}[{f(t[2])}]"
    if h == "call":
        a = [f(x) for x in t[2]] + [f"{k}={f(v)}" for k, v in t[3]]
        return f"{f(t[1])}({', '.join(a)})"
    if h == "bin":
        return f"({f(t[2])} {t[1]} {f(t[3])})"
    if h == "un":
        return f"({t[1]} {f(t[2])})"
    if h == "cmp":
        return f"({f(t[2])} {t[1]} {f(t[3])})"
    if h == "not":
        return f"not {f(t[1])}"
    if h in ("tuple", "list", "set"):
        return f"{h}({', '.join(f(x) for x in t[1:])})"
    if h == "elem":
        return f"each({f(t[1])})"
    if h == "bound":
        return f"{f(t[2])}.{t[1].rsplit('.', 1)[1]}"
    return f"<{h} {' '.join(fmt(x, depth + 1) if isinstance(x, tuple) else str(x) for x in t[1:])}>"


_BIN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
    ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@",
}
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

MUTATORS = {"append", "add", "appendleft", "insert", "extend", "update", "setdefault", "extendleft"}


def neg(t):
    if t[0] == "not":
        return t[1]
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    return ("not", t)


def mkcmp(op, l, r):
    if op == "is not":
        return neg(mkcmp("is", l, r))
    if op == "not in":
        return neg(mkcmp("in", l, r))
    if op == "!=":
        return neg(mkcmp("==", l, r))
    if op == ">":
        return ("cmp", "<", r, l)
    if op == ">=":
        return ("cmp", "<=", r, l)
    if op in ("==", "is"):
        if l[0] == "const" and r[0] != "const":
            l, r = r, l
        if l[0] == "const" and r[0] == "const":
            return const(l == r)
    if op == "==" and l[0] != "const" and r[0] != "const" and repr(r) < repr(l):
        l, r = r, l
    return ("cmp", op, l, r)


class Interp:
    def __init__(
        self,
        proj: Project,
        *,
        inline: Callable[[Func, "Interp"], bool] | None = None,
        keep: Callable[[Ev], bool] | None = None,
        exc: str = "explicit",  # explicit | calls
        max_depth: int = 4,
        cap: int = 3000,
        yield_raises: bool = False,
        no_exc: Callable[[Ev], bool] | None = None,
        enter_cms: bool = True,
        ctor_inline: Callable[[str], bool] | None = None,
        types: dict | None = None,
        loop_iters: tuple = (0, 1),
        distinct: bool = False,
        merge: bool = True,
        models: dict | None = None,
        comp_events: bool = False,  # report when a comprehension is evaluated
        functional: bool = False,  # tensor updates in place (x.add_(y), out=x) rebind the names bound to x
    ):
        self.functional = functional
        self.comp_events = comp_events
        self.models = models or {}
        self.p = proj
        self.inline = inline or (lambda f, i: True)
        self.keep = keep or (lambda ev: True)
        self.exc = exc
        self.max_depth = max_depth
        self.cap = cap
        self.yield_raises = yield_raises
        self.no_exc = no_exc or (lambda ev: False)
        self.stack: list[Func] = []
        self.ctor_inline = ctor_inline or (lambda q: False)
        self.types = types or {}
        self.loop_iters = loop_iters
        self.distinct = distinct
        self.merge = merge
        self.yield_hook = []
        self.steps = 0
        self.unwinding = 0
        self.inlined: set[str] = set()

    # ------------------------------------------------------------------ entry
    def run(self, func: Func, args: dict | None = None, self_term=("param", "self"), depth=0):
        """Analyse `func` from its entry; returns outcomes (kinds: return, raise)."""
        env = {}
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        for n in names:
            env[n] = ("param", n)
        if args:
            env.update(args)
        st = State(env)
        st.env["@func"] = ("func", func.qual)
        self.entry = func
        self.param_types = self._param_types(func)
        self.stack = [func]
        outs = self._body_result(self.block(func.node.body, st, func))
        return outs

    def run_module(self, m, body=None):
        f = Func(m.name + ".<module>", ast.parse("def _(): pass").body[0], m, None)
        self.entry = f
        self.param_types = {}
        self.stack = [f]
        return self._body_result(self.block(body if body is not None else m.tree.body, State({}), f))

    def _body_result(self, outs):
        res = []
        for o in outs:
            if o.kind == "normal":
                res.append(Out("return", o.st, NONE))
            elif o.kind in ("break", "continue"):
                res.append(Out("return", o.st, NONE))
            else:
                res.append(o)
        return res

    def _param_types(self, func):
        out = {}
        a = func.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                c = self.ann_class(func.module, x.annotation)
                if c:
                    out[x.arg] = c
        if func.cls is not None and not func.is_static:
            ps = func.params()
            if ps:
                out[ps[0]] = func.cls.qual
        return out

    def ann_class(self, module, ann):
        """The single project class an annotation denotes (None when ambiguous)."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            cands = [self.ann_class(module, x) for x in (ann.left, ann.right)]
            nn = [x for x, e in zip(cands, (ann.left, ann.right)) if not (isinstance(e, ast.Constant) and e.value is None)]
            return nn[0] if len(nn) == 1 else None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(module, ann)
            return r[1] if r[0] == "class" else None
        if isinstance(ann, ast.Subscript):
            r = self.p.resolve_expr(module, ann.value)
            if r[0] == "class":
                return r[1]
            if r[0] == "ext" and r[1].endswith("Optional"):
                return self.ann_class(module, ann.slice)
        return None

    # ------------------------------------------------------------------ types
    def typeof(self, t, st=None):
        if t in self.types:
            return self.types[t]
        if st is not None:
            for c, b in st.conds:
                if b and c[0] == "isinstance" and c[1] == t and c[2][0] == "class":
                    return c[2][1]
        h = t[0]
        if h == "param":
            return self.param_types.get(t[1])
        if h == "new":
            return t[1]
        if h == "call":
            f = t[1]
            if f[0] == "class":
                return f[1]
            if f[0] in ("func", "bound"):
                fn = self.p.funcs.get(f[1])
                if fn is not None and fn.node.returns is not None:
                    r = fn.node.returns
                    if isinstance(r, ast.Name) and r.id == "Self" and f[0] == "bound":
                        return self.typeof(f[2], st)
                    return self.ann_class(fn.module, r)
        if h == "attr":
            base = self.typeof(t[1], st)
            if base is not None:
                return self._attr_type(base, t[2])
        if h == "global":
            modname, _, n = t[1].rpartition(".")
            m = self.p.modules.get(modname)
            if m is not None:
                b = m.env.get(n)
                if b and b[0] == "expr" and isinstance(b[1], ast.Call):
                    r = self.p.resolve_expr(m, b[1].func)
                    if r[0] == "class":
                        return r[1]
                    if r[0] == "func":
                        fn = self.p.funcs[r[1]]
                        return self.ann_class(fn.module, fn.node.returns)
        return None

    def _attr_type(self, cq, name):
        ca = self.p.class_attr(cq, name)
        if ca is not None and ca[1][0] is not None:
            return self.ann_class(ca[0].module, ca[1][0])
        m = self.p.find_method(cq, name)
        if m is not None and m.is_property:
            return self.ann_class(m.module, m.node.returns)
        for q in self.p.mro(cq):
            init = self.p.classes[q].methods.get("__init__")
            if init is None:
                continue
            anns = {x.arg: x.annotation for x in init.node.args.args + init.node.args.kwonlyargs}
            for n in ast.walk(init.node):
                tgt = val = ann = None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tgt, val = n.targets[0], n.value
                elif isinstance(n, ast.AnnAssign):
                    tgt, val, ann = n.target, n.value, n.annotation
                if isinstance(tgt, ast.Attribute) and tgt.attr == name and isinstance(tgt.value, ast.Name) and tgt.value.id == "self":
                    if ann is not None:
                        return self.ann_class(init.module, ann)
                    if isinstance(val, ast.Name) and val.id in anns:
                        return self.ann_class(init.module, anns[val.id])
                    if isinstance(val, ast.Call):
                        r = self.p.resolve_expr(init.module, val.func)
                        if r[0] == "class":
                            return r[1]
        return None

    def ctor_field(self, t, name):
        """Value of attribute `name` of a freshly constructed term ('call', ('class', q), args, kw)."""
        q = t[1][1]
        if q not in self.p.classes:
            return None
        names, defaults, amap = None, {}, {}
        if self.p.is_dataclass(q) and self.p.find_method(q, "__init__") is None:
            flds = self.p.fields(q)
            names = [n for n, _ in flds]
            amap = {n: n for n in names}
        else:
            init = self.p.find_method(q, "__init__")
            if init is None:
                return None
            names = init.params()[1:]
            kwo = [x.arg for x in init.node.args.kwonlyargs]
            for stmt in init.node.body:
                tgt = val = None
                if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1:
                    tgt, val = stmt.targets[0], stmt.value
                elif isinstance(stmt, ast.AnnAssign):
                    tgt, val = stmt.target, stmt.value
                if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self" and isinstance(val, ast.Name) and val.id in names + kwo:
                    amap[tgt.attr] = val.id
        p = amap.get(name)
        if p is None:
            return None
        for k, v in t[3]:
            if k == p:
                return v
        if p in names:
            i = names.index(p)
            if any(a[0] == "star" for a in t[2][: i + 1]):
                return None
            if i < len(t[2]):
                return t[2][i]
        return None

    # ------------------------------------------------------------------ state
    def emit(self, st, ev):
        return st.with_event(ev) if self.keep(ev) else st

    def loc(self, node, func):
        return f"{func.module.rel}:{getattr(node, 'lineno', 0)}"

    def fresh(self, st, kind):
        s = st.copy()
        s.nfresh += 1
        return s, ("fresh", kind, s.nfresh)

    def _cap(self, outs):
        if self.merge and len(outs) > 1:
            outs = self._merge(outs)
        if len(outs) > self.cap:
            raise Budget(f"{self.entry.qual}: more than {self.cap} abstract traces")
        return outs

    def _merge(self, outs):
        groups = {}
        order = []
        for o in outs:
            key = (o.kind, o.val, tuple(sorted(o.st.env.items(), key=lambda kv: kv[0])), tuple(sorted(o.st.heap.items(), key=repr)) if o.st.heap else (), o.st.events, o.st.pend)
            if key in groups:
                g = groups[key]
                common = tuple(c for c in g.st.conds if c in o.st.conds)
                s = g.st.copy()
                s.conds = common
                groups[key] = Out(g.kind, s, g.val)
            else:
                groups[key] = o
                order.append(key)
        return [groups[k] for k in order]

    # ------------------------------------------------------------- statements
    def block(self, body, st, func):
        cur = [st]
        done = []
        for node in body:
            nxt = []
            for s in cur:
                for o in self.stmt(node, s, func):
                    if o.kind == "normal":
                        nxt.append(o)
                    else:
                        done.append(o)
            nxt = self._cap(nxt)
            cur = [o.st for o in nxt]
            if not cur:
                break
        return self._cap([Out("normal", s, NONE) for s in cur] + done)

    def stmt(self, n, st, func):
        self.steps += 1
        if self.steps > 4_000_000:
            raise Budget(f"{self.entry.qual}: step budget exhausted")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken(f"statement {type(n).__name__} not supported at {self.loc(n, func)}")
        return m(n, st, func)

    def _vals(self, outs, k):
        """Continue with k(state, value) for value outcomes; propagate raises."""
        res = []
        for o in outs:
            if o.kind == "value":
                res.extend(k(o.st, o.val))
            else:
                res.append(o)
        return res

    def s_Pass(self, n, st, f):
        return [Out("normal", st, NONE)]

    def s_Expr(self, n, st, f):
        if isinstance(n.value, ast.Constant):
            return [Out("normal", st, NONE)]
        return self._vals(self.eval(n.value, st, f), lambda s, v: [Out("normal", s, NONE)])

    def s_Import(self, n, st, f):
        s = st.copy()
        for k, b in self.p.import_bindings(f.module, n).items():
            if b[0] != "star":
                s.env[k] = self.p._deref(f.module, k, b)
        return [Out("normal", s, NONE)]

    s_ImportFrom = s_Import

    def s_Global(self, n, st, f):
        s = st.copy()
        s.env["@globals"] = tuple(sorted(set(st.env.get("@globals", ())) | set(n.names)))
        return [Out("normal", s, NONE)]

    def s_Nonlocal(self, n, st, f):
        return [Out("normal", st, NONE)]

    def s_FunctionDef(self, n, st, f):
        t = self.closure(n, st, f, n.name)
        # decorators applied to local functions stay uninterpreted wrappers except functools.wraps
        for d in reversed(n.decorator_list):
            dd = ast.unparse(d)
            if dd.split("(")[0].split(".")[-1] in ("wraps", "override", "typing_override", "no_grad", "staticmethod", "property", "cache"):
                continue
            outs = self.eval(d, st, f)
            dv = outs[0].val if outs and outs[0].kind == "value" else ("top", "deco")
            return [Out("normal", st.set(n.name, ("call", dv, (t,), ())), NONE)]
        return [Out("normal", st.set(n.name, t), NONE)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, f):
        q = f"{f.qual}.<locals>.{n.name}"
        if q not in self.p.classes:
            q2 = f"{f.module.name}.{n.name}"
            q = q2 if q2 in self.p.classes else q
        return [Out("normal", st.set(n.name, ("class", q)), NONE)]

    def s_Return(self, n, st, f):
        if n.value is None:
            return [Out("return", st, NONE)]
        return self._vals(self.eval(n.value, st, f), lambda s, v: [Out("return", s, v)])

    def s_Raise(self, n, st, f):
        if n.exc is None:
            cur = st.env.get("@exc", ("top", "reraise"))
            return [Out("raise", self.emit(st, Ev("raise", "reraise", NONE, (), (), cur, self.loc(n, f), f.qual)), cur)]

        def k(s, v):
            return [Out("raise", self.emit(s, Ev("raise", ref_name(v[1] if v[0] == "call" else v), NONE, (), (), v, self.loc(n, f), f.qual)), v)]

        return self._vals(self.eval(n.exc, st, f), k)

    def s_Break(self, n, st, f):
        return [Out("break", st, NONE)]

    def s_Continue(self, n, st, f):
        return [Out("continue", st, NONE)]

    def s_Assert(self, n, st, f):
        res = []
        for o in self.test(n.test, st, f):
            if o.kind != "value":
                res.append(o)
            elif o.val == TRUE:
                res.append(Out("normal", o.st, NONE))
            else:
                res.append(Out("raise", self.emit(o.st, Ev("raise", "assert", NONE, (), (), ("call", ("builtin", "AssertionError"), (), ()), self.loc(n, f), f.qual)), ("call", ("builtin", "AssertionError"), (), ())))
        return res

    def s_Delete(self, n, st, f):
        outs = [Out("normal", st, NONE)]
        for t in n.targets:
            nxt = []
            for o in outs:
                if o.kind != "normal":
                    nxt.append(o)
                    continue
                s = o.st
                if isinstance(t, ast.Name):
                    s = s.copy()
                    s.env.pop(t.id, None)
                    nxt.append(Out("normal", s, NONE))
                elif isinstance(t, ast.Attribute):
                    nxt += self._vals(self.eval(t.value, s, f), lambda s2, b, t=t: [Out("normal", self.emit(s2, Ev("delattr", t.attr, b, (), (), NONE, self.loc(n, f), f.qual)).hset((b, t.attr), ("absent",)), NONE)])
                elif isinstance(t, ast.Subscript):
                    def k1(s2, b, t=t):
                        return self._vals(self.eval(t.slice, s2, f), lambda s3, kk: [Out("normal", self.emit(s3, Ev("delitem", "", b, (kk,), (), NONE, self.loc(n, f), f.qual)).hset((b, ("item", kk)), ("absent",)).hset((b, "@cleared"), TRUE), NONE)])
                    nxt += self._vals(self.eval(t.value, s, f), k1)
                else:
                    nxt.append(o)
            outs = nxt
        return outs

    def s_Assign(self, n, st, f):
        def k(s, v):
            outs = [Out("normal", s, NONE)]
            for t in n.targets:
                nxt = []
                for o in outs:
                    nxt += self.assign(t, v, o.st, f, n) if o.kind == "normal" else [o]
                outs = nxt
            return outs

        return self._vals(self.eval(n.value, st, f), k)

    def s_AnnAssign(self, n, st, f):
        if n.value is None:
            return [Out("normal", st, NONE)]
        return self._vals(self.eval(n.value, st, f), lambda s, v: self.assign(n.target, v, s, f, n))

    def s_TypeAlias(self, n, st, f):
        return [Out("normal", st, NONE)]

    def s_AugAssign(self, n, st, f):
        op = _BIN[type(n.op)]
        load = ast.copy_location(_as_load(n.target), n.target)

        def k(s, cur):
            def k2(s2, v):
                nv = self.binop(op, cur, v)
                s2 = self.emit(s2, Ev("aug", op, cur, (v,), (), nv, self.loc(n, f), f.qual))
                if isinstance(n.target, ast.Name) and cur[0] == "fresh" and op in ("+", "|"):
                    c = s2.heap.get((cur, "@contents"), ())
                    return [Out("normal", s2.hset((cur, "@contents"), c + (("star", v),)), NONE)]
                return self.assign(n.target, nv, s2, f, n, aug=True)

            return self._vals(self.eval(n.value, s, f), k2)

        return self._vals(self.eval(load, st, f), k)

    def assign(self, t, v, st, f, n, aug=False):
        if isinstance(t, ast.Name) and t.id in st.env.get("@globals", ()):
            g = ("global", f"{f.module.name}.{t.id}")
            return [Out("normal", self.emit(st, Ev("setglobal", t.id, g, (), (), v, self.loc(n, f), f.qual)).hset((g, "@value"), v), NONE)]
        if isinstance(t, ast.Name):
            ev = Ev("setname", t.id, NONE, (), (), v, self.loc(n, f), f.qual)
            return [Out("normal", self.emit(st, ev).set(t.id, v) if self.keep(ev) else st.set(t.id, v), NONE)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, f, n)
        if isinstance(t, (ast.Tuple, ast.List)):
            elts = t.elts
            star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
            items = None
            if v[0] in ("tuple", "list") and not any(x[0] == "star" for x in v[1:]):
                items = list(v[1:])
            parts = []
            if items is not None and star is None and len(items) == len(elts):
                parts = items
            elif items is not None and star is not None and len(items) >= len(elts) - 1:
                k = len(elts) - 1 - star
                parts = items[:star] + [("tuple",) + tuple(items[star : len(items) - k])] + (items[len(items) - k :] if k else [])
            else:
                for i, e in enumerate(elts):
                    if star is not None and i == star:
                        parts.append(("slice_of", v, star, len(elts) - 1 - star))
                    elif star is not None and i > star:
                        parts.append(("item", v, const(i - len(elts))))
                    else:
                        parts.append(self.item(v, const(i), st))
            outs = [Out("normal", st, NONE)]
            for e, pv in zip(elts, parts):
                nxt = []
                for o in outs:
                    nxt += self.assign(e, pv, o.st, f, n) if o.kind == "normal" else [o]
                outs = nxt
            return outs
        if isinstance(t, ast.Attribute):
            def k(s, b):
                s = self.emit(s, Ev("setattr", t.attr, b, (), (), v, self.loc(n, f), f.qual))
                cq = self.typeof(b, s)
                if cq is not None:
                    setter = self.p.find_setter(cq, t.attr)
                    if setter is not None and self._may_inline(setter):
                        return [Out("normal" if o.kind == "value" else o.kind, o.st, NONE if o.kind == "value" else o.val) for o in self.inline_call(setter, [b, v], {}, s, f, n, bound=True)]
                return [Out("normal", s.hset((b, t.attr), v), NONE)]

            return self._vals(self.eval(t.value, st, f), k)
        if isinstance(t, ast.Subscript):
            def k1(s, b):
                def k2(s2, key):
                    s2 = self.emit(s2, Ev("setitem", "", b, (key,), (), v, self.loc(n, f), f.qual))
                    if self.functional and b[0] in ("call", "bin", "un") and key[0] in ("call", "cmp", "not", "bin", "un"):
                        return [Out("normal", self._updated(s2, b, ("call", ("ext", "torch.where"), (key, v, b), ()), ()), NONE)]
                    c = s2.heap.get((b, "@contents"), ())
                    s2 = s2.hset((b, "@contents"), c + (("pair", key, v),))
                    return [Out("normal", s2.hset((b, ("item", key)), v), NONE)]

                return self._vals(self.eval(t.slice, s, f), k2)

            return self._vals(self.eval(t.value, st, f), k1)
        raise AnalysisBroken(f"assignment target {type(t).__name__} at {self.loc(n, f)}")

    def s_If(self, n, st, f):
        res = []
        for o in self._cap(self.test(n.test, st, f)):
            if o.kind != "value":
                res.append(o)
            else:
                res += self.block(n.body if o.val == TRUE else n.orelse, o.st, f)
        return self._cap(res)

    def s_While(self, n, st, f):
        res = []
        broke = []
        exits = []
        infinite = isinstance(n.test, ast.Constant) and bool(n.test.value)
        cur = [st]
        for it in range(max(self.loop_iters) + 9):
            nxt = []
            for s in cur:
                touts = self.test(n.test, s, f)
                # a condition decided by known facts (e.g. draining a known list) is followed further
                decided = len(touts) == 1 and not infinite and it < max(self.loop_iters) + 8 and len(cur) <= 32
                for o in touts:
                    if o.kind != "value":
                        res.append(o)
                    elif o.val == FALSE:
                        exits.append(o.st)
                    elif it < max(self.loop_iters) or decided:
                        b = self.emit(o.st, Ev("loop", "while", NONE, (), (), NONE, self.loc(n, f), f.qual))
                        for o2 in self.block(n.body, b, f):
                            if o2.kind in ("normal", "continue"):
                                s2 = self.emit(o2.st, Ev("endloop", "while", NONE, (), (), NONE, self.loc(n, f), f.qual))
                                nxt.append(self._forget(s2, n))
                            elif o2.kind == "break":
                                broke.append(o2.st)
                            else:
                                res.append(o2)
                    elif not infinite:
                        # bound reached: over-approximate by leaving the loop
                        exits.append(o.st)
            cur = nxt
        for s in exits:
            res += self.block(n.orelse, s, f) if n.orelse else [Out("normal", s, NONE)]
        res += [Out("normal", s, NONE) for s in broke]
        return self._cap(res)

    def _forget(self, st, loop):
        """Drop branch facts about names the loop body reassigns."""
        return st

    def s_For(self, n, st, f):
        def k(s, it):
            res = []
            exits = []
            broke = []
            known = self.concrete_items(it, s)
            if known is not None:
                cur = [s]
                for el in known:
                    nxt = []
                    for s1 in cur:
                        s1 = self.emit(s1, Ev("loop", "for", it, (), (), el, self.loc(n, f), f.qual))
                        for oa in self.assign(n.target, el, s1, f, n):
                            for o2 in self.block(n.body, oa.st, f):
                                if o2.kind in ("normal", "continue"):
                                    nxt.append(o2.st)
                                elif o2.kind == "break":
                                    broke.append(o2.st)
                                else:
                                    res.append(o2)
                    cur = [o.st for o in self._cap([Out("normal", x, NONE) for x in nxt])]
                exits = cur
            else:
                el = self.elem(it)
                if 0 in self.loop_iters:
                    exits.append(s.cond(("nonempty", it), False))
                cur = [s.cond(("nonempty", it), True)]
                for i in range(max(self.loop_iters)):
                    nxt = []
                    if i and self.distinct:
                        el = self.nth(self.elem(it), i)
                    for s1 in cur:
                        s1 = self.emit(s1, Ev("loop", "for", it, (), (), el, self.loc(n, f), f.qual))
                        for oa in self.assign(n.target, el, s1, f, n):
                            for o2 in self.block(n.body, oa.st, f):
                                if o2.kind in ("normal", "continue"):
                                    nxt.append(self.emit(o2.st, Ev("endloop", "for", it, (), (), el, self.loc(n, f), f.qual)))
                                elif o2.kind == "break":
                                    broke.append(self.emit(o2.st, Ev("endloop", "break", it, (), (), el, self.loc(n, f), f.qual)))
                                else:
                                    res.append(o2)
                    cur = [o.st for o in self._cap([Out("normal", x, NONE) for x in nxt])]
                    exits += cur
            for s2 in exits:
                res += self.block(n.orelse, s2, f) if n.orelse else [Out("normal", s2, NONE)]
            res += [Out("normal", x, NONE) for x in broke]
            return self._cap(res)

        return self._vals(self.eval(n.iter, st, f), k)

    s_AsyncFor = s_For

    def concrete_items(self, it, s):
        """The elements of an iterable whose contents are literally known, else None."""
        if it[0] == "call" and it[1][0] == "builtin" and it[2]:
            nm = it[1][1]
            if nm in ("list", "tuple", "reversed", "iter") and len(it[2]) == 1:
                xs = self.concrete_items(it[2][0], s)
                return xs[::-1] if xs is not None and nm == "reversed" else xs
            if nm == "enumerate" and len(it[2]) <= 2:
                xs = self.concrete_items(it[2][0], s)
                st0 = it[2][1] if len(it[2]) == 2 else dict(it[3]).get("start", const(0))
                if xs is not None and st0[0] == "const" and isinstance(st0[2], int):
                    return [("tuple", const(i + st0[2]), x) for i, x in enumerate(xs)]
                return None
            if nm == "zip":
                cols = [self.concrete_items(a, s) for a in it[2]]
                if all(c is not None for c in cols):
                    return [("tuple",) + r for r in zip(*cols)]
                return None
        if it[0] == "fresh" and it[1] in ("list", "set") and not any(x[0] in ("star", "pair") for x in s.heap.get((it, "@contents"), ())) and (it, "@cleared") not in s.heap:
            return list(s.heap.get((it, "@contents"), ()))
        if it[0] in ("tuple", "list") and not any(x[0] == "star" for x in it[1:]) and len(it) <= 9:
            return list(it[1:])
        if it[0] == "item" and it[1][0] in ("tuple", "list") and it[2][0] == "slice" and all(x == NONE or x[0] == "const" and isinstance(x[2], int) for x in it[2][1:]):
            xs = self.concrete_items(it[1], s)
            if xs is not None:
                return xs[slice(*(None if x == NONE else x[2] for x in it[2][1:]))]
        return None

    def nth(self, el, i):
        """The abstract element of a later iteration, as a term distinct from the first."""
        if el[0] in ("elem", "key", "val", "idx"):
            return el[:2] + (const(i),)
        if el[0] == "tuple":
            return ("tuple",) + tuple(self.nth(x, i) for x in el[1:])
        return el

    def elem(self, it):
        """Abstract element of an iterable term."""
        if it[0] == "call":
            fn, args = it[1], it[2]
            nm = fn[1] if fn[0] in ("builtin", "ext") else None
            if nm == "enumerate" and args:
                return ("tuple", ("idx", args[0]), self.elem(args[0]))
            if nm == "zip" and args and not any(a[0] == "star" for a in args):
                return ("tuple",) + tuple(self.elem(a) for a in args)
            if nm in ("list", "tuple", "iter", "reversed", "sorted", "set", "frozenset") and len(args) == 1:
                return self.elem(args[0])
            if nm == "itertools.chain" and len(args) >= 1:
                return ("alt",) + tuple(self.elem(a) for a in args)
            if nm == "itertools.product" and args:
                return ("tuple",) + tuple(self.elem(a) for a in args)
            if fn[0] == "attr" and not args:
                if fn[2] == "items":
                    return ("tuple", ("key", fn[1]), ("val", fn[1]))
                if fn[2] == "keys":
                    return ("key", fn[1])
                if fn[2] == "values":
                    return ("val", fn[1])
        if it[0] == "comp":
            return it[2]
        return ("elem", it)

    def s_With(self, n, st, f):
        return self._with(n, list(n.items), st, f)

    s_AsyncWith = s_With

    def _with(self, n, items, st, f):
        if not items:
            return self.block(n.body, st, f)
        it, rest = items[0], items[1:]

        def body(s, v):
            """Run the remainder of the with statement with the entered value bound."""
            if it.optional_vars is not None:
                res = []
                for o in self.assign(it.optional_vars, v, s, f, n):
                    res += self._with(n, rest, o.st, f) if o.kind == "normal" else [o]
                return res
            return self._with(n, rest, s, f)

        def k(s, cm):
            return self.with_cm(cm, s, f, n, body)

        return self._vals(self.eval(it.context_expr, st, f, as_cm=True), k)

    def with_cm(self, cm, st, f, n, body):
        """Enter `cm`, run body(state, value), leave. Returns statement outcomes."""
        loc = self.loc(n, f)
        if cm[0] == "cmcall":
            return self._with_gen(cm, st, f, n, body)
        cq = self.typeof(cm, st)
        enter = self.p.find_method(cq, "__enter__") if cq else None
        exit_ = self.p.find_method(cq, "__exit__") if cq else None
        if enter is not None and exit_ is not None and self._may_inline(exit_):
            res = []
            st = self.emit(st, Ev("enter", "class:" + cq, cm, (), (), NONE, loc, f.qual))
            for o in self.inline_call(enter, [cm], {}, st, f, n, bound=True):
                if o.kind != "value":
                    res.append(o)
                    continue
                for b in body(o.st, o.val):
                    exc_args = [NONE, NONE, NONE] if b.kind != "raise" else [("exc_type", b.val), b.val, ("top", "tb")]
                    self.unwinding += b.kind == "raise"
                    try:
                        xo = self.inline_call(exit_, [cm] + exc_args, {}, b.st, f, n, bound=True)
                    finally:
                        self.unwinding -= b.kind == "raise"
                    for x in xo:
                        if x.kind != "value":
                            res.append(x)
                            continue
                        s2 = self.emit(x.st, Ev("exit", "class:" + cq, cm, (), (), ("const", "str", b.kind), loc, f.qual))
                        if b.kind == "raise" and x.val == TRUE:
                            res.append(Out("normal", s2, NONE))
                        elif b.kind == "raise" and x.val not in (NONE, FALSE) and x.val[0] not in ("top",):
                            for b2 in (True, False):
                                res.append(Out("normal" if b2 else "raise", s2.cond(x.val, b2), NONE if b2 else b.val))
                        else:
                            res.append(Out(b.kind, s2, b.val))
            return self._cap(res)
        callee = cm[1] if cm[0] == "call" else cm
        name = ref_name(callee)
        st = self.emit(st, Ev("enter", name, cm, cm[2] if cm[0] == "call" else (), cm[3] if cm[0] == "call" else (), NONE, loc, f.qual))
        is_stack = name.endswith("ExitStack")
        if is_stack:
            st, cmv = self.fresh(st, "exitstack")
        else:
            cmv = cm if cm[0] in ("param", "fresh", "new") else ("entered", cm)
        suppress = name.endswith("contextlib.suppress")
        res = []
        for b in body(st, cmv):
            s = b.st
            outs = [s]
            if is_stack:
                outs = self._unwind_stack(cmv, s, f, n, b)
            for s2 in outs:
                s2 = self.emit(s2, Ev("exit", name, cm, (), (), ("const", "str", b.kind), loc, f.qual))
                res.append(Out(b.kind, s2, b.val))
                if suppress and b.kind == "raise":
                    res.append(Out("normal", s2, NONE))
        return self._cap(res)

    def _unwind_stack(self, stk, st, f, n, b):
        states = [st]
        for item in reversed(st.heap.get((stk, "@contents"), ())):
            nxt = []
            for s in states:
                if item[0] == "cm":
                    cm = item[1]
                    cq = self.typeof(cm, s)
                    exit_ = self.p.find_method(cq, "__exit__") if cq else None
                    name = ref_name(cm[1] if cm[0] in ("call", "cmcall") else cm)
                    if exit_ is not None and self._may_inline(exit_):
                        self.unwinding += 1
                        for x in self.inline_call(exit_, [cm, ("top", "et"), ("top", "e"), ("top", "tb")], {}, s, f, n, bound=True):
                            nxt.append(x.st)
                        self.unwinding -= 1
                    else:
                        nxt.append(s)
                    nxt = [self.emit(x, Ev("exit", name, cm, (), (), ("const", "str", b.kind), self.loc(n, f), f.qual)) for x in nxt]
                else:
                    _, fn, args, kw = item
                    self.unwinding += 1
                    for x in self.call(fn, list(args), list(kw), s, f, n):
                        nxt.append(x.st)
                    self.unwinding -= 1
            states = nxt
        return states

    def _with_gen(self, cm, st, f, n, body):
        """`with` over an inlined generator context manager."""
        _, fn, args, kwargs = cm
        func = self.p.funcs[fn[1]]
        bound = fn[0] == "bound"
        loc = self.loc(n, f)
        st = self.emit(st, Ev("enter", "func:" + func.qual, cm, args, kwargs, NONE, loc, f.qual))
        caller_env = st.env

        def hook(gs, val):
            """At the generator's yield: run the with-body in the caller's frame."""
            s = gs.copy()
            genv = s.env
            s.env = dict(caller_env)
            res = []
            saved = self.yield_hook
            self.yield_hook = saved[:-1]
            stk = self.stack
            self.stack = stk[:-1]
            try:
                bouts = body(s, val)
            finally:
                self.yield_hook = saved
                self.stack = stk
            for b in bouts:
                g2 = b.st.copy()
                newenv = g2.env
                g2.env = dict(genv)
                g2.env["@caller"] = tuple(sorted(newenv.items(), key=lambda kv: kv[0]))
                g2.env["@pending"] = (b.kind, b.val)
                if b.kind == "raise":
                    res.append(Out("raise", g2, b.val))
                else:
                    res.append(Out("value", g2, NONE))
            return res

        self.yield_hook = self.yield_hook + [hook]
        try:
            outs = self.inline_call(func, list(args), dict(kwargs), st, f, n, bound=bound, raw=True)
        finally:
            self.yield_hook = self.yield_hook[:-1]
        res = []
        for o in outs:
            s = o.st.copy()
            env = s.env
            pend = env.get("@pending")
            s.env = dict(env["@caller"]) if "@caller" in env else dict(caller_env)
            s = self.emit(s, Ev("exit", "func:" + func.qual, cm, (), (), ("const", "str", pend[0] if pend else "none"), loc, f.qual))
            if o.kind == "raise":
                res.append(Out("raise", s, o.val))
            elif pend is None:
                continue  # generator finished without yielding: runtime error
            elif pend[0] == "raise":
                res.append(Out("normal", s, NONE))  # generator swallowed it
            else:
                res.append(Out(pend[0], s, pend[1]))
        return self._cap(res)

    def s_Try(self, n, st, f):
        outs = self.block(n.body, st, f)
        mid = []
        for o in outs:
            if o.kind == "normal" and n.orelse:
                mid += self.block(n.orelse, o.st, f)
            elif o.kind == "raise" and n.handlers:
                mid += self._handle(n, o, f)
            else:
                mid.append(o)
        mid = self._cap(mid)
        if not n.finalbody:
            return mid
        res = []
        for o in mid:
            self.unwinding += o.kind == "raise"
            try:
                fouts = self.block(n.finalbody, o.st, f)
            finally:
                self.unwinding -= o.kind == "raise"
            for fo in fouts:
                res.append(Out(o.kind, fo.st, o.val) if fo.kind == "normal" else fo)
        return self._cap(res)

    s_TryStar = s_Try

    def _exc_class(self, v):
        if v[0] == "call":
            return v[1]
        if v[0] in ("class", "ext", "builtin"):
            return v
        return None

    def _exc_match(self, v, h):
        """True / False / None(unknown) whether exception term v is caught by handler class h."""
        c = self._exc_class(v)
        if h[0] == "builtin" and h[1] in ("BaseException",):
            return True
        if c is None:
            if h[0] == "builtin" and h[1] == "Exception":
                return True
            return None
        if c == h:
            return True
        if c[0] == "builtin" and h[0] == "builtin":
            a, b = getattr(builtins, c[1], None), getattr(builtins, h[1], None)
            if isinstance(a, type) and isinstance(b, type):
                return issubclass(a, b)
        if c[0] == "class":
            if h[0] == "class":
                return self.p.is_subclass(c[1], h[1])
            if h[0] == "builtin":
                exts = self.p.ext_bases(c[1])
                b = getattr(builtins, h[1], None)
                for e in exts:
                    a = getattr(builtins, e, None)
                    if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
                        return True
                return False if h[1] != "Exception" else True
        if h[0] == "builtin" and h[1] == "Exception":
            return True
        return None

    def _handle(self, n, o, f):
        res = []
        pending = [o]
        for h in n.handlers:
            nxt = []
            for p in pending:
                if h.type is None:
                    match = True
                else:
                    tv = self.eval(h.type, p.st, f)
                    ht = tv[0].val if tv and tv[0].kind == "value" else ("top", "h")
                    hs = list(ht[1:]) if ht[0] == "tuple" else [ht]
                    ms = [self._exc_match(p.val, x) for x in hs]
                    match = True if True in ms else (None if None in ms else False)
                if match is not False:
                    s = p.st
                    old = s.env.get("@exc")
                    s = s.set("@exc", p.val)
                    if h.name:
                        s = s.set(h.name, p.val if p.val[0] != "top" else ("top", "exc"))
                    for x in self.block(h.body, s, f):
                        s2 = x.st.copy()
                        if old is None:
                            s2.env.pop("@exc", None)
                        else:
                            s2.env["@exc"] = old
                        if h.name and x.kind == "normal":
                            s2.env.pop(h.name, None)
                        res.append(Out(x.kind, s2, x.val))
                if match is not True:
                    nxt.append(p)
            pending = nxt
        return res + pending

    # ------------------------------------------------------------------ match
    def s_Match(self, n, st, f):
        def k(s, subj):
            res = []
            pending = [s]
            for case in n.cases:
                nxt = []
                for s1 in pending:
                    for ok, s2 in self.pattern(case.pattern, subj, s1, f):
                        if not ok:
                            nxt.append(s2)
                            continue
                        if case.guard is not None:
                            for o in self.test(case.guard, s2, f):
                                if o.kind != "value":
                                    res.append(o)
                                elif o.val == TRUE:
                                    res += self.block(case.body, o.st, f)
                                else:
                                    nxt.append(o.st)
                        else:
                            res += self.block(case.body, s2, f)
                pending = nxt
                if not pending:
                    break
            return self._cap(res + [Out("normal", x, NONE) for x in pending])

        return self._vals(self.eval(n.subject, st, f), k)

    def _branch(self, st, t):
        """[(bool, state)] for the truth of term t."""
        v = self.truth(t, st)
        if v is not None:
            return [(v, st)]
        return [(True, st.cond(t, True)), (False, st.cond(t, False))]

    def pattern(self, p, subj, st, f):
        if isinstance(p, ast.MatchAs):
            res = []
            inner = [(True, st)] if p.pattern is None else self.pattern(p.pattern, subj, st, f)
            for ok, s in inner:
                res.append((ok, s.set(p.name, subj) if ok and p.name else s))
            return res
        if isinstance(p, ast.MatchOr):
            res = []
            pending = [st]
            for alt in p.patterns:
                nxt = []
                for s in pending:
                    for ok, s2 in self.pattern(alt, subj, s, f):
                        (res.append((True, s2)) if ok else nxt.append(s2))
                pending = nxt
            return res + [(False, s) for s in pending]
        if isinstance(p, ast.MatchValue):
            o = self.eval(p.value, st, f)[0]
            return self._branch(o.st, mkcmp("==", subj, o.val))
        if isinstance(p, ast.MatchSingleton):
            return self._branch(st, mkcmp("is", subj, const(p.value)))
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, st, f)[0].val
            res = []
            for ok, s in self._branch(st, ("isinstance", subj, cls)):
                if not ok:
                    res.append((False, s))
                    continue
                subs = []
                margs = None
                if cls[0] == "class":
                    ca = self.p.class_attr(cls[1], "__match_args__")
                    if ca is not None and isinstance(ca[1][1], ast.Tuple):
                        margs = [e.value for e in ca[1][1].elts]
                    elif self.p.is_dataclass(cls[1]):
                        margs = [x for x, _ in self.p.fields(cls[1])]
                for i, sp in enumerate(p.patterns):
                    if margs and i < len(margs):
                        subs.append((sp, margs[i]))
                    elif cls[0] == "builtin":
                        subs.append((sp, None))
                    else:
                        subs.append((sp, f"@{i}"))
                subs += list(zip(p.kwd_patterns, p.kwd_attrs))
                subs = [(a, b) if isinstance(a, ast.pattern) else (a, b) for a, b in subs]
                cur = [s]
                for sp, an in subs:
                    nx = []
                    for s1 in cur:
                        val = subj if an is None else self.getattr(subj, an, s1)
                        for ok2, s2 in self.pattern(sp, val, s1, f):
                            (nx.append(s2) if ok2 else res.append((False, s2)))
                    cur = nx
                res += [(True, s1) for s1 in cur]
            return res
        if isinstance(p, ast.MatchSequence):
            elts = p.patterns
            star = next((i for i, e in enumerate(elts) if isinstance(e, ast.MatchStar)), None)
            if subj[0] in ("tuple", "list") and star is None and not any(x[0] == "star" for x in subj[1:]):
                if len(subj) - 1 != len(elts):
                    return [(False, st)]
                start = [(True, st)]
            else:
                start = self._branch(st, ("match_seq", subj, const(len(elts) - (star is not None)), const(star is not None)))
            res = [(False, s) for ok, s in start if not ok]
            cur = [s for ok, s in start if ok]
            for i, sp in enumerate(elts):
                nx = []
                for s in cur:
                    if isinstance(sp, ast.MatchStar):
                        nx.append(s.set(sp.name, ("slice_of", subj, i, len(elts) - 1 - i)) if sp.name else s)
                        continue
                    idx = const(i if star is None or i < star else i - len(elts))
                    for ok, s2 in self.pattern(sp, self.item(subj, idx, s), s, f):
                        (nx.append(s2) if ok else res.append((False, s2)))
                cur = nx
            return res + [(True, s) for s in cur]
        if isinstance(p, ast.MatchMapping):
            start = self._branch(st, ("match_map", subj, tuple(ast.unparse(k) for k in p.keys)))
            res = [(False, s) for ok, s in start if not ok]
            cur = [s for ok, s in start if ok]
            for kx, sp in zip(p.keys, p.patterns):
                nx = []
                for s in cur:
                    kv = self.eval(kx, s, f)[0].val
                    for ok, s2 in self.pattern(sp, self.item(subj, kv, s), s, f):
                        (nx.append(s2) if ok else res.append((False, s2)))
                cur = nx
            if p.rest:
                cur = [s.set(p.rest, ("rest_of", subj)) for s in cur]
            return res + [(True, s) for s in cur]
        raise AnalysisBroken(f"pattern {type(p).__name__}")

    # ------------------------------------------------------------ conditions
    def truth(self, t, st):
        """Known truth value of a term in a state (or None)."""
        if t[0] == "const":
            return bool(t[2])
        if t[0] == "not":
            v = self.truth(t[1], st)
            return None if v is None else not v
        if t[0] in ("tuple", "list", "set") :
            if len(t) == 1:
                return False
            if not all(x[0] == "star" for x in t[1:]):
                return True
            return None
        if t[0] in ("closure", "func", "class", "bound", "mod"):
            return True
        if t[0] in ("item", "attr") and any(x[0] not in ("star", "pair") for x in st.heap.get((t, "@contents"), ())):
            return True
        if t[0] == "fresh" and t[1] in ("list", "set", "dict") and (t, "@cleared") not in st.heap:
            c = st.heap.get((t, "@contents"), ())
            if not any(x[0] == "star" for x in c) and (c or (t, "@esc") not in st.heap):
                return bool(c)
        if t[0] == "cmp" and t[1] == "is" and t[3] == NONE:
            x = t[2]
            if x[0] in ("item", "attr") and st.heap.get((x, "@contents")):
                return False
            if x[0] in ("tuple", "list", "dict", "set", "closure", "func", "class", "bound", "fresh", "new", "fstr", "comp", "partial", "mod") or (x[0] == "const" and x != NONE):
                return False
            if x[0] == "call" and x[1][0] == "class":
                return False
            for c, b in st.conds:
                if b and c[0] == "isinstance" and c[1] == x:
                    return False
                if b and c == x:
                    return False
        if t[0] == "isinstance":
            ct = None
            x, cls = t[1], t[2]
            if cls == NONE:
                return self.truth(("cmp", "is", x, NONE), st)
            if x[0] == "call" and x[1][0] == "class":
                ct = x[1][1]
            elif x[0] == "new":
                ct = x[1]
            if ct is not None and cls[0] == "class":
                if self.p.is_subclass(ct, cls[1]):
                    return True
                if cls[1] in self.p.classes and ct in self.p.classes and not self.p.ext_bases(ct) and not self.p.subclasses(ct, strict=True):
                    return False
            if x[0] == "const" and cls[0] in ("class", "ext"):
                return False
            if x[0] == "const" and cls[0] == "builtin":
                ty = getattr(builtins, cls[1], None)
                if isinstance(ty, type):
                    return isinstance(x[2], ty)
            if x[0] in ("tuple", "list") and cls[0] == "builtin" and isinstance(getattr(builtins, cls[1], None), type):
                return issubclass(tuple if x[0] == "tuple" else list, getattr(builtins, cls[1]))
            if x[0] in ("tuple", "list") and cls[0] == "ext" and not cls[1].startswith(("typing.", "collections.abc.", "_collections_abc.", "collections.")):
                return False
            for c, b in st.conds:
                if c[0] == "isinstance" and c[1] == x and b and c[2][0] == "class" and cls[0] == "class":
                    if self.p.is_subclass(c[2][1], cls[1]):
                        return True
                if c[0] == "isinstance" and c[1] == x and not b and c[2][0] == "class" and cls[0] == "class":
                    if self.p.is_subclass(cls[1], c[2][1]):
                        return False
                if c == ("cmp", "is", x, NONE) and b:
                    return False
        if t[0] == "cmp" and t[1] == "==" and t[3][0] == "const":
            for c, b in st.conds:
                if b and c[0] == "cmp" and c[1] == "==" and c[2] == t[2] and c[3][0] == "const" and c[3] != t[3]:
                    return False
        if t[0] == "cmp" and t[1] in ("is",) and t[2] == t[3]:
            return True
        if self.functional and t[0] == "cmp" and t[1] == "is" and t[3] == NONE and t[2][0] == "call" and t[2][1][0] == "attr" and t[2][1][2] in ("copy", "fill", "zero"):
            return False
        v = st.holds(t)
        if v is not None:
            return v
        v = st.holds(("not", t))
        if v is not None:
            return not v
        # truthiness implied by "x is None"
        if st.holds(("cmp", "is", t, NONE)) is True:
            return False
        return None

    def test(self, e, st, f):
        """Outcomes with val TRUE/FALSE for the truth of expression e."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [Out(o.kind, o.st, (FALSE if o.val == TRUE else TRUE) if o.kind == "value" else o.val) for o in self.test(e.operand, st, f)]
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            res = []
            cur = [st]
            for i, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    for o in self.test(x, s, f):
                        if o.kind != "value":
                            res.append(o)
                        elif (o.val == TRUE) == is_and:
                            nxt.append(o.st)
                        else:
                            res.append(o)
                cur = nxt
            return res + [Out("value", s, TRUE if is_and else FALSE) for s in cur]
        if isinstance(e, ast.IfExp):
            res = []
            for o in self.test(e.test, st, f):
                if o.kind != "value":
                    res.append(o)
                else:
                    res += self.test(e.body if o.val == TRUE else e.orelse, o.st, f)
            return res
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts = []
            left = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [op], [r]), e))
                left = r
            return self.test(ast.copy_location(ast.BoolOp(ast.And(), parts), e), st, f)
        return self._vals(self.eval(e, st, f), self.test_term)

    def test_term(self, s, t):
        flip = False
        while t[0] == "not":
            t = t[1]
            flip = not flip
        # bool(x) / len(x) > 0 style normalisation
        if t[0] == "call" and t[1] == ("builtin", "bool") and len(t[2]) == 1:
            return self.test_term(s, neg(t[2][0]) if flip else t[2][0])
        if t[0] == "isinstance_any":
            res = []
            cur = s
            for c in t[2:]:
                v = self.truth(("isinstance", t[1], c), cur)
                if v is True:
                    return res + [Out("value", cur, FALSE if flip else TRUE)]
                if v is None:
                    res.append(Out("value", cur.cond(("isinstance", t[1], c), True), FALSE if flip else TRUE))
                    cur = cur.cond(("isinstance", t[1], c), False)
            return res + [Out("value", cur, TRUE if flip else FALSE)]
        if t[0] == "isinstance" and t[2] == NONE:
            return self.test_term(s, neg(("cmp", "is", t[1], NONE)) if flip else ("cmp", "is", t[1], NONE))
        if t[0] == "cmp" and t[1] == "in" and t[3][0] in ("tuple", "list", "set") and not any(x[0] == "star" for x in t[3][1:]):
            res = []
            cur = s
            for c in t[3][1:]:
                x = mkcmp("==", t[2], c)
                v = self.truth(x, cur)
                if v is True:
                    return res + [Out("value", cur, FALSE if flip else TRUE)]
                if v is None:
                    res.append(Out("value", cur.cond(x, True), FALSE if flip else TRUE))
                    cur = cur.cond(x, False)
            return res + [Out("value", cur, TRUE if flip else FALSE)]
        v = self.truth(t, s)
        if v is not None:
            return [Out("value", s, const(v != flip))]
        return [Out("value", s.cond(t, True), const(not flip)), Out("value", s.cond(t, False), const(flip))]

    # ------------------------------------------------------------ expressions
    def eval(self, e, st, f, as_cm=False):
        if isinstance(e, ast.Call):
            return self.e_Call(e, st, f, as_cm)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken(f"expression {type(e).__name__} not supported at {self.loc(e, f)}")
        return m(e, st, f)

    def V(self, st, v):
        return [Out("value", st, v)]

    def e_Constant(self, e, st, f):
        return self.V(st, const(e.value) if e.value is not Ellipsis else ("const", "ellipsis", "..."))

    def e_Name(self, e, st, f):
        return self.V(st, self.name(e.id, st, f))

    def name(self, n, st, f):
        if n in st.env and n not in st.env.get("@globals", ()):
            return st.env[n]
        c = st.env.get("@closure")
        if c is not None:
            for k, v in c:
                if k == n:
                    return v
        if n == "__name__":
            return const(f.module.name)
        r = self.p.lookup(f.module.name, n)
        if r is not None and not (r[0] == "ext" and n not in f.module.env):
            if r[0] == "global":
                v = st.heap.get((r, "@value"))
                return v if v is not None else self._const_global(r)
            return r
        if hasattr(builtins, n):
            return ("builtin", n)
        return ("name", n)

    def _const_global(self, r):
        modname, _, n = r[1].rpartition(".")
        m = self.p.modules.get(modname)
        b = m.env.get(n) if m else None
        if b and b[0] == "expr" and isinstance(b[1], ast.Constant) and b[1].value is not Ellipsis:
            # only module constants that are never rebound through `global`
            if n not in self._rebound(m):
                return const(b[1].value)
        return r

    def _rebound(self, m):
        c = getattr(m, "rebound", None)
        if c is None:
            c = m.rebound = {x for g in ast.walk(m.tree) if isinstance(g, ast.Global) for x in g.names}
        return c

    def e_Attribute(self, e, st, f):
        return self._vals(self.eval(e.value, st, f), lambda s, b: self.V(s, self.getattr(b, e.attr, s)))

    def getattr(self, b, attr, st):
        v = st.heap.get((b, attr))
        if v is not None:
            return v
        if b[0] in ("mod", "ext", "class"):
            r = self.p.attr_of(b, attr)
            if r[0] == "global":
                v = st.heap.get((r, "@value"))
                return v if v is not None else r
            return r
        if b[0] == "call" and b[1][0] == "class":
            v = self.ctor_field(b, attr)
            if v is not None:
                return v
        if b[0] == "call" and b[1] == ("builtin", "super"):
            return ("superattr", attr)
        return ("attr", b, attr)

    def e_Subscript(self, e, st, f):
        def k(s, b):
            return self._vals(self.eval(e.slice, s, f), lambda s2, key: self.V(s2, self.item(b, key, s2)))

        return self._vals(self.eval(e.value, st, f), k)

    def item(self, b, key, st):
        v = st.heap.get((b, ("item", key)))
        if v is not None:
            return v
        if b[0] in ("tuple", "list") and key[0] == "const" and isinstance(key[2], int) and not any(x[0] == "star" for x in b[1:]):
            if -len(b) + 1 <= key[2] < len(b) - 1:
                return b[1:][key[2]]
        if b[0] == "dict":
            for kv in b[1:]:
                if kv[0] == "pair" and kv[1] == key:
                    return kv[2]
        if b[0] in ("ext", "class", "global", "builtin") and b[0] != "global":
            if b[0] == "ext" and key[0] in ("attr", "param", "call", "elem", "key", "val", "item", "fstr"):
                return ("item", b, key)  # member of an enumeration
            return b  # generic alias Foo[T]
        return ("item", b, key)

    def e_Slice(self, e, st, f):
        parts = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        return self.seq(parts, st, f, lambda s, vs: self.V(s, ("slice",) + tuple(vs)))

    def seq(self, exprs, st, f, k):
        """Evaluate expressions left to right then continue with the list of values."""
        def go(i, s, acc):
            if i == len(exprs):
                return k(s, acc)
            x = exprs[i]
            if isinstance(x, ast.Starred):
                def ks(s2, v):
                    if v[0] in ("tuple", "list"):
                        return go(i + 1, s2, acc + list(v[1:]))
                    return go(i + 1, s2, acc + [("star", v)])

                return self._vals(self.eval(x.value, s, f), ks)
            return self._vals(self.eval(x, s, f), lambda s2, v: go(i + 1, s2, acc + [v]))

        return go(0, st, [])

    def e_Tuple(self, e, st, f):
        return self.seq(e.elts, st, f, lambda s, vs: self.V(s, ("tuple",) + tuple(vs)))

    def _container(self, kind, e, st, f):
        def k(s, vs):
            if not vs:
                s, t = self.fresh(s, kind)
                return self.V(s, t)
            return self.V(s, (kind,) + tuple(vs))

        return self.seq(e.elts, st, f, k)

    def e_List(self, e, st, f):
        return self._container("list", e, st, f)

    def e_Set(self, e, st, f):
        return self._container("set", e, st, f)

    def e_Dict(self, e, st, f):
        if not e.keys:
            s, t = self.fresh(st, "dict")
            return self.V(s, t)
        flat = []
        for kx, vx in zip(e.keys, e.values):
            flat += [kx if kx is not None else ast.Constant("**"), vx]

        def k(s, vs):
            items = []
            for i, kx in enumerate(e.keys):
                kv, vv = vs[2 * i], vs[2 * i + 1]
                if kx is None:
                    if vv[0] == "dict":
                        items += list(vv[1:])
                    else:
                        items.append(("dstar", vv))
                else:
                    items.append(("pair", kv, vv))
            return self.V(s, ("dict",) + tuple(items))

        return self.seq(flat, st, f, k)

    def e_JoinedStr(self, e, st, f):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        return self.seq(parts, st, f, lambda s, vs: self.V(s, ("fstr",) + tuple(vs)))

    def e_FormattedValue(self, e, st, f):
        return self.eval(e.value, st, f)

    def binop(self, op, l, r):
        if l[0] == "const" and r[0] == "const" and type(l[2]) in (int, float, str) and type(r[2]) in (int, float, str):
            try:
                a, b = l[2], r[2]
                v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "**": lambda: a**b if isinstance(b, (int, float)) and abs(b) < 64 else None, "//": lambda: a // b, "%": lambda: a % b if not isinstance(a, str) else None}.get(op, lambda: None)()
                if v is not None and not isinstance(v, complex):
                    return const(v)
            except Exception:
                pass
        if op == "+" and l[0] == r[0] and l[0] in ("tuple", "list"):
            return l + r[1:]
        if op == "|" and l[0] == "dict" and r[0] == "dict":
            return l + r[1:]
        return ("bin", op, l, r)

    def e_BinOp(self, e, st, f):
        return self._vals(self.eval(e.left, st, f), lambda s, l: self._vals(self.eval(e.right, s, f), lambda s2, r: self.V(s2, self.binop(_BIN[type(e.op)], l, r))))

    def e_UnaryOp(self, e, st, f):
        if isinstance(e.op, ast.Not):
            return self._vals(self.eval(e.operand, st, f), lambda s, v: self.V(s, const(not self.truth(v, s)) if self.truth(v, s) is not None else neg(v)))

        def k(s, v):
            if isinstance(e.op, ast.USub):
                return self.V(s, const(-v[2]) if v[0] == "const" and isinstance(v[2], (int, float)) and not isinstance(v[2], bool) else ("un", "-", v))
            if isinstance(e.op, ast.UAdd):
                return self.V(s, v)
            return self.V(s, ("un", "~", v))

        return self._vals(self.eval(e.operand, st, f), k)

    def e_Compare(self, e, st, f):
        if len(e.ops) == 1:
            return self._vals(self.eval(e.left, st, f), lambda s, l: self._vals(self.eval(e.comparators[0], s, f), lambda s2, r: self.V(s2, mkcmp(_CMP[type(e.ops[0])], l, r))))

        def k(s, vs):
            terms = [mkcmp(_CMP[type(op)], vs[i], vs[i + 1]) for i, op in enumerate(e.ops)]
            return self.V(s, ("all",) + tuple(terms))

        return self.seq([e.left] + list(e.comparators), st, f, k)

    def e_BoolOp(self, e, st, f):
        is_and = isinstance(e.op, ast.And)
        res = []
        cur = [st]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for o in self.eval(x, s, f):
                    if o.kind != "value" or last:
                        res.append(o)
                        continue
                    for o2 in self.test_term(o.st, o.val):
                        if (o2.val == TRUE) == is_and:
                            nxt.append(o2.st)
                        else:
                            v = o.val
                            if v[0] in ("cmp", "isinstance", "not", "isinstance_any"):
                                v = TRUE if o2.val == TRUE else FALSE
                            res.append(Out("value", o2.st, v))
            cur = nxt
        return res

    def e_IfExp(self, e, st, f):
        res = []
        for o in self.test(e.test, st, f):
            if o.kind != "value":
                res.append(o)
            else:
                res += self.eval(e.body if o.val == TRUE else e.orelse, o.st, f)
        return self._cap(res)

    def e_NamedExpr(self, e, st, f):
        return self._vals(self.eval(e.value, st, f), lambda s, v: self.V(s.set(e.target.id, v), v))

    def e_Starred(self, e, st, f):
        return self._vals(self.eval(e.value, st, f), lambda s, v: self.V(s, ("star", v)))

    def e_Await(self, e, st, f):
        return self.eval(e.value, st, f)

    def closure(self, n, st, f, name):
        a = n.args
        bound = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        body = n.body if isinstance(n.body, list) else [n.body]
        free = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name):
                    free.add(x.id)
                elif isinstance(x, (ast.Nonlocal, ast.Global)):
                    free.update(x.names)
        cap = []
        for nm in sorted(free - bound):
            if nm in st.env:
                cap.append((nm, st.env[nm]))
            else:
                for k, v in st.env.get("@closure", ()):
                    if k == nm:
                        cap.append((nm, v))
        key = f"{f.qual}.<locals>.{name}"
        if isinstance(n, ast.Lambda):
            key = f"{f.qual}.<lambda>:{ast.unparse(n)}"
        _CLOSURES[key] = (n, f)
        return ("closure", key, tuple(cap))

    def e_Lambda(self, e, st, f):
        return self.V(st, self.closure(e, st, f, "<lambda>"))

    def e_Yield(self, e, st, f):
        def k(s, v):
            if self.yield_hook:
                return self.yield_hook[-1](s, v)
            s = self.emit(s, Ev("yield", "", NONE, (), (), v, self.loc(e, f), f.qual))
            res = self.V(s, ("sent",))
            if self.yield_raises and not self.unwinding:
                res.append(Out("raise", s, ("top", "body-exception")))
            return res

        if e.value is None:
            return k(st, NONE)
        return self._vals(self.eval(e.value, st, f), k)

    def e_YieldFrom(self, e, st, f):
        def k(s, v):
            return self.V(self.emit(s, Ev("yield", "from", NONE, (), (), ("elem", v) if v[0] != "comp" else v[2], self.loc(e, f), f.qual, (v,))), ("sent",))

        return self._vals(self.eval(e.value, st, f), k)

    # --------------------------------------------------------- comprehensions
    def _comp(self, kind, e, elts, st, f):
        """Evaluate a comprehension body once with abstract elements."""
        if len(e.generators) == 1 and kind in ("list", "gen", "set"):
            r = self._comp_known(kind, e, elts, st, f)
            if r is not None:
                return r

        def gen(i, s, its):
            if i == len(e.generators):
                return self.seq(elts, s, f, lambda s2, vs: self.V(s2, ("@c", tuple(vs), its)))
            g = e.generators[i]

            def k(s1, it):
                res = []
                el = self.elem(it)
                if it[0] in ("tuple", "list") and len(it) == 2 and it[1][0] != "star":
                    el = it[1]
                for oa in self.assign(g.target, el, s1, f, e):
                    cur = [oa.st]
                    for c in g.ifs:
                        nx = []
                        for s2 in cur:
                            for o in self.test(c, s2, f):
                                if o.kind != "value":
                                    res.append(o)
                                elif o.val == TRUE:
                                    nx.append(o.st)
                        cur = nx
                    for s2 in cur:
                        base = set(s1.conds)
                        ifs = tuple(c for c in s2.conds if c not in base)
                        filt.update(ifs)
                        its2 = its + ((it, ifs),)
                        res += gen(i + 1, s2, its2)
                return res

            return self._vals(self.eval(g.iter, s, f), k)

        outer_env = st.env
        res = []
        filt = set()
        for o in gen(0, st, ()):
            s = o.st.copy()
            s.env = {**{k: v for k, v in o.st.env.items() if k in outer_env and k not in _targets(e)}, **{k: outer_env[k] for k in _targets(e) if k in outer_env}}
            s.conds = st.conds + tuple(c for c in o.st.conds if c not in filt and c not in st.conds)
            if o.kind == "value":
                _, vs, its = o.val
                elt = vs[0] if len(vs) == 1 else ("pair",) + vs
                if len(its) == 1 and its[0][1] == () and elt == self.elem(its[0][0]) and kind in ("list", "gen"):
                    # identity comprehension is a copy
                    t = ("comp", kind, elt, its)
                else:
                    t = ("comp", kind, elt, its)
                if self.comp_events:
                    s = self.emit(s, Ev("comp", kind, NONE, (), (), t, self.loc(e, f), f.qual))
                res.append(Out("value", s, t))
            else:
                res.append(Out(o.kind, s, o.val))
        if not res:
            s, t = self.fresh(st, kind)
            res = [Out("value", s, t)]
        return self._cap(res)

    def known_items(self, it, st):
        """Exact elements of an iterable term, or None."""
        while it[0] == "call" and it[1][0] == "builtin" and it[1][1] in ("list", "tuple", "iter") and len(it[2]) == 1 and not it[3]:
            it = it[2][0]
        if it[0] in ("tuple", "list", "call", "item"):
            return self.concrete_items(it, st)
        if it[0] == "fresh" and it[1] == "list" and (it, "@cleared") not in st.heap and (it, "@esc") not in st.heap:
            c = st.heap.get((it, "@contents"), ())
            if c and len(c) <= 8 and not any(x[0] in ("star", "pair") for x in c):
                return list(c)
        return None

    def _comp_known(self, kind, e, elts, st, f):
        """A comprehension over exactly known elements is unrolled."""
        g = e.generators[0]
        src = self.eval(g.iter, st, f)
        if len(src) != 1 or src[0].kind != "value":
            return None
        items = self.known_items(src[0].val, src[0].st)
        if items is None:
            return None
        outer = st.env
        cur, res = [(src[0].st, ())], []
        for el in items:
            nxt = []
            for s, acc in cur:
                for oa in self.assign(g.target, el, s, f, e):
                    live = [(oa.st, True)]
                    for c in g.ifs:
                        l2 = []
                        for s2, on in live:
                            if not on:
                                l2.append((s2, on))
                                continue
                            for o in self.test(c, s2, f):
                                if o.kind != "value":
                                    res.append(o)
                                else:
                                    l2.append((o.st, o.val == TRUE))
                        live = l2
                    for s2, on in live:
                        if not on:
                            nxt.append((s2, acc))
                            continue
                        for o in self.seq(elts, s2, f, lambda s3, vs: self.V(s3, ("@c",) + tuple(vs))):
                            if o.kind == "value":
                                nxt.append((o.st, acc + (o.val[1],)))
                            else:
                                res.append(o)
            cur = nxt
            if len(cur) > 64:
                return None
        for s, acc in cur:
            s = s.copy()
            s.env = {**{k: v for k, v in s.env.items() if k in outer and k not in _targets(e)}, **{k: outer[k] for k in _targets(e) if k in outer}}
            res.append(Out("value", s, ("set" if kind == "set" else "list",) + acc))
        return self._cap(res)

    def e_ListComp(self, e, st, f):
        return self._comp("list", e, [e.elt], st, f)

    def e_SetComp(self, e, st, f):
        return self._comp("set", e, [e.elt], st, f)

    def e_GeneratorExp(self, e, st, f):
        return self._comp("gen", e, [e.elt], st, f)

    def e_DictComp(self, e, st, f):
        return self._comp("dict", e, [e.key, e.value], st, f)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, f, as_cm=False):
        def k(s, fn):
            def ka(s2, args):
                kwx = [kw.value for kw in e.keywords]

                def kk(s3, kvs):
                    kws = []
                    for kw, v in zip(e.keywords, kvs):
                        if kw.arg is None:
                            if v[0] == "dict" and all(x[0] == "pair" and x[1][0] == "const" for x in v[1:]):
                                if s3.heap.get((v, "@cleared")) is not None or any(x[0] != "pair" or x[1][0] != "const" for x in s3.heap.get((v, "@contents"), ())):
                                    kws.append(("**", v))
                                    continue
                                d = {x[1][2]: x[2] for x in v[1:]}
                                for (ob, l), y in s3.heap.items():
                                    if ob == v and isinstance(l, tuple) and l[0] == "item" and isinstance(l[1], tuple) and l[1][0] == "const":
                                        d[l[1][2]] = y
                                kws += d.items()
                            elif v[0] == "fresh" and not s3.heap.get((v, "@contents")):
                                pass
                            else:
                                kws.append(("**", v))
                        else:
                            kws.append((kw.arg, v))
                    return self.call(fn, args, kws, s3, f, e, as_cm)

                return self.seq(kwx, s2, f, kk)

            return self.seq(e.args, s, f, ka)

        # method call on super()
        return self._vals(self.eval(e.func, st, f), k)

    def _raises(self, st, ev):
        if self.exc != "calls" or self.unwinding or self.no_exc(ev):
            return []
        return [Out("raise", st, ("top", "exception"))]

    def _may_inline(self, fn: Func):
        if len(self.stack) > self.max_depth:
            return False
        if any(g.qual == fn.qual for g in self.stack):
            return False
        if isinstance(fn.node, ast.AsyncFunctionDef):
            return False
        if any(isinstance(d, ast.Name) and d.id == "abstractmethod" or isinstance(d, ast.Attribute) and d.attr == "abstractmethod" for d in fn.node.decorator_list):
            return False  # some implementation is called
        return self.inline(fn, self)

    def _updated(self, st, old, new, args):
        """The object `old` now holds the value `new`."""
        st = st.copy()
        st.env = {k: new if v == old else v for k, v in st.env.items()}
        st.heap = {k: new if v == old and isinstance(k[1], str) and not k[1].startswith("@") else v for k, v in st.heap.items()}
        if old[0] == "attr":
            st.heap[(old[1], old[2])] = new
        return st

    def _functional(self, fn, args, kws, st, f, node, as_cm):
        target = next((v for k, v in kws if k == "out"), None)
        if target is not None and target != NONE and fn[0] in ("ext", "attr"):
            kws = [(k, v) for k, v in kws if k != "out"]
        elif fn[0] == "attr" and fn[2].endswith("_") and not fn[2].endswith("__") and fn[2] != "_" and not fn[2].startswith("_") and fn[2] not in ("requires_grad_", "share_memory_"):
            target = fn[1]
            fn = ("attr", fn[1], fn[2][:-1])
        else:
            return None
        res = []
        for o in self.call(fn, args, kws, st, f, node, as_cm):
            if o.kind == "value":
                ev = Ev("inplace", "", target, (), (), o.val, self.loc(node, f), f.qual)
                o = Out("value", self._updated(self.emit(o.st, ev), target, o.val, args), o.val)
            res.append(o)
        return res

    def call(self, fn, args, kws, st, f, node, as_cm=False):
        if self.functional:
            r = self._functional(fn, args, kws, st, f, node, as_cm)
            if r is not None:
                return r
        loc = self.loc(node, f)
        kwt = tuple(sorted(kws, key=lambda kv: kv[0]))
        argt = tuple(args)
        h = fn[0]
        if h not in ("builtin", "class"):
            for a in argt + tuple(v for _, v in kwt):
                if a[0] == "fresh" and (a, "@esc") not in st.heap:
                    st = st.hset((a, "@esc"), TRUE)
        md = self.models.get(ref_name(fn))
        if md is not None:
            r = md(self, fn, argt, dict(kwt), st, loc, f)
            if r is not None:
                return r
        # --- partial
        if h == "partial":
            return self.call(fn[1], list(fn[2]) + list(args), list({**dict(fn[3]), **dict(kws)}.items()), st, f, node, as_cm)
        if h == "alt":
            res = []
            for x in fn[1:]:
                res += self.call(x, args, kws, st, f, node, as_cm)
            return self._cap(res)
        # --- builtins with meaning
        if fn == ("builtin", "isinstance") and len(args) == 2:
            cls = args[1]
            return self.V(st, self._isinstance(args[0], cls))
        if fn in (("ext", "typing.cast"), ("ext", "typing_extensions.cast")) and len(args) == 2:
            return self.V(st, args[1])
        if fn == ("ext", "functools.partial") and args:
            return self.V(st, ("partial", args[0], argt[1:], kwt))
        if fn in (("ext", "contextlib.nullcontext"),) and as_cm:
            return self.V(st, ("call", fn, argt, kwt))
        if fn == ("builtin", "getattr") and len(args) >= 2 and args[1][0] == "const" and len(args) == 2:
            return self.V(st, self.getattr(args[0], args[1][2], st))
        if fn == ("builtin", "setattr") and len(args) == 3:
            nm = args[1][2] if args[1][0] == "const" else "@dynamic"
            ev = Ev("setattr", nm, args[0], (args[1],), (), args[2], loc, f.qual)
            s = self.emit(st, ev)
            s = s.hset((args[0], ("dyn", args[1]) if nm == "@dynamic" else nm), args[2])
            return self.V(s, NONE) + self._raises(s, ev)
        if fn == ("builtin", "delattr") and len(args) == 2:
            nm = args[1][2] if args[1][0] == "const" else "@dynamic"
            s = self.emit(st, Ev("delattr", nm, args[0], (args[1],), (), NONE, loc, f.qual))
            return self.V(s.hset((args[0], ("dyn", args[1]) if nm == "@dynamic" else nm), ("absent",)), NONE)
        if fn == ("builtin", "super") :
            return self.V(st, ("call", fn, argt, kwt))
        if h == "builtin" and fn[1] in ("list", "dict", "set") and not args and not kws:
            s, t = self.fresh(st, fn[1])
            return self.V(s, t)
        if h == "builtin" and fn[1] == "dict" and not args and kws and all(k != "**" for k, _ in kws):
            return self.V(st, ("dict",) + tuple(("pair", const(k), v) for k, v in kws))
        if h == "builtin" and fn[1] in ("tuple", "list") and len(args) == 1 and args[0][0] in ("tuple", "list") and not any(e.obj == args[0] and e.kind in ("call", "setitem", "aug") for e in st.events):
            return self.V(st, (fn[1],) + args[0][1:])
        if h == "builtin" and fn[1] in ("any", "all") and len(args) == 1 and args[0][0] in ("tuple", "list") and not any(x[0] == "star" for x in args[0][1:]):
            stop = TRUE if fn[1] == "any" else FALSE
            cur, res = [st], []
            for x in args[0][1:]:
                nxt = []
                for s in cur:
                    for o in self.test_term(s, x):
                        if o.val == stop:
                            res.append(Out("value", o.st, stop))
                        else:
                            nxt.append(o.st)
                cur = nxt
            return self._cap(res + [Out("value", s, FALSE if stop == TRUE else TRUE) for s in cur])
        # --- closures
        if h == "closure":
            n, df = _CLOSURES[fn[1]]
            ev = Ev("call", ref_name(fn), NONE, argt, kwt, NONE, loc, f.qual)
            s = self.emit(st, ev)
            cf = self.p.funcs.get(fn[1]) or Func(fn[1], n, df.module, None)
            if len(self.stack) <= self.max_depth + 2 and not any(g.qual == cf.qual for g in self.stack):
                outs = self.inline_call(cf, list(args), dict(kws), s, f, node, captured=fn[2], defq=df.qual)
                if outs is not None:
                    return outs
            return self.V(s, ("call", fn, argt, kwt)) + self._raises(s, ev)
        # --- super().method
        if h == "superattr":
            cur = next((g for g in reversed(self.stack) if g.cls is not None), None)
            selft = None
            if cur is not None:
                ps = cur.params()
                selft = st.env.get(ps[0]) if ps else None
                target = self.p.find_method(self.typeof(selft, st) or cur.cls.qual, fn[1], after=cur.cls.qual) if selft else None
                if target is not None:
                    fn = ("bound", target.qual, selft)
                else:
                    fn = ("attr", ("super", cur.cls.qual, selft or NONE), fn[1])
                h = fn[0]
        # --- method on typed object
        if h == "attr":
            cq = self.typeof(fn[1], st)
            if cq is not None:
                mth = self.p.find_method(cq, fn[2])
                if mth is not None and not mth.is_property:
                    fn = ("func", mth.qual) if mth.is_static else ("bound", mth.qual, fn[1])
                    h = fn[0]
        if h == "attr":
            base, m = fn[1], fn[2]
            if base[0] in ("fresh", "global", "attr") or (base[0] == "item" and m in MUTATORS):
                if m in MUTATORS:
                    items = ()
                    if m in ("append", "add", "appendleft"):
                        items = argt[:1]
                    elif m == "insert":
                        items = argt[1:2]
                    elif m in ("extend", "update", "extendleft"):
                        items = tuple(("star", a) for a in argt) + tuple(("pair", const(k), v) for k, v in kwt)
                    elif m == "setdefault" and len(argt) == 2:
                        items = (("pair", argt[0], argt[1]),)
                    st = st.hset((base, "@contents"), st.heap.get((base, "@contents"), ()) + items)
            if base[0] == "fresh" and (m in ("clear", "remove", "discard", "popitem") or (m == "pop" and args)):
                st = st.hset((base, "@cleared"), TRUE)
            if m == "setdefault" and len(argt) == 2 and not kws:
                # the entry is a location of its own: existing value or the default
                cell = st.heap.get((base, ("item", argt[0])))
                if cell is None or cell == ("absent",):
                    cell = ("item", base, argt[0])
                    st = st.hset((base, ("item", argt[0])), cell)
                return self.V(self.emit(st, Ev("call", "method:.setdefault", base, argt, kwt, cell, loc, f.qual)), cell)
            if m in ("pop", "popleft") and not args and not kws:
                known = st.heap.get((base, "@contents"), ())
                if known and all(x[0] not in ("star", "pair") for x in known) and (base[0] == "fresh" or m == "pop"):
                    v, rest = (known[-1], known[:-1]) if m == "pop" else (known[0], known[1:])
                    val = ("call", fn, argt, kwt)
                    s = self.emit(st, Ev("call", "method:." + m, base, argt, kwt, v, loc, f.qual))
                    return self.V(s.hset((base, "@contents"), rest), v)
            if m == "enter_context" and len(args) == 1:
                cm = args[0]
                s = self.emit(st, Ev("enter", ref_name(cm[1] if cm[0] in ("call", "cmcall") else cm), cm, (), (), NONE, loc, f.qual, (base,)))
                s = s.hset((base, "@contents"), s.heap.get((base, "@contents"), ()) + (("cm", cm),))
                cq = self.typeof(cm, s)
                enter = self.p.find_method(cq, "__enter__") if cq else None
                if enter is not None and self._may_inline(enter):
                    return self.inline_call(enter, [cm], {}, s, f, node, bound=True)
                return self.V(s, ("entered", cm)) + self._raises(st, Ev("call", "method:.enter_context", base, argt, kwt, NONE, loc, f.qual))
            if m == "callback" and args and base[0] == "fresh" and base[1] == "exitstack":
                s = st.hset((base, "@contents"), st.heap.get((base, "@contents"), ()) + (("cb", args[0], argt[1:], kwt),))
                return self.V(s, args[0])
            val = ("call", fn, argt, kwt)
            if m == "get" and args and not kws:
                v = st.heap.get((base, ("item", args[0])))
                if v is not None:
                    return self.V(st, v)
            if m == "pop" and args and base[0] in ("fresh", "global", "attr", "param"):
                v = st.heap.get((base, ("item", args[0])), ("item", base, args[0]))
                ev = Ev("delitem", "pop", base, (args[0],), (), val, loc, f.qual)
                st = self.emit(st, ev).hset((base, ("item", args[0])), ("absent",))
                return self.V(st, v if len(args) == 1 else val)
            if m == "__getitem__" and len(args) == 1:
                return self.V(st, self.item(base, args[0], st))
            ev = Ev("call", "method:." + m, base, argt, kwt, val, loc, f.qual)
            s = self.emit(st, ev)
            return self.V(s, val) + self._raises(st, ev)
        # --- project functions
        if h in ("func", "bound"):
            target = self.p.funcs.get(fn[1])
            if target is not None:
                if target.is_cm:
                    if as_cm and self._may_inline(target):
                        return self.V(st, ("cmcall", fn, ((fn[2],) if h == "bound" else ()) + argt, kwt))
                    val = ("call", fn, argt, kwt)
                    ev = Ev("call", "func:" + fn[1], fn[2] if h == "bound" else NONE, argt, kwt, val, loc, f.qual)
                    return self.V(self.emit(st, ev), val)
                full = ([fn[2]] if h == "bound" else []) + list(args)
                if target.is_classmethod and h == "func":
                    full = [("class", target.cls.qual)] + list(args) if target.cls else list(args)
                val = ("call", fn, argt, kwt)
                ev = Ev("call", "func:" + fn[1], fn[2] if h == "bound" else NONE, argt, kwt, val, loc, f.qual)
                s = self.emit(st, ev)
                if not _is_generator(target) and self._may_inline(target):
                    outs = self.inline_call(target, full, dict(kws), s, f, node, bound=True)
                    if outs is not None:
                        return outs
                return self.V(s, val) + self._raises(s, ev)
        # --- classes
        if h == "class":
            val = ("call", fn, argt, kwt)
            ev = Ev("call", "class:" + fn[1], NONE, argt, kwt, val, loc, f.qual)
            s = self.emit(st, ev)
            if self.ctor_inline(fn[1]):
                init = self.p.find_method(fn[1], "__init__")
                if init is not None:
                    s2, obj = s.copy(), None
                    s2.nfresh += 1
                    obj = ("new", fn[1], s2.nfresh)
                    res = []
                    outs = self.inline_call(init, [obj] + list(args), dict(kws), s2, f, node, bound=True)
                    if outs is not None:
                        for o in outs:
                            res.append(Out("value", o.st, obj) if o.kind == "value" else o)
                        return res
            return self.V(s, val) + self._raises(s, ev)
        # --- everything else
        val = ("call", fn, argt, kwt)
        ev = Ev("call", ref_name(fn), fn[1] if h in ("item",) else (fn if h in ("param", "name") else NONE), argt, kwt, val, loc, f.qual)
        s = self.emit(st, ev)
        return self.V(s, val) + (self._raises(s, ev) if not (h == "builtin" and fn[1] in _SAFE_BUILTINS) else [])

    def _isinstance(self, x, cls):
        opts = self._flatten_types(cls)
        if len(opts) == 1:
            return ("isinstance", x, opts[0])
        return ("isinstance_any", x) + tuple(opts)

    def _flatten_types(self, cls):
        if cls[0] == "tuple":
            return [y for x in cls[1:] for y in self._flatten_types(x)]
        if cls[0] == "bin" and cls[1] == "|":
            return self._flatten_types(cls[2]) + self._flatten_types(cls[3])
        if cls[0] == "global":
            modname, _, n = cls[1].rpartition(".")
            m = self.p.modules.get(modname)
            b = m.env.get(n) if m else None
            if b and b[0] == "expr":
                e = b[1]
                if isinstance(e, ast.Tuple):
                    return [y for x in e.elts for y in self._flatten_types(self.p.resolve_expr(m, x))]
                if isinstance(e, ast.BinOp):
                    out = []
                    for x in (e.left, e.right):
                        out += self._flatten_types(self._static_type(m, x))
                    return out
        return [cls]

    def _static_type(self, m, e):
        if isinstance(e, ast.BinOp):
            return ("bin", "|", self._static_type(m, e.left), self._static_type(m, e.right))
        return self.p.resolve_expr(m, e)

    def bind(self, func: Func, args, kwargs, st, f, bound_self=True):
        """Bind call arguments to parameters; None when it cannot be done precisely."""
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        env = {}
        i = 0
        args = list(args)
        star_at = next((j for j, x in enumerate(args) if x[0] == "star"), None)
        if star_at is not None:
            lead, rest = args[:star_at], args[star_at:]
            if len(rest) == 1 and a.vararg and len(lead) == len(pos):
                for n_, v in zip(pos, lead):
                    env[n_] = v
                env[a.vararg.arg] = rest[0][1]
            elif len(rest) == 1:
                src = rest[0][1]
                for n_, v in zip(pos, lead):
                    env[n_] = v
                for j, n_ in enumerate(pos[len(lead):]):
                    if n_ not in kwargs:
                        env[n_] = ("item", src, const(j))
                if a.vararg:
                    env[a.vararg.arg] = ("slice_of", src, len(pos) - len(lead), 0)
            else:
                return None
        else:
            for n_, v in zip(pos, args):
                env[n_] = v
            extra = args[len(pos):]
            if a.vararg:
                env[a.vararg.arg] = ("tuple",) + tuple(extra)
            elif extra:
                return None
        kwrest = []
        dstar = None
        for k, v in kwargs.items():
            if k == "**":
                dstar = v
            elif k in pos or k in kwo:
                env[k] = v
            else:
                kwrest.append((k, v))
        if a.kwarg:
            if dstar is not None and not kwrest:
                env[a.kwarg.arg] = dstar
            elif dstar is not None:
                env[a.kwarg.arg] = ("dict",) + tuple(("pair", const(k), v) for k, v in kwrest) + (("dstar", dstar),)
            elif kwrest:
                env[a.kwarg.arg] = ("dict",) + tuple(("pair", const(k), v) for k, v in kwrest)
            else:
                env[a.kwarg.arg] = ("dict",)
        elif kwrest:
            return None
        defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defs.update({n_: d for n_, d in zip(kwo, a.kw_defaults) if d is not None})
        for n_ in pos + kwo:
            if n_ not in env:
                if dstar is not None:
                    env[n_] = ("item", dstar, const(n_))
                elif n_ in defs:
                    d = defs[n_]
                    outs = self.eval(d, State({}, dict(st.heap)), func) if isinstance(d, (ast.Constant, ast.Name, ast.Attribute, ast.Tuple, ast.UnaryOp)) else None
                    env[n_] = outs[0].val if outs and outs[0].kind == "value" else ("default", func.qual, n_)
                else:
                    return None
        return env

    def inline_call(self, func: Func, args, kwargs, st, f, node, bound=False, captured=None, defq=None, raw=False):
        env = self.bind(func, args, kwargs, st, f)
        if env is None:
            if raw or bound == "strict":
                raise AnalysisBroken(f"cannot bind call to {func.qual} at {self.loc(node, f)}")
            val = ("call", ("func", func.qual), tuple(args), tuple(sorted(kwargs.items())))
            return self.V(st, val)
        if captured is not None:
            env2 = dict(captured)
            # a closure called from its defining frame sees current values
            if f.qual == defq:
                for k, _ in captured:
                    if k in st.env:
                        env2[k] = st.env[k]
            env = {**env2, **env}
        self.inlined.add(func.qual)
        if not isinstance(func.node, ast.Lambda):
            for pn, pc in self._param_types(func).items():
                v = env.get(pn)
                if v is not None and v[0] in ("param", "attr", "item", "elem", "call", "val", "key") and self.typeof(v, st) is None:
                    self.types[v] = pc
        caller_env = st.env
        s = st.copy()
        s.env = env
        s.env["@func"] = ("func", func.qual)
        saved_types = self.param_types
        self.stack = self.stack + [func]
        hook = self.yield_hook
        if not raw and hook:
            self.yield_hook = []
        try:
            if isinstance(func.node, ast.Lambda):
                outs = [Out("return", o.st, o.val) if o.kind == "value" else o for o in self.eval(func.node.body, s, func)]
            else:
                outs = self._body_result(self.block(func.node.body, s, func))
        finally:
            self.stack = self.stack[:-1]
            self.param_types = saved_types
            self.yield_hook = hook
        if raw:
            return outs
        nonlocals = set()
        if captured is not None and not isinstance(func.node, ast.Lambda):
            for x in ast.walk(func.node):
                if isinstance(x, ast.Nonlocal):
                    nonlocals.update(x.names)
        res = []
        for o in outs:
            s2 = o.st.copy()
            e2 = s2.env
            s2.env = dict(caller_env)
            for nm in nonlocals:
                if nm in e2:
                    s2.env[nm] = e2[nm]
            res.append(Out("value" if o.kind == "return" else o.kind, s2, o.val))
        return self._cap(res)


_CLOSURES: dict = {}
_SAFE_BUILTINS = {"isinstance", "issubclass", "len", "repr", "str", "id", "type", "range", "enumerate", "zip", "list", "tuple", "dict", "set", "hasattr", "callable", "bool", "print", "sorted", "reversed", "frozenset", "object", "super", "min", "max", "abs", "sum", "any", "all", "iter"} | {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


def _is_generator(func: Func):
    stack = list(func.node.body) if isinstance(func.node.body, list) else []
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _targets(e):
    out = set()
    for g in e.generators:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                out.add(x.id)
    return out


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for x in ast.walk(t2):
        if hasattr(x, "lineno"):
            x.lineno = t.lineno
    return t2
