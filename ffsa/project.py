"""Source index: modules, names, classes, functions and how they resolve to each other."""
from __future__ import annotations

import ast
import os
from dataclasses import dataclass, field

REPO = os.environ.get("FFSA_REPO", "/repo")
PKG = "fastforward"


class AnalysisBroken(Exception):
    """An anchor vanished or the analysis cannot answer; never reported as pass or violation."""


@dataclass
class Func:
    qual: str
    node: ast.AST
    module: "Module"
    cls: "Cls | None"
    decorators: list = field(default_factory=list)  # resolved refs (terms)

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[1]

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def has_deco(self, *names):
        for d in self.decorators:
            t = d
            while t[0] in ("call", "attr") and t[0] == "call":
                t = t[1]
            s = t[1] if t[0] in ("ext", "func", "class", "global", "builtin") else None
            if t[0] == "attr":
                s = "." + t[2]
            if s is not None and any(s == n or s.endswith("." + n) for n in names):
                return True
        return False

    @property
    def is_cm(self):
        return self.has_deco("contextmanager", "contextlib.contextmanager")

    @property
    def is_static(self):
        return self.has_deco("staticmethod")

    @property
    def is_classmethod(self):
        return self.has_deco("classmethod")

    @property
    def is_property(self):
        return self.has_deco("property", "functools.cached_property", "cached_property")

    @property
    def is_overload(self):
        return self.has_deco("overload")

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


@dataclass
class Cls:
    qual: str
    node: ast.ClassDef
    module: "Module"
    bases: list = field(default_factory=list)  # terms
    methods: dict = field(default_factory=dict)
    setters: dict = field(default_factory=dict)
    attrs: dict = field(default_factory=dict)  # name -> (annotation expr | None, value expr | None)
    decorators: list = field(default_factory=list)

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[1]

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


@dataclass
class Module:
    name: str
    path: str
    rel: str
    tree: ast.Module
    is_pkg: bool
    env: dict = field(default_factory=dict)  # name -> raw binding
    lines: int = 0


class Project:
    def __init__(self, root=None):
        self.repo = root or REPO
        self.src = os.path.join(self.repo, "src")
        self.modules: dict[str, Module] = {}
        self.funcs: dict[str, Func] = {}
        self.classes: dict[str, Cls] = {}
        self._resolving = set()
        base = os.path.join(self.src, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory {base} not found")
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        for m in list(self.modules.values()):
            self._index(m)
        for c in self.classes.values():
            c.bases = [self.resolve_expr(c.module, b) for b in c.node.bases]
            c.decorators = [self.resolve_expr(c.module, d) for d in c.node.decorator_list]
        for f in self.funcs.values():
            f.decorators = [self.resolve_expr(f.module, d) for d in f.node.decorator_list]
        self._reclassify_methods()

    # ---------------------------------------------------------------- loading
    def _load(self, path):
        rel = os.path.relpath(path, self.repo)
        parts = os.path.relpath(path, self.src)[:-3].split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        with open(path, encoding="utf-8") as fp:
            text = fp.read()
        try:
            tree = ast.parse(text, filename=path)
        except SyntaxError as e:  # pragma: no cover
            raise AnalysisBroken(f"cannot parse {rel}: {e}")
        name = ".".join(parts)
        self.modules[name] = Module(name, path, rel, tree, is_pkg, lines=text.count("\n"))

    def _index(self, m: Module):
        self._index_body(m, m.tree.body, m.env, m.name, None)

    def _abs(self, m: Module, level, mod):
        if level == 0:
            return mod
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([mod] if mod else []))

    def import_bindings(self, m, node):
        """Bindings (name -> raw) of an import statement."""
        out = {}
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    out[a.asname] = ("modref", a.name)
                else:
                    out[a.name.split(".")[0]] = ("modref", a.name.split(".")[0])
        else:
            src = self._abs(m, node.level, node.module)
            for a in node.names:
                if a.name == "*":
                    out["*" + src] = ("star", src)
                else:
                    out[a.asname or a.name] = ("from", src, a.name)
        return out

    def _index_body(self, m, body, env, prefix, cls):
        for node in body:
            if isinstance(node, (ast.Import, ast.ImportFrom)):
                for k, v in self.import_bindings(m, node).items():
                    env[k] = v
            elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f"{prefix}.{node.name}"
                f = Func(q, node, m, cls)
                decos = [ast.unparse(d) for d in node.decorator_list]
                if any(d.endswith("overload") for d in decos):
                    continue
                if cls is not None and any(d.endswith(".setter") for d in decos):
                    f.qual = q + "@setter"
                    cls.setters[node.name] = f
                    self.funcs[f.qual] = f
                    continue
                self.funcs[q] = f
                env[node.name] = ("func", q)
                if cls is not None:
                    cls.methods[node.name] = f
                self._index_nested(m, node, q)
            elif isinstance(node, ast.ClassDef):
                q = f"{prefix}.{node.name}"
                c = Cls(q, node, m)
                self.classes[q] = c
                env[node.name] = ("class", q)
                self._index_body(m, node.body, {}, q, c)
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        env[t.id] = ("expr", node.value)
                        if cls is not None:
                            cls.attrs[t.id] = (None, node.value)
            elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
                if node.value is not None:
                    env[node.target.id] = ("expr", node.value)
                else:
                    env.setdefault(node.target.id, ("decl", node.annotation))
                if cls is not None:
                    cls.attrs[node.target.id] = (node.annotation, node.value)
            elif hasattr(ast, "TypeAlias") and isinstance(node, ast.TypeAlias):
                env[node.name.id] = ("expr", node.value)
            elif isinstance(node, (ast.If, ast.Try, ast.With)):
                for sub in ("body", "orelse", "finalbody"):
                    self._index_body(m, getattr(node, sub, []) or [], env, prefix, cls)
                for h in getattr(node, "handlers", []):
                    self._index_body(m, h.body, env, prefix, cls)

    def _index_nested(self, m, fnode, prefix):
        """Index nested defs/classes (for lookup by qualified name)."""
        stack = list(fnode.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f"{prefix}.<locals>.{n.name}"
                self.funcs[q] = Func(q, n, m, None)
                self._index_nested(m, n, q)
            elif isinstance(n, ast.ClassDef):
                q = f"{prefix}.<locals>.{n.name}"
                c = Cls(q, n, m)
                self.classes[q] = c
                self._index_body(m, n.body, {}, q, c)
            else:
                for ch in ast.iter_child_nodes(n):
                    if isinstance(ch, (ast.stmt, ast.ExceptHandler)) or isinstance(ch, getattr(ast, "match_case", ())):
                        stack.append(ch)

    def _reclassify_methods(self):
        pass

    # ------------------------------------------------------------- resolution
    def lookup(self, modname, name, _seen=frozenset()):
        """Resolve `name` in module `modname` to a term, or None."""
        key = (modname, name)
        if key in _seen:
            return None
        seen = _seen | {key}
        m = self.modules.get(modname)
        if m is None:
            return ("ext", f"{modname}.{name}")
        if name in m.env:
            return self._deref(m, name, m.env[name], seen)
        for k, v in m.env.items():
            if v[0] == "star":
                r = self.lookup(v[1], name, seen)
                if r is not None and r[0] != "ext":
                    return r
        if f"{modname}.{name}" in self.modules:
            return ("mod", f"{modname}.{name}")
        return None

    def _deref(self, m, name, b, seen=frozenset()):
        if b[0] == "func":
            return ("func", b[1])
        if b[0] == "class":
            return ("class", b[1])
        if b[0] == "modref":
            return self._modterm(b[1])
        if b[0] == "from":
            if b[1] in self.modules:
                r = self.lookup(b[1], b[2], seen)
                if r is None:
                    return self._modterm(f"{b[1]}.{b[2]}")
                return r
            return ("ext", f"{b[1]}.{b[2]}")
        if b[0] == "expr":
            e = b[1]
            if isinstance(e, (ast.Name, ast.Attribute)):
                r = self.resolve_expr(m, e, seen)
                if r[0] in ("func", "class", "mod", "ext"):
                    return r
            return ("global", f"{m.name}.{name}")
        if b[0] == "decl":
            return ("global", f"{m.name}.{name}")
        return ("global", f"{m.name}.{name}")

    def _modterm(self, name):
        return ("mod", name) if name in self.modules else ("ext", name)

    def attr_of(self, base, attr, seen=frozenset()):
        """Attribute of a resolved module / class / external reference."""
        if base[0] == "mod":
            r = self.lookup(base[1], attr, seen)
            return r if r is not None else ("attr", base, attr)
        if base[0] == "ext":
            full = f"{base[1]}.{attr}"
            return ("mod", full) if full in self.modules else ("ext", full)
        if base[0] == "class":
            f = self.find_method(base[1], attr)
            if f is not None:
                return ("func", f.qual)
            if f"{base[1]}.{attr}" in self.classes:
                return ("class", f"{base[1]}.{attr}")
        return ("attr", base, attr)

    def resolve_expr(self, m, e, seen=frozenset()):
        """Resolve a Name/Attribute/Call/Subscript expression at module scope to a term."""
        import builtins

        if isinstance(e, ast.Name):
            r = self.lookup(m.name, e.id, seen) if m is not None else None
            if r is not None and not (r[0] == "ext" and e.id not in m.env):
                return r
            if hasattr(builtins, e.id):
                return ("builtin", e.id)
            return ("name", e.id)
        if isinstance(e, ast.Attribute):
            return self.attr_of(self.resolve_expr(m, e.value, seen), e.attr, seen)
        if isinstance(e, ast.Call):
            return ("call", self.resolve_expr(m, e.func, seen), tuple(self.resolve_expr(m, a, seen) for a in e.args), ())
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value, seen)
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                try:
                    return self.resolve_expr(m, ast.parse(e.value, mode="eval").body, seen)
                except SyntaxError:
                    pass
            return const(e.value)
        return ("top", "expr")

    # ----------------------------------------------------------------- classes
    def mro(self, cq):
        """Linearised project ancestors (approximate C3: depth-first, keep last)."""
        out = []

        def rec(q):
            c = self.classes.get(q)
            if c is None:
                return
            out.append(q)
            for b in c.bases:
                if b[0] == "class":
                    rec(b[1])

        rec(cq)
        res = []
        for i, q in enumerate(out):
            if q not in out[i + 1 :]:
                res.append(q)
        return res

    def ext_bases(self, cq):
        out = set()
        for q in self.mro(cq):
            for b in self.classes[q].bases:
                if b[0] in ("ext", "builtin"):
                    out.add(b[1])
        return out

    def is_subclass(self, cq, dq):
        return dq in self.mro(cq) or dq in self.ext_bases(cq)

    def subclasses(self, cq, strict=False):
        return sorted(q for q in self.classes if cq in self.mro(q) and not (strict and q == cq))

    def find_method(self, cq, name, after=None):
        seq = self.mro(cq)
        if after is not None:
            seq = seq[seq.index(after) + 1 :] if after in seq else []
        for q in seq:
            f = self.classes[q].methods.get(name)
            if f is not None:
                return f
        return None

    def find_setter(self, cq, name):
        for q in self.mro(cq):
            f = self.classes[q].setters.get(name)
            if f is not None:
                return f
        return None

    def class_attr(self, cq, name):
        for q in self.mro(cq):
            c = self.classes[q]
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            # follow re-exports / moves within the package
            mod, _, name = qual.rpartition(".")
            r = None
            if mod in self.modules:
                r = self.lookup(mod, name)
            elif mod in self.classes:
                g = self.find_method(mod, name)
                r = ("func", g.qual) if g else None
            if r is not None and r[0] == "func":
                f = self.funcs.get(r[1])
        if f is None:
            raise AnalysisBroken(f"anchor function {qual} not found")
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            mod, _, name = qual.rpartition(".")
            r = self.lookup(mod, name) if mod in self.modules else None
            if r is not None and r[0] == "class":
                c = self.classes.get(r[1])
        if c is None:
            raise AnalysisBroken(f"anchor class {qual} not found")
        return c

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken(f"anchor module {name} not found")
        return m

    def funcs_in(self, *prefixes):
        return [f for q, f in sorted(self.funcs.items()) if any(f.module.name == p or f.module.name.startswith(p + ".") for p in prefixes)]

    def is_dataclass(self, cq):
        c = self.classes[cq]
        for d in c.decorators:
            t = d[1] if d[0] == "call" else d
            if t[0] == "ext" and (t[1].endswith("dataclass") or t[1] in ("attrs.define", "attrs.frozen", "attr.s", "attrs.mutable")):
                return True
            if t[0] in ("func", "class") and t[1].endswith("dataclass"):
                return True
        return False

    def fields(self, cq):
        """Ordered dataclass fields including inherited: [(name, default expr | None)]."""
        out = {}
        for q in reversed(self.mro(cq)):
            if not self.is_dataclass(q):
                continue
            c = self.classes[q]
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    if "ClassVar" in ast.unparse(st.annotation):
                        continue
                    out[st.target.id] = (st.target.id, st.value)
        return list(out.values())


def const(v):
    try:
        hash(v)
    except TypeError:
        return ("top", "const")
    return ("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
