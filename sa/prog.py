"""Program model: modules, classes, functions and name bindings of the analysed package.

Only `ast` is used; nothing of the analysed package is imported or executed.
"""
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG_DIR = "src/evotorch"
PKG = "evotorch"


class AnchorError(Exception):
    """A public API name the analysis starts from does not exist in the analysed source."""


class FuncInfo:
    __slots__ = ("name", "qual", "node", "module", "cls", "kind", "decorators", "parent", "is_gen", "locals_", "nonlocals")

    def __init__(self, name, qual, node, module, cls=None, parent=None):
        self.name = name
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.decorators = list(getattr(node, "decorator_list", []))
        self.kind = "function"
        self.is_gen = False
        self.locals_ = None
        self.nonlocals = frozenset()
        if not isinstance(node, ast.Lambda):
            self._scan()

    def _scan(self):
        nl = set()

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True
                if isinstance(c, (ast.Nonlocal, ast.Global)):
                    nl.update(c.names)
                walk(c)

        walk(self.node)
        self.nonlocals = frozenset(nl)

    @property
    def args(self):
        return self.node.args

    def __repr__(self):
        return f"<func {self.qual}>"


class ClassInfo:
    def __init__(self, name, qual, node, module):
        self.name = name
        self.qual = qual
        self.key = qual
        self.node = node
        self.module = module
        self.bases = []  # resolved lazily by the interpreter: ClassInfo or external qualname (str)
        self.bases_resolved = False
        self.methods = {}
        self.setters = {}
        self.deleters = {}
        self.props = {}
        self.attrs = {}  # class-level assignments: name -> expr
        self.ann = {}  # class-level annotations: name -> annotation expr
        self.ann_order = []
        self._mro = None
        self.decorators = list(node.decorator_list)
        self.scope = None  # (frame id of an enclosing function) for local classes

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.bindings = {}  # name -> list of (kind, payload)
        self.classes = {}
        self.funcs = {}

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]

    def rel(self):
        return os.path.relpath(self.path, REPO)

    def __repr__(self):
        return f"<module {self.name}>"


def _deco_names(node):
    out = []
    for d in node.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name):
            parts.append(e.id)
        out.append(".".join(reversed(parts)))
    return out


class Program:
    def __init__(self, root=None):
        self.root = root or os.path.join(REPO, PKG_DIR)
        self.modules = {}
        self.sites = {}  # sid -> (module, node)
        self._sid = 0
        self.all_funcs = []
        self.all_classes = []
        self._load()

    # -- loading
    def _load(self):
        if not os.path.isdir(self.root):
            raise AnchorError(f"package directory missing: {self.root}")
        for dp, dn, fn in os.walk(self.root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.root)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join([PKG] + rel)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                self.add_module(name, path, src, is_pkg)

    def add_module(self, name, path, src, is_pkg=False):
        tree = ast.parse(src, filename=path)
        m = Module(name, path, tree, is_pkg)
        self.modules[name] = m
        for n in ast.walk(tree):
            self._sid += 1
            n._sid = self._sid
            n._mod = m
        self._collect(m, tree.body)
        return m

    def _collect(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st.name, f"{m.name}.{st.name}", st, m)
                m.funcs[st.name] = fi
                self.all_funcs.append(fi)
                m.bindings.setdefault(st.name, []).append(("func", fi))
            elif isinstance(st, ast.ClassDef):
                ci = self.make_class(st, m, f"{m.name}.{st.name}")
                m.classes[st.name] = ci
                m.bindings.setdefault(st.name, []).append(("class", ci))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.bindings.setdefault(a.asname, []).append(("import", a.name))
                    else:
                        top = a.name.split(".")[0]
                        m.bindings.setdefault(top, []).append(("import", top))
            elif isinstance(st, ast.ImportFrom):
                base = self.resolve_from(m, st)
                for a in st.names:
                    m.bindings.setdefault(a.asname or a.name, []).append(("from", (base, a.name)))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._collect_target(m, t, st)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self._collect_target(m, st.target, st)
            elif isinstance(st, ast.AugAssign):
                self._collect_target(m, st.target, st)
            elif isinstance(st, ast.Try):
                self._collect(m, st.body)
                imports_only = all(
                    isinstance(x, (ast.Import, ast.ImportFrom, ast.If, ast.Expr)) for x in st.body
                )
                if not imports_only:
                    for h in st.handlers:
                        self._collect(m, h.body)
                else:
                    # only remember handler bindings for names the body does not bind
                    tmp = Module("tmp", m.path, None, m.is_pkg)
                    tmp.name = m.name
                    for h in st.handlers:
                        self._collect(tmp, h.body)
                    for k, v in tmp.bindings.items():
                        m.bindings.setdefault(k, v)
                    for k, v in tmp.funcs.items():
                        m.funcs.setdefault(k, v)
                    for k, v in tmp.classes.items():
                        m.classes.setdefault(k, v)
                self._collect(m, st.orelse)
                self._collect(m, st.finalbody)
            elif isinstance(st, ast.If):
                # both arms are collected; the first binding of a name wins
                self._collect(m, st.body)
                tmp = Module("tmp", m.path, None, m.is_pkg)
                tmp.name = m.name
                self._collect(tmp, st.orelse)
                for k, v in tmp.bindings.items():
                    m.bindings.setdefault(k, v)
                for k, v in tmp.funcs.items():
                    m.funcs.setdefault(k, v)
                for k, v in tmp.classes.items():
                    m.classes.setdefault(k, v)
            elif isinstance(st, ast.With):
                self._collect(m, st.body)
            elif isinstance(st, ast.For):
                self._collect_target(m, st.target, st)

    def _collect_target(self, m, t, st):
        if isinstance(t, ast.Name):
            m.bindings.setdefault(t.id, []).append(("stmt", st))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._collect_target(m, e, st)

    def resolve_from(self, m, st):
        if st.level == 0:
            return st.module or ""
        pkg = m.package.split(".")
        base = pkg[: len(pkg) - (st.level - 1)]
        if st.module:
            base = base + st.module.split(".")
        return ".".join(base)

    def make_class(self, st, m, qual):
        ci = ClassInfo(st.name, qual, st, m)
        self.all_classes.append(ci)
        self._class_body(ci, st.body, m, qual)
        return ci

    def _class_body(self, ci, body, m, qual):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(s.name, f"{qual}.{s.name}", s, m, cls=ci)
                self.all_funcs.append(fi)
                ds = _deco_names(s)
                if any(d.endswith(".setter") for d in ds):
                    fi.kind = "setter"
                    ci.setters[s.name] = fi
                    continue
                if any(d.endswith(".deleter") for d in ds):
                    ci.deleters[s.name] = fi
                    continue
                if "property" in ds or "cached_property" in ds or "functools.cached_property" in ds or any(d.endswith(".getter") for d in ds):
                    fi.kind = "property"
                    ci.props[s.name] = fi
                elif "staticmethod" in ds:
                    fi.kind = "static"
                elif "classmethod" in ds:
                    fi.kind = "class"
                else:
                    fi.kind = "method"
                if s.name == "__new__":
                    fi.kind = "static"
                ci.methods[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name):
                    ci.ann[s.target.id] = s.annotation
                    ci.ann_order.append(s.target.id)
                    if s.value is not None:
                        ci.attrs[s.target.id] = s.value
            elif isinstance(s, ast.ClassDef):
                sub = self.make_class(s, m, f"{qual}.{s.name}")
                ci.attrs[s.name] = sub
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                self._class_body(ci, s.body, m, qual)
                for h in getattr(s, "handlers", []):
                    self._class_body(ci, h.body, m, qual)
                self._class_body(ci, getattr(s, "orelse", []), m, qual)

    # -- queries
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnchorError(f"module not found: {name}")
        return m

    def resolve_export(self, modname, name, seen=None):
        """Follow re-exports; returns ('class'|'func'|'stmt'|'module'|'ext'|None, payload)."""
        seen = seen or set()
        if (modname, name) in seen:
            return (None, None)
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ("ext", f"{modname}.{name}" if modname else name)
        bs = m.bindings.get(name)
        if bs:
            kind, payload = bs[-1] if bs[0][0] in ("stmt",) else bs[0]
            if kind == "from":
                base, nm = payload
                sub = f"{base}.{nm}" if base else nm
                if base in self.modules:
                    r = self.resolve_export(base, nm, seen)
                    if r[0] is not None:
                        return r
                    if sub in self.modules:
                        return ("module", self.modules[sub])
                    return (None, None)
                if sub in self.modules:
                    return ("module", self.modules[sub])
                return ("ext", sub)
            if kind == "import":
                if payload in self.modules:
                    return ("module", self.modules[payload])
                return ("ext", payload)
            if kind == "stmt":
                return ("stmt", (m, name, [p for k, p in bs if k == "stmt"]))
            return (kind, payload)
        sub = f"{modname}.{name}"
        if sub in self.modules:
            return ("module", self.modules[sub])
        # star imports
        for st in (m.tree.body if m.tree else []):
            if isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names):
                r = self.resolve_export(self.resolve_from(m, st), name, seen)
                if r[0] is not None and r[0] != "ext":
                    return r
        return (None, None)

    def public(self, dotted):
        """Resolve a public dotted name such as 'evotorch.core.SolutionBatch' or raise AnchorError."""
        mod, _, name = dotted.rpartition(".")
        kind, payload = self.resolve_export(mod, name)
        if kind in (None, "ext"):
            raise AnchorError(f"public name not found: {dotted}")
        return kind, payload


def where(node):
    m = getattr(node, "_mod", None)
    if m is None:
        return "?"
    try:
        p = m.rel()
    except Exception:
        p = m.name
    return f"{p}:{getattr(node, 'lineno', '?')}"
