"""Resolution of names, attributes and calls over the whole package, with a small type inference.

Types: ("inst", ClassInfo), ("cls", ClassInfo), ("fn", FuncInfo), ("bm", FuncInfo) (bound), ("mod", Module), ("ext", dotted name), None = unknown.
A reference is reported only when its base is known.
"""
import ast
import builtins
import json
import os

from .base import Finding, construct
from .prog import ClassInfo, FuncInfo, where

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__builtins__", "__class__", "__annotations__", "WindowsError"}
OBJECT = set(dir(object)) | {"__dict__", "__weakref__", "__module__", "__name__", "__qualname__", "__annotations__", "__slots__"}
FUNC_ATTRS = set(dir(lambda: None)) | {"__wrapped__"}
CLASS_ATTRS = set(dir(type)) | {"__name__", "__qualname__", "__module__", "__mro__", "__subclasses__", "mro"}
NT = {"_replace", "_asdict", "_fields", "_make", "_field_defaults", "index", "count"} | set(dir(tuple))
TRANSPARENT = {"torch.no_grad", "staticmethod", "classmethod", "property", "abstractmethod", "abc.abstractmethod", "pass_info", "functools.lru_cache", "lru_cache", "on_device", "on_aux_device", "on_cuda", "vectorized", "torch.jit.export", "torch.jit.ignore", "torch.jit.unused", "override"}
with open(os.path.join(os.path.dirname(__file__), "data", "ext_names.json")) as _f:
    _D = json.load(_f)
EXT_MODULES = {k: set(v) for k, v in _D["modules"].items()}
EXT_CLASSES = {k: set(v) for k, v in _D["classes"].items()}


def deco_name(d):
    e = d.func if isinstance(d, ast.Call) else d
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
    return ".".join(reversed(parts))


def targets(t):
    if isinstance(t, ast.Name):
        yield t
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def own(node):
    """Nodes of a scope, without the bodies of nested functions, classes, lambdas and comprehensions (those are yielded, not entered)."""
    stack = [node]
    first = True
    while stack:
        n = stack.pop()
        if not first:
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
        first = False
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


class Scope:
    def __init__(self, kind, node, parent, module, cls=None, fi=None):
        self.kind, self.node, self.parent, self.module, self.cls, self.fi = kind, node, parent, module, cls, fi
        self.bound = {}  # name -> list of value descriptors
        self.globals_ = set()


def sets_computed(n):
    """setattr(self, <computed>, ...) or self.__dict__.update(...)"""
    if not isinstance(n, ast.Call):
        return False
    if isinstance(n.func, ast.Name):
        return n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == "self" and not isinstance(n.args[1], ast.Constant)
    return isinstance(n.func, ast.Attribute) and n.func.attr == "update" and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "__dict__"


class Refs:
    def __init__(self, prog, modules=None):
        self.prog = prog
        self.only = modules
        self.found = []
        self.counts = {}
        self.attr_cache = {}
        self.attr_types = {}
        self.subs = {}
        self.by_node = {ci.node: ci for ci in prog.all_classes}
        self.fi_by_node = {fi.node: fi for fi in prog.all_funcs}
        self.class_scope = {}
        self.loose = set()  # attributes stored on objects of unknown type
        self.busy = set()
        self.skip = set()
        self.pragmas()

    def pragmas(self):
        for ci in list(self.prog.all_classes):
            for b in self.bases(ci):
                if isinstance(b, ClassInfo):
                    self.subs.setdefault(b, []).append(ci)

    def count(self, n, k=1):
        self.counts[n] = self.counts.get(n, 0) + k

    def report(self, rule, node, detail, scope):
        fn = ""
        s = scope
        while s is not None:
            if s.fi is not None:
                fn = s.fi.qual
                break
            if s.kind == "class" and s.cls is not None:
                fn = s.cls.qual
                break
            s = s.parent
        fn = fn or (scope.module.name if scope is not None else "")
        self.found.append(Finding(rule=rule, func=fn, construct=construct(node), where=where(node), detail=detail, path=[]))

    # ------------------------------------------------------------ classes
    def bases(self, ci):
        out = []
        for b in ci.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            out.append(self.static_ref(b, ci.module, ci))
        return [x[1] if x is not None and x[0] in ("cls", "ext") else "?" for x in out]

    def static_ref(self, e, m, ci=None):
        """Type of a dotted module-level name."""
        if isinstance(e, ast.Name):
            return self.module_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.static_ref(e.value, m)
            if b is None:
                return None
            if b[0] == "mod":
                return self.module_name(b[1], e.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "cls" and isinstance(b[1].attrs.get(e.attr), ClassInfo):
                return ("cls", b[1].attrs[e.attr])
        return None

    def module_name(self, m, name):
        k, p = self.prog.resolve_export(m.name, name)
        if k == "class":
            return ("cls", p)
        if k == "func":
            return ("fn", p) if len([b for b in self.prog.modules.get(p.module.name, m).bindings.get(p.name, [])]) == 1 else None
        if k == "module":
            return ("mod", p)
        if k == "ext":
            return ("ext", p)
        return None

    def mro(self, ci, seen=None):
        out = [ci]
        for b in self.bases(ci):
            if isinstance(b, ClassInfo):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
            elif b not in out:
                out.append(b)
        return out

    def own_attrs(self, ci):
        """Names defined by the class itself: methods, class attributes, and what its functions store on self."""
        r = self.attr_cache.get(ci)
        if r is not None:
            return r
        r = set(ci.methods) | set(ci.attrs) | set(ci.ann) | set(ci.props) | set(ci.setters)
        for n in ast.walk(ci.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
                r.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("register_buffer", "register_parameter", "add_module", "register_module") and n.args and isinstance(n.args[0], ast.Constant):
                r.add(n.args[0].value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                r.add(n.args[1].value)
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__slots__" for t in n.targets) and isinstance(n.value, (ast.List, ast.Tuple)):
                r.update(x.value for x in n.value.elts if isinstance(x, ast.Constant))
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == "__dict__" and isinstance(n.slice, ast.Constant):
                r.add(n.slice.value)
        for fn in ast.walk(ci.node):
            if isinstance(fn, ast.FunctionDef) and any(sets_computed(n) for n in ast.walk(fn)):
                r.update(n.value for n in ast.walk(fn) if isinstance(n, ast.Constant) and isinstance(n.value, str))
                r.update(k.arg for n in ast.walk(fn) if isinstance(n, ast.Call) for k in n.keywords if k.arg)
        # augmented assignment alone does not define an attribute
        aug = {n.target.attr for n in ast.walk(ci.node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute)}
        if aug:
            plain = set(ci.methods) | set(ci.attrs) | set(ci.ann) | set(ci.props)
            augt = {id(n.target) for n in ast.walk(ci.node) if isinstance(n, ast.AugAssign)}
            for n in ast.walk(ci.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and id(n) not in augt and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
                    plain.add(n.attr)
            r = {x for x in r if x not in aug or x in plain}
        self.attr_cache[ci] = r
        return r

    def open_class(self, ci):
        """Attributes cannot be enumerated: attribute hooks, unknown base classes."""
        for c in self.mro(ci):
            if isinstance(c, ClassInfo):
                if "__getattr__" in c.methods or "__getattribute__" in c.methods:
                    return True
                init = c.methods.get("__init__")
                if init is not None and getattr(init, "node", init).args.kwarg and any(sets_computed(n) for n in ast.walk(getattr(init, "node", init))):
                    return True
                if any(k.arg == "metaclass" and not (isinstance(k.value, ast.Name) and k.value.id == "ABCMeta") for k in c.node.keywords):
                    return True
                if any(deco_name(d).split(".")[-1] not in ("dataclass", "total_ordering", "final", "remote") for d in c.decorators):
                    return True
            elif not self.ext_class(c):
                return True
        return False

    def is_remote(self, ci):
        return any(deco_name(d).split(".")[-1] == "remote" for d in ci.decorators)

    def ext_class(self, q):
        t = q.split(".")[-1]
        if t in ("ABC", "object", "Generic", "Protocol"):
            return set(OBJECT)
        if t in ("NamedTuple", "namedtuple"):
            return NT
        if hasattr(builtins, q) and isinstance(getattr(builtins, q), type):
            return set(dir(getattr(builtins, q)))
        r = EXT_CLASSES.get(q)
        if r is None:
            c = [k for k in EXT_CLASSES if k.split(".")[-1] == t and k.split(".")[0] == q.split(".")[0]]
            if c:
                r = EXT_CLASSES[c[0]]
        return r

    def has_attr(self, ci, name, subs=True):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo):
                if name in self.own_attrs(c):
                    return True
            else:
                e = self.ext_class(c)
                if e is None or name in e:
                    return True
        if name in OBJECT or name in self.loose:
            return True
        if subs:
            return any(self.has_attr(s, name, True) for s in self.subs.get(ci, []))
        return False

    def method(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c.methods[name]
                if name in self.own_attrs(c):
                    return None
            else:
                e = self.ext_class(c)
                if e is None or name in e:
                    return None
        return None

    # ------------------------------------------------------------ scopes
    def run(self):
        for m in list(self.prog.modules.values()):
            if self.only is None or m.name in self.only:
                self.collect_loose(m)
        for m in list(self.prog.modules.values()):
            if self.only is None or m.name in self.only:
                self.count("modules")
                self.imports(m)
                sc = self.make_scope("module", m.tree, None, m)
                self.visit_scope(sc)
        return self

    def collect_loose(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                self.loose.add(n.attr)

    def imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = self.prog.resolve_from(m, n)
                if base.split(".")[0] == "evotorch":
                    for a in n.names:
                        self.count("imports_resolved")
                        if base not in self.prog.modules:
                            self.report("import", n, f"no module {base}", Scope("module", m.tree, None, m))
                        elif a.name != "*" and self.prog.resolve_export(base, a.name)[0] is None:
                            self.report("import", n, f"{base} has no {a.name}", Scope("module", m.tree, None, m))
                elif base in EXT_MODULES:
                    for a in n.names:
                        self.count("imports_resolved")
                        if a.name != "*" and a.name not in EXT_MODULES[base] and f"{base}.{a.name}" not in EXT_MODULES and not self.guarded_import(m, n):
                            self.report("import", n, f"{base} has no {a.name}", Scope("module", m.tree, None, m))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split(".")[0] == "evotorch":
                        self.count("imports_resolved")
                        if a.name not in self.prog.modules:
                            self.report("import", n, f"no module {a.name}", Scope("module", m.tree, None, m))

    def guarded_import(self, m, n):
        return any(isinstance(t, ast.Try) and any(x is n for x in ast.walk(t)) for t in ast.walk(m.tree))

    def make_scope(self, kind, node, parent, module, cls=None, fi=None):
        sc = Scope(kind, node, parent, module, cls, fi)
        b = sc.bound

        def bind(name, what):
            b.setdefault(name, []).append(what)

        if kind in ("function", "lambda"):
            a = node.args
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                bind(p.arg, ("param", p))
            for p in (a.vararg, a.kwarg):
                if p:
                    bind(p.arg, ("other", p))
        body = node
        walk = [node.body] if kind == "lambda" else node.body if isinstance(node.body, list) else [node.body]
        for st in walk:
            for n in [st] + list(own(st)) if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else [st]:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    bind(n.name, ("def", n))
                elif isinstance(n, ast.ClassDef):
                    bind(n.name, ("class", n))
                elif isinstance(n, ast.Import):
                    for x in n.names:
                        bind(x.asname or x.name.split(".")[0], ("import", (x.name if x.asname else x.name.split(".")[0])))
                elif isinstance(n, ast.ImportFrom):
                    for x in n.names:
                        bind(x.asname or x.name, ("from", (self.prog.resolve_from(module, n), x.name)))
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        for x in targets(t):
                            bind(x.id, ("value", n.value) if isinstance(t, ast.Name) else ("other", n))
                elif isinstance(n, ast.AnnAssign):
                    if isinstance(n.target, ast.Name):
                        bind(n.target.id, ("ann", n.annotation))
                elif isinstance(n, ast.AugAssign):
                    for x in targets(n.target):
                        bind(x.id, ("other", n))
                elif isinstance(n, (ast.For, ast.AsyncFor)):
                    for x in targets(n.target):
                        bind(x.id, ("other", n))
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    for x in targets(n.optional_vars):
                        bind(x.id, ("other", n))
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    bind(n.name, ("other", n))
                elif isinstance(n, ast.NamedExpr):
                    bind(n.target.id, ("value", n.value))
                elif isinstance(n, ast.comprehension):
                    for x in targets(n.target):
                        bind(x.id, ("other", n))
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    bind(n.name, ("other", n))
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    sc.globals_.update(n.names)
        for x in sc.globals_:
            b.pop(x, None)
        # names whose kind is tested or that are deleted have no fixed type
        sc.tested = set()
        for n in ast.walk(body):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr", "issubclass", "type", "getattr", "callable") and n.args:
                if isinstance(n.args[0], ast.Name):
                    sc.tested.add(n.args[0].id)
                else:
                    sc.tested.add(ast.unparse(n.args[0]))
        return sc

    def lookup(self, sc, name):
        s = sc
        first = True
        while s is not None:
            if (s.kind != "class" or first) and name in s.bound:
                return s, s.bound[name]
            first = False if s.kind not in ("comp",) else first
            s = s.parent
        return None, None

    # ------------------------------------------------------------ types
    def ann_type(self, e, m):
        if e is None:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == "Optional":
            return self.ann_type(e.slice, m)
        if isinstance(e, (ast.Name, ast.Attribute)):
            t = self.static_ref(e, m)
            if t is not None and t[0] == "cls":
                return ("inst", t[1])
            if t is not None and t[0] == "ext" and t[1] in ("torch.Tensor", "torch.Generator", "torch.Size"):
                return ("extinst", t[1])
        return None

    def typeof(self, e, sc):
        k = (id(e), id(sc))
        if k in self.busy:
            return None
        self.busy.add(k)
        try:
            return self._typeof(e, sc)
        finally:
            self.busy.discard(k)

    def _typeof(self, e, sc):
        if isinstance(e, ast.Name):
            s, bs = self.lookup(sc, e.id)
            if s is None:
                return None
            t = sc
            while t is not None:
                if e.id in getattr(t, "tested", ()) and e.id not in ("self", "cls"):
                    if t.kind != "module":
                        return None
                if t is s:
                    break
                t = t.parent
            ts = []
            for b in bs:
                r = self.bind_type(b, s, e.id)
                if b[0] == "value" and isinstance(b[1], ast.Constant) and b[1].value is None:
                    continue
                ts.append(r)
            if ts and all(x is not None and x == ts[0] for x in ts):
                return ts[0]
            return None
        if isinstance(e, ast.Attribute):
            if ast.unparse(e) in self.tested_in(sc):
                return None
            b = self.typeof(e.value, sc)
            return self.attr_type(b, e.attr)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
                c = self.cls_of(sc)
                return ("super", c) if c is not None else None
            f = self.typeof(e.func, sc)
            if f is None:
                return None
            if f[0] == "cls":
                n = self.method(f[1], "__new__")
                return ("inst", f[1]) if n is None else None
            if f[0] in ("fn", "bm"):
                fi = f[1]
                if any(deco_name(d) not in TRANSPARENT for d in fi.decorators):
                    return None
                return self.ann_type(fi.node.returns, fi.module) if not fi.is_gen else None
        return None

    def tested_in(self, sc):
        out = set()
        while sc is not None and sc.kind != "module":
            out |= getattr(sc, "tested", set())
            sc = sc.parent
        return out

    def cls_of(self, sc):
        while sc is not None:
            if sc.kind == "function" and sc.parent is not None and sc.parent.kind == "class":
                return sc.parent.cls
            sc = sc.parent
        return None

    def bind_type(self, b, s, name):
        kind, x = b
        if kind == "param":
            if s.kind == "function" and s.parent is not None and s.parent.kind == "class" and s.parent.cls is not None:
                a = s.node.args
                first = (a.posonlyargs + a.args)[:1]
                if first and first[0] is x:
                    ds = [deco_name(d) for d in s.node.decorator_list]
                    if "staticmethod" in ds:
                        return self.ann_type(x.annotation, s.module)
                    if "classmethod" in ds or s.node.name in ("__new__", "__init_subclass__"):
                        return ("cls", s.parent.cls)
                    return ("inst", s.parent.cls)
            if any(isinstance(t, (ast.Assign, ast.AugAssign)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(t) if isinstance(getattr(y, "ctx", None), ast.Store)) for t in ast.walk(s.node)):
                return None
            return self.ann_type(x.annotation, s.module)
        if kind == "value":
            return self.typeof(x, s)
        if kind == "ann":
            return self.ann_type(x, s.module)
        if kind == "def":
            fi = self.fi_by_node.get(x)
            if fi is None:
                fi = FuncInfo(x.name, x.name, x, s.module)
                self.fi_by_node[x] = fi
            return ("fn", fi)
        if kind == "class":
            ci = self.by_node.get(x)
            return ("cls", ci) if ci is not None else None
        if kind == "import":
            return ("mod", self.prog.modules[x]) if x in self.prog.modules else ("ext", x)
        if kind == "from":
            base, nm = x
            if base in self.prog.modules:
                return self.module_name(self.prog.modules[base], nm)
            if f"{base}.{nm}" in self.prog.modules:
                return ("mod", self.prog.modules[f"{base}.{nm}"])
            return ("ext", f"{base}.{nm}")
        return None

    def attr_type(self, b, name):
        if b is None:
            return None
        k, x = b
        if k == "mod":
            return self.module_name(x, name)
        if k == "ext":
            return ("ext", x + "." + name)
        if k in ("inst", "cls", "super"):
            cs = self.mro(x)
            if k == "super":
                cs = cs[1:]
            for c in cs:
                if not isinstance(c, ClassInfo):
                    e = self.ext_class(c)
                    if e is None or name in e:
                        return None
                    continue
                if name in c.props:
                    p = c.props[name]
                    return self.ann_type(p.node.returns, p.module) if k != "cls" else None
                if name in c.methods:
                    fi = c.methods[name]
                    if fi.kind == "static" and name != "__new__":
                        return ("fn", fi)
                    if fi.kind == "class":
                        return ("bm", fi)
                    return ("fn", fi) if k == "cls" else ("bm", fi)
                if isinstance(c.attrs.get(name), ClassInfo):
                    return ("cls", c.attrs[name])
                if name in self.own_attrs(c):
                    return self.field_type(x, name) if k == "inst" else None
        return None

    def field_type(self, ci, name):
        """Type of an attribute: all its assignments in the class and its relatives agree."""
        key = (ci, name)
        if key in self.attr_types:
            return self.attr_types[key]
        self.attr_types[key] = None
        if name in self.loose:
            return None
        ts = []
        rel = set(c for c in self.mro(ci) if isinstance(c, ClassInfo))
        stack = [ci]
        while stack:
            c = stack.pop()
            rel.add(c)
            stack.extend(self.subs.get(c, []))
        for c in rel:
            if name in c.attrs:
                ts.append(None)
            csc = self.class_scope.get(c)
            for n in ast.walk(c.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.For, ast.withitem, ast.AugAssign)):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target] if not isinstance(n, ast.withitem) else [n.optional_vars]
                    for t in tg:
                        for y in ast.walk(t) if t is not None else ():
                            if isinstance(y, ast.Attribute) and y.attr == name and isinstance(y.value, ast.Name) and y.value.id == "self" and isinstance(y.ctx, ast.Store):
                                v = getattr(n, "value", None)
                                if y is t and isinstance(v, ast.Constant) and v.value is None:
                                    continue
                                if y is t and isinstance(n, ast.AnnAssign) and self.ann_type(n.annotation, c.module) is not None:
                                    ts.append(self.ann_type(n.annotation, c.module))
                                elif y is t and isinstance(n, ast.Assign) and csc is not None:
                                    f = self.enclosing(c, n)
                                    ts.append(self.typeof(v, self.fn_scope(c, f, csc)) if f is not None else None)
                                else:
                                    ts.append(None)
        r = ts[0] if ts and all(t is not None and t == ts[0] for t in ts) else None
        self.attr_types[key] = r
        return r

    def enclosing(self, c, n):
        for f in c.node.body:
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(x is n for x in own(f)):
                return f
        return None

    def fn_scope(self, c, f, csc):
        cache = csc.__dict__.setdefault("fns", {})
        if f not in cache:
            cache[f] = self.make_scope("function", f, csc, c.module, fi=self.fi_by_node.get(f))
        return cache[f]

    # ------------------------------------------------------------ the rules
    def visit_scope(self, sc):
        if sc.kind == "module":
            # class scopes first: attribute types need them
            def classes(node, parent):
                for st in ast.walk(node):
                    if isinstance(st, ast.ClassDef) and st in self.by_node:
                        ci = self.by_node[st]
                        if ci not in self.class_scope:
                            self.class_scope[ci] = self.make_scope("class", st, sc, sc.module, cls=ci)

            classes(sc.node, sc)
        body = [sc.node.body] if sc.kind == "lambda" else sc.node.body
        for st in body:
            self.visit(st, sc)

    def visit(self, n, sc):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                self.visit(d, sc)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, sc)
            self.count("functions")
            fi = self.fi_by_node.get(n) or FuncInfo(n.name, (sc.fi.qual if sc.fi else sc.module.name) + "." + n.name, n, sc.module)
            self.fi_by_node.setdefault(n, fi)
            if sc.kind == "class" and sc.cls is not None:
                s2 = self.fn_scope(sc.cls, n, self.class_scope.get(sc.cls, sc))
                s2.parent = sc
            else:
                s2 = self.make_scope("function", n, sc, sc.module, fi=fi)
            self.visit_scope(s2)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, sc)
            self.visit_scope(self.make_scope("lambda", n, sc, sc.module))
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, sc)
            ci = self.by_node.get(n)
            s2 = self.class_scope.get(ci) if ci is not None else None
            if s2 is None:
                s2 = self.make_scope("class", n, sc, sc.module, cls=ci)
                if ci is not None:
                    self.class_scope[ci] = s2
            s2.parent = sc
            self.visit_scope(s2)
            return
        if isinstance(n, (ast.AnnAssign,)):
            if n.value is not None:
                self.visit(n.value, sc)
            self.visit(n.target, sc)
            return
        if isinstance(n, ast.arg):
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.count("names_resolved")
            if n.id not in BUILTINS and self.lookup(sc, n.id)[0] is None and not self.star_name(sc.module, n.id):
                g = sc
                ok = False
                while g is not None:
                    if n.id in g.globals_:
                        ok = True
                    g = g.parent
                if not ok:
                    self.report("undefined-name", n, f"name {n.id} is defined nowhere", sc)
        elif isinstance(n, ast.Attribute):
            self.attribute(n, sc)
        elif isinstance(n, ast.Call):
            self.call(n, sc)
        for c in ast.iter_child_nodes(n):
            self.visit(c, sc)

    def star_name(self, m, name):
        return any(isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names) for st in m.tree.body) and self.prog.resolve_export(m.name, name)[0] is not None

    def attribute(self, n, sc):
        if isinstance(n.ctx, ast.Store):
            if isinstance(n.value, ast.Name):
                b = self.typeof(n.value, sc)
                if b is not None and b[0] == "inst":
                    for c in self.mro(b[1]):
                        if isinstance(c, ClassInfo):
                            if n.attr in c.setters:
                                break
                            if n.attr in c.props:
                                if not any(isinstance(d, ClassInfo) and n.attr in d.setters for d in self.mro(b[1])):
                                    self.report("no-setter", n, f"{c.qual}.{n.attr} is a read-only property", sc)
                                break
            return
        b = self.typeof(n.value, sc)
        if b is None:
            return
        k, x = b
        if k == "mod":
            self.count("attributes_resolved")
            if self.prog.resolve_export(x.name, n.attr)[0] is None and not n.attr.startswith("__"):
                self.report("module-attribute", n, f"module {x.name} has no {n.attr}", sc)
        elif k == "ext":
            if x in EXT_MODULES:
                self.count("attributes_resolved")
                if n.attr not in EXT_MODULES[x] and f"{x}.{n.attr}" not in EXT_MODULES and not self.ext_guarded(n, sc):
                    self.report("external-attribute", n, f"{x} has no {n.attr}", sc)
        elif k == "extinst":
            self.count("attributes_resolved")
            if n.attr not in EXT_CLASSES[x] and n.attr not in self.loose and not self.tested_attr(n, sc):
                self.report("external-attribute", n, f"objects of class {x} have no {n.attr}", sc)
        elif k == "inst":
            if n.attr.startswith("__") and n.attr.endswith("__"):
                return
            if self.open_class(x):
                if n.attr.startswith("__") and not n.attr.endswith("__"):
                    pass
                else:
                    return
            self.count("attributes_resolved")
            if n.attr.startswith("__") and isinstance(n.value, ast.Name) and n.value.id == "self":
                if n.attr not in self.own_attrs(x):
                    self.report("attribute", n, f"{x.qual} defines no {n.attr}", sc)
            elif not self.has_attr(x, n.attr) and not self.mixin_attr(x, n.attr) and not self.tested_attr(n, sc):
                self.report("attribute", n, f"{x.qual} (or a class derived from it) has no attribute {n.attr}", sc)
        elif k == "cls":
            if self.is_remote(x) or self.open_class(x) or (n.attr.startswith("__") and n.attr.endswith("__")) or n.attr in CLASS_ATTRS:
                return
            self.count("attributes_resolved")
            if not self.has_attr(x, n.attr) and not self.mixin_attr(x, n.attr) and not self.tested_attr(n, sc):
                self.report("attribute", n, f"class {x.qual} has no attribute {n.attr}", sc)
        elif k == "super":
            if (n.attr.startswith("__") and n.attr.endswith("__")):
                return
            self.count("attributes_resolved")
            for c in self.mro(x)[1:]:
                if isinstance(c, ClassInfo):
                    if n.attr in c.methods or n.attr in c.attrs or n.attr in c.props:
                        return
                else:
                    e = self.ext_class(c)
                    if e is None or n.attr in e:
                        return
            if self.mixin_attr(x, n.attr):
                return
            self.report("attribute", n, f"no base class of {x.qual} has {n.attr}", sc)
        elif k == "fn" or k == "bm":
            return

    def mixin_attr(self, ci, name):
        """The attribute comes from a class that is combined with this one in some derived class."""
        return any(any(isinstance(c, ClassInfo) and name in self.own_attrs(c) or (isinstance(c, str) and self.ext_class(c) is None) for c in self.mro(s)) or self.mixin_attr(s, name) for s in self.subs.get(ci, []))

    def tested_attr(self, n, sc):
        t = ast.unparse(n.value)
        s = sc
        while s is not None and s.kind != "module":
            for c in ast.walk(s.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "getattr") and len(c.args) >= 2 and ast.unparse(c.args[0]) == t and isinstance(c.args[1], ast.Constant) and c.args[1].value == n.attr:
                    return True
            s = s.parent
        return False

    def ext_guarded(self, n, sc):
        """Used only where a test or an exception handler looks at its existence."""
        s = sc
        while s is not None:
            for c in ast.walk(s.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "getattr") and len(c.args) >= 2 and isinstance(c.args[1], ast.Constant) and c.args[1].value == n.attr:
                    return True
                if isinstance(c, ast.Try) and any(x is n for y in c.body for x in ast.walk(y)):
                    return True
            s = s.parent
        return False

    # ------------------------------------------------------------ calls
    def call(self, n, sc):
        self.string_call(n, sc)
        f = self.typeof(n.func, sc)
        if f is None:
            return
        k, x = f
        if k == "cls":
            self.count("calls_resolved")
            if any(c == "?" or (isinstance(c, str) and c.split(".")[-1] == "NamedTuple") for c in self.mro(x)):
                if any(isinstance(c, str) and c.split(".")[-1] == "NamedTuple" for c in self.mro(x)):
                    self.nt_call(n, x, sc)
                return
            if any(deco_name(d).split(".")[-1] == "dataclass" for d in x.decorators):
                return
            m = self.method(x, "__init__")
            if m is not None:
                self.arity(n, m, True, sc)
            elif self.method(x, "__new__") is None and all(isinstance(c, ClassInfo) or c.split(".")[-1] in ("object", "ABC") for c in self.mro(x)) and (n.args or n.keywords):
                self.report("arguments", n, f"{x.qual} takes no arguments", sc)
        elif k in ("fn", "bm"):
            if any(deco_name(d) not in TRANSPARENT for d in x.decorators):
                return
            self.count("calls_resolved")
            self.arity(n, x, k == "bm", sc)
        elif k == "inst":
            m = self.method(x, "__call__")
            if m is not None:
                self.count("calls_resolved")
                self.arity(n, m, True, sc)

    def nt_call(self, n, ci, sc):
        fs = ci.ann_order
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        kw = {k.arg for k in n.keywords}
        if len(n.args) > len(fs):
            self.report("arguments", n, f"{ci.qual} has {len(fs)} fields", sc)
        for w in kw - set(fs):
            self.report("arguments", n, f"{ci.qual} has no field {w}", sc)
        miss = [f for f in fs[len(n.args) :] if f not in kw and f not in ci.attrs]
        if miss:
            self.report("arguments", n, f"{ci.qual}: missing {', '.join(miss)}", sc)

    def arity(self, n, fi, bound, sc):
        a = fi.node.args
        pos = a.posonlyargs + a.args
        need = len(pos) - len(a.defaults)
        if bound:
            pos = pos[1:]
            need = max(0, need - 1)
        names = [p.arg for p in pos]
        star = any(isinstance(x, ast.Starred) for x in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        given = len([x for x in n.args if not isinstance(x, ast.Starred)])
        if given > len(pos) and a.vararg is None:
            self.report("arguments", n, f"{fi.qual} takes at most {len(pos)} positional arguments, {given} given", sc)
            return
        ponly = {p.arg for p in a.posonlyargs}
        ok = (set(names) - ponly) | {p.arg for p in a.kwonlyargs}
        for k in n.keywords:
            if k.arg is not None and k.arg not in ok and a.kwarg is None:
                self.report("arguments", n, f"{fi.qual} has no parameter {k.arg}", sc)
        if not star:
            for k in n.keywords:
                if k.arg in names[:given]:
                    self.report("arguments", n, f"{fi.qual}: parameter {k.arg} given twice", sc)
        if not star and not dstar:
            kw = {k.arg for k in n.keywords}
            miss = [p for i, p in enumerate(names) if i >= given and i < need and p not in kw]
            miss += [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and p.arg not in kw]
            if miss:
                self.report("arguments", n, f"{fi.qual}: missing {', '.join(miss)}", sc)

    def string_call(self, n, sc):
        """worker.call.remote("name", [args], {kwargs}): the named method of the problem exists and accepts the arguments."""
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "remote" and isinstance(f.value, ast.Attribute) and self.typeof(f.value.value, sc) is None:
            # worker.method.remote(...): some worker class has the method and accepts the arguments
            ws = [c for c in self.prog.all_classes if self.is_remote(c)]
            if ws:
                self.count("remote_calls_resolved")
                ms = [self.method(c, f.value.attr) for c in ws if self.has_attr(c, f.value.attr, False)]
                if not ms:
                    self.report("attribute", n, f"no worker class has a method {f.value.attr}", sc)
                elif len(ms) == 1 and ms[0] is not None:
                    self.arity(n, ms[0], True, sc)
        if not (isinstance(f, ast.Attribute) and f.attr == "remote" and isinstance(f.value, ast.Attribute) and f.value.attr == "call" and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str)):
            return
        name = n.args[0].value
        c = self.cls_of(sc)
        if c is None:
            return
        self.count("remote_calls_resolved")
        if not self.has_attr(c, name):
            self.report("attribute", n, f"{c.qual} has no method {name}", sc)
            return
        m = self.method(c, name)
        if m is None or len(n.args) < 3 or any(deco_name(d) not in TRANSPARENT for d in m.decorators):
            return
        if isinstance(n.args[1], (ast.List, ast.Tuple)) and isinstance(n.args[2], ast.Dict) and all(isinstance(q, ast.Constant) for q in n.args[2].keys):
            fake = ast.Call(func=f, args=list(n.args[1].elts), keywords=[ast.keyword(arg=q.value, value=v) for q, v in zip(n.args[2].keys, n.args[2].values)])
            ast.copy_location(fake, n)
            fake._mod = n._mod
            self.arity(fake, m, True, sc)
