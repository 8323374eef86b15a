"""Abstract interpreter over the program model.

Flow-sensitive, context-sensitive (calls into the package are inlined up to a depth), joins at
control-flow merges, fixpoints at loops, recency abstraction for allocation sites.
"""
import ast
import time

from . import ext
from .prog import AnchorError, ClassInfo, FuncInfo, Module, where
from .vals import (
    ANY,
    BM,
    BOOL,
    BOTH,
    E,
    FALSE,
    INT,
    NONE,
    NUM,
    STR,
    TRUE,
    Abs,
    ClsA,
    Ext,
    FnA,
    HObj,
    K,
    ModA,
    Ref,
    State,
    SuperA,
    V,
    absv,
    join_facts,
    join_state,
    join_v,
    k,
    kk,
    v_mentions,
    widen_v,
)

MAX_DEPTH = 36
MAX_RECUR = 4
LOOP_MAX = 12
UNROLL = 48


class Dead(Exception):
    pass


class Frame:
    __slots__ = ("fi", "fid", "ctx", "returns", "loops", "yields", "node", "cls", "has_closure", "module", "iters", "akey", "closure")

    def __init__(self, fi, fid, ctx, node, module):
        self.fi = fi
        self.fid = fid
        self.ctx = ctx
        self.returns = []
        self.loops = []
        self.yields = None
        self.node = node
        self.has_closure = False
        self.module = module
        self.iters = ()
        self.akey = self.closure = None


class Observer:
    def write(self, it, ids, node, how, val):
        pass

    def ext_call(self, it, q, recv, args, kwargs, node, res):
        pass

    def error(self, it, kind, node, msg):
        pass

    def enter(self, it, fi, node):
        pass

    def op(self, it, op, operands, res, node):
        pass


_BINOPS = {
    ast.Add: ("add", lambda a, b: a + b),
    ast.Sub: ("sub", lambda a, b: a - b),
    ast.Mult: ("mul", lambda a, b: a * b),
    ast.Div: ("truediv", lambda a, b: a / b),
    ast.FloorDiv: ("floordiv", lambda a, b: a // b),
    ast.Mod: ("mod", lambda a, b: a % b),
    ast.Pow: ("pow", lambda a, b: a**b if abs(b) < 64 else None),
    ast.MatMult: ("matmul", None),
    ast.BitAnd: ("and", lambda a, b: a & b),
    ast.BitOr: ("or", lambda a, b: a | b),
    ast.BitXor: ("xor", lambda a, b: a ^ b),
    ast.LShift: ("lshift", None),
    ast.RShift: ("rshift", None),
}

_CMP = {
    ast.Eq: ("eq", lambda a, b: a == b),
    ast.NotEq: ("ne", lambda a, b: a != b),
    ast.Lt: ("lt", lambda a, b: a < b),
    ast.LtE: ("le", lambda a, b: a <= b),
    ast.Gt: ("gt", lambda a, b: a > b),
    ast.GtE: ("ge", lambda a, b: a >= b),
}

_REFLECT = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}

TENSORISH = ("tensor", "ndarray", "any")


class Interp:
    def __init__(self, prog, observer=None, intrinsics=None, domains=None):
        self.prog = prog
        self.obs = observer or Observer()
        self.intr = intrinsics or {}
        self.st = State()
        self.stack = []
        self.try_stack = []
        self.ctxtab = {}
        self.idtab = {}
        self.idinfo = {}
        self.cuts = {}
        self.visited = set()
        self.ncalls = 0
        self.nstmts = 0
        self.edges = set()
        self.domains = domains or []
        self.raw_ndim = False  # interpret `expects_ndim` itself instead of modelling it
        self.trainable = {}  # storages of parameters known to be trainable or frozen
        self.unknown_calls = {}
        self.mute = 0
        self.synth = {}
        self.attr_missing = []
        self.deads = []
        self.global_ids = set()
        self.deadline = None
        self.max_recur = MAX_RECUR
        self.clone_root = {}
        self.inplace = None
        self.alts = None
        self.ro_class = None  # the repository's read-only tensor class, when a check tracks read-only handles

    # ------------------------------------------------------------------ allocation
    def ctx_id(self, key):
        r = self.ctxtab.get(key)
        if r is None:
            r = len(self.ctxtab) + 1
            self.ctxtab[key] = r
        return r

    @property
    def fr(self):
        return self.stack[-1]

    def new_id(self, node, tag):
        ctx = (self.stack[-1].ctx, self.stack[-1].iters) if self.stack else 0
        key = (ctx, getattr(node, "_sid", 0), tag)
        r = self.idtab.get(key)
        if r is None:
            r = f"{tag[0]}{len(self.idtab)}"
            self.idtab[key] = r
            self.idinfo[r] = (node, self.stack[-1].fi if self.stack else None, tag)
            if any(f.fid[0] == "m" for f in self.stack):
                self.global_ids.add(r)
        return r

    def _age(self, name):
        """Recency abstraction: the previous object of this site becomes part of a summary."""
        old = name + "*"
        if self._rename(name, old):
            st = self.st
            st.summ = st.summ | {old}
            if name in st.heap:
                h = st.heap.pop(name)
                from .vals import join_h

                st.heap[old] = join_h(st.heap[old], h) if old in st.heap else h
            if name in st.content:
                c = st.content.pop(name)
                st.content[old] = join_facts(st.content[old], c) if old in st.content else c
            if name in st.frozen:
                l = st.frozen.pop(name)
                st.frozen[old] = st.frozen.get(old, E) | l
        else:
            self.st.heap.pop(name, None)
            self.st.content.pop(name, None)
            self.st.frozen.pop(name, None)

    def _rename(self, a, b):
        found = False
        cache = {}

        def sub_atom(x):
            nonlocal found
            if isinstance(x, Ref):
                if x.oid == a:
                    found = True
                    return Ref(b)
            elif isinstance(x, Abs):
                s, vw = x.stors, x.view
                if a in s:
                    found = True
                    s = (s - {a}) | {b}
                    return Abs(x.kind, s, x.ro, vw)
            elif isinstance(x, BM):
                r = sub_atom(x.self_)
                f = sub_atom(x.fn)
                if r is not x.self_ or f is not x.fn:
                    return BM(f, r)
            elif isinstance(x, Ext) and x.recv is not None:
                r = sub_atom(x.recv)
                if r is not x.recv:
                    return Ext(x.q, r)
            elif isinstance(x, SuperA):
                r = sub_atom(x.self_)
                if r is not x.self_:
                    return SuperA(x.ci, r)
            return x

        def sub(v):
            r = cache.get(v)
            if r is None:
                ch = False
                out = []
                for x in v:
                    y = sub_atom(x)
                    if y is not x:
                        ch = True
                    out.append(y)
                r = frozenset(out) if ch else v
                cache[v] = r
            return r

        st = self.st
        for fid, f in list(st.frames.items()):
            ch = None
            for n, v in f.items():
                if isinstance(v, frozenset) and a in v_mentions(v):
                    w = sub(v)
                    if w is not v:
                        if ch is None:
                            ch = {}
                        ch[n] = w
            if ch:
                st.frame(fid).update(ch)
        for oid, h in list(st.heap.items()):
            if a not in (h._ment if h._ment is not None else h.mentions()):
                continue
            nh = None

            def put(fieldname, val):
                nonlocal nh
                if nh is None:
                    nh = h.copy()
                setattr(nh, fieldname, val)

            e = sub(h.elem)
            if e is not h.elem:
                put("elem", e)
            ks = sub(h.keys)
            if ks is not h.keys:
                put("keys", ks)
            if h.fields:
                chf = None
                for n, v in h.fields.items():
                    if isinstance(v, frozenset) and n not in ("$opt", "$ne"):
                        w = sub(v)
                        if w is not v:
                            chf = chf or {}
                            chf[n] = w
                if chf:
                    d = dict(h.fields)
                    d.update(chf)
                    put("fields", d)
            if h.items:
                if isinstance(h.items, dict):
                    it = {sub_atom(kx): sub(v) for kx, v in h.items.items()}
                    if it != h.items:
                        put("items", it)
                else:
                    it = tuple(sub(v) for v in h.items)
                    if any(x is not y for x, y in zip(it, h.items)):
                        put("items", it)
            if nh is not None:
                st.heap[oid] = nh
        for n, v in list(st.glob.items()):
            if isinstance(v, frozenset) and a in v_mentions(v):
                w = sub(v)
                if w is not v:
                    st.glob[n] = w
        for n, v in list(st.dom.items()):
            if isinstance(v, frozenset):
                if a in v:
                    st.dom[n] = (v - {a}) | {b}
                    found = True
        return found

    def gc(self):
        """Drop unreachable objects. Only called between statements of a harness."""
        st = self.st
        seen = set()
        todo = []

        def add(v):
            for x in v_mentions(v):
                if x not in seen:
                    seen.add(x)
                    todo.append(x)

        for fid, f in st.frames.items():
            if fid[0] in ("h", "m"):
                for v in f.values():
                    if isinstance(v, frozenset):
                        add(v)
        for v in st.glob.values():
            if isinstance(v, frozenset):
                add(v)
        for v in st.dom.values():
            if isinstance(v, frozenset):
                for x in v:
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
        while todo:
            x = todo.pop()
            if isinstance(x, tuple) and x and x[0] == "fr":
                f = st.frames.get(x[1])
                if f is not None:
                    for v in f.values():
                        if isinstance(v, frozenset):
                            add(v)
                    p = f.get("$parent")
                    if p is not None and ("fr", p) not in seen:
                        seen.add(("fr", p))
                        todo.append(("fr", p))
            else:
                h = st.heap.get(x)
                if h is not None:
                    for y in h.mentions():
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
        st.heap = {o: h for o, h in st.heap.items() if o in seen}
        st.content = {o: c for o, c in st.content.items() if o in seen or o[:3] == "in:"}
        st.frozen = {o: l for o, l in st.frozen.items() if o in st.heap or o in st.content}
        st.frames = {fid: f for fid, f in st.frames.items() if fid[0] in ("h", "m") or ("fr", fid) in seen}
        st.summ = frozenset(o for o in st.summ if o in st.heap or o in st.content)

    def alloc(self, node, tag, hobj):
        name = self.new_id(node, tag)
        if name in self.st.heap:
            # the new object may refer to the previous one of this site
            self.st.heap["$tmp"] = hobj
            self._age(name)
            hobj = self.st.heap.pop("$tmp")
        self.st.heap[name] = hobj
        return Ref(name)

    def alloc_stor(self, node, tag="t", facts=None):
        name = self.new_id(node, "t" + tag)
        if self.alts is not None:
            if name in self.alts and name in self.st.content:
                # another alternative of the same operation
                self.st.content[name] = join_facts(self.st.content[name], dict(facts) if facts else {})
                return name
            self.alts.add(name)
        if name in self.st.content:
            self._age(name)
        self.st.content[name] = dict(facts) if facts else {}
        return name

    def alternative(self, group, f, *args):
        """Apply an operation to one combination of operands; results of one group are joined."""
        old, self.alts = self.alts, group
        try:
            return f(self, *args)
        finally:
            self.alts = old

    def fresh(self, node, kind="tensor", tag="", facts=None, view=E, ro=False):
        return absv(kind, [self.alloc_stor(node, tag, facts)], ro, view)

    def mk_list(self, node, items, tag="list", kind="list"):
        return V(self.alloc(node, tag, HObj(kind, items=tuple(items))))

    def mk_tuple(self, node, items, tag="tuple"):
        return V(self.alloc(node, tag, HObj("tuple", items=tuple(items))))

    def mk_dict(self, node, items, tag="dict"):
        return V(self.alloc(node, tag, HObj("dict", items=dict(items))))

    def mk_smash(self, node, kind, elem, tag="sm", keys=E, ne=False):
        h = HObj(kind, items=None, elem=elem, keys=keys)
        if ne:
            h.fields["$ne"] = True
        return V(self.alloc(node, tag, h))

    # ------------------------------------------------------------------ facts
    def facts(self, atom):
        """Facts about an atom: {key: frozenset of possible values}."""
        if isinstance(atom, Abs):
            r = None
            for s in atom.stors:
                c = self.st.content.get(s)
                if c is None:
                    c = {}
                r = dict(c) if r is None else join_facts(r, c)
            r = r or {}
            for kx, v in atom.view:
                r[kx] = frozenset([v])
            return r
        if isinstance(atom, K):
            return {"const": frozenset([atom.v])}
        return {}

    def vfacts(self, v):
        r = None
        for a in v:
            f = self.facts(a)
            r = f if r is None else join_facts(r, f)
        return r or {}

    def fact(self, v, key):
        return self.vfacts(v).get(key)

    # ------------------------------------------------------------------ writes
    def note_write(self, ids, node, how, val=None):
        self.obs.write(self, ids, node, how, val)

    def write_tensor(self, v, node, how, facts=None, strong=False, val=None):
        """In-place modification of everything `v` may refer to."""
        for a in v:
            if not isinstance(a, Abs) or not a.stors:
                continue
            self.note_write(a.stors, node, how, val)
            if a.ro:
                self.obs.error(self, "ro-write", node, how)
            part = any(kx == "part" for kx, _ in a.view)
            st = self.st
            if strong and len(v) == 1 and len(a.stors) == 1 and not part and not (a.stors & st.summ):
                st.content[next(iter(a.stors))] = {q: x for q, x in (facts or {}).items() if q != "$full"}
            elif facts and "$full" in facts and len(v) == 1 and len(a.stors) == 1 and not (a.stors & st.summ):
                st.content[next(iter(a.stors))] = {q: x for q, x in facts.items() if q != "$full"}
            else:
                for s in a.stors:
                    if s in st.content:
                        st.content[s] = join_facts(st.content[s], facts or {})

    # ------------------------------------------------------------------ running
    def run_harness(self, src, name="harness"):
        """Abstractly interpret a harness program; returns the final state (or None)."""
        name = "h:" + name
        if name in self.prog.modules:
            m = self.prog.modules[name]
        else:
            m = self.prog.add_module(name, name + ".py", src)
        fr = Frame(None, ("h", name), 0, m.tree, m)
        self.stack = [fr]
        self.st.frames[fr.fid] = {}
        m.bindings_frame = fr.fid
        try:
            self.exec_block(m.tree.body)
        except Dead:
            self.stack = []
            return None
        self.stack = []
        return self.st

    def exec_block(self, body):
        for s in body:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.nstmts += 1
        if self.deadline is not None and self.nstmts % 256 == 0 and time.time() > self.deadline:
            raise TimeoutError("the harness took too long")
        getattr(self, "st_" + type(s).__name__)(s)

    # -- statements
    def st_Expr(self, s):
        self.eval(s.value)

    def st_Pass(self, s):
        pass

    def st_Global(self, s):
        pass

    st_Nonlocal = st_Global

    def st_Import(self, s):
        for a in s.names:
            if a.asname:
                self.set_name(a.asname, self.mod_value(a.name))
            else:
                self.set_name(a.name.split(".")[0], self.mod_value(a.name.split(".")[0]))

    def st_ImportFrom(self, s):
        base = self.prog.resolve_from(self.fr.module, s)
        for a in s.names:
            self.set_name(a.asname or a.name, self.import_from(base, a.name, s))

    def mod_value(self, name):
        if name in self.prog.modules:
            return V(ModA(self.prog.modules[name]))
        return V(Ext(name))

    def import_from(self, base, name, node=None):
        if base in self.prog.modules:
            v = self.module_attr(self.prog.modules[base], name)
            if v is None:
                self.obs.error(self, "import", node, f"{base}.{name}")
                if self.fr.module.name.startswith("h:") or not self.fr.fi and self.fr.module.name not in self.prog.modules:
                    raise AnchorError(f"{base}.{name}")
                if isinstance(self.fr.fid, tuple) and self.fr.fid[0] == "h":
                    raise AnchorError(f"public name not found: {base}.{name}")
                return ANY
            return v
        if f"{base}.{name}" in self.prog.modules:
            return V(ModA(self.prog.modules[f"{base}.{name}"]))
        return V(Ext(f"{base}.{name}" if base else name))

    def module_attr(self, m, name):
        key = (m.name, name)
        r = self.st.glob.get(key)
        if r is not None:
            return r
        kind, p = self.prog.resolve_export(m.name, name)
        if kind is None:
            return None
        if kind == "class":
            r = V(ClsA(p))
        elif kind == "func":
            r = self.func_value(p)
        elif kind == "module":
            r = V(ModA(p))
        elif kind == "ext":
            r = V(Ext(p))
        elif kind == "stmt":
            mm, nm, stmts = p
            k2 = (mm.name, nm)
            r = self.st.glob.get(k2)
            if r is None:
                r = self.eval_module_stmt(mm, nm, stmts)
                self.st.glob[k2] = r
        self.st.glob[key] = r
        return r

    def eval_module_stmt(self, m, name, stmts):
        fid = ("m", m.name)
        fr = Frame(None, fid, self.ctx_id(("mod", m.name)), stmts[-1], m)
        if fid not in self.st.frames:
            self.st.frames[fid] = {}
        self.stack.append(fr)
        found = None
        try:
            s = stmts[-1]
            self.st.glob[(m.name, name)] = ANY  # cut recursion
            if isinstance(s, ast.For):
                return ANY
            if isinstance(s, ast.AugAssign):
                s = stmts[0]
                if isinstance(s, ast.AugAssign):
                    return ANY
            try:
                v = self.eval(s.value)
            except Dead:
                return ANY
            tgts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in tgts:
                if isinstance(t, ast.Name) and t.id == name:
                    return v
                if isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            ev = self.unpack_elem(v, i, s)
                            self.st.glob[(m.name, e.id)] = ev
                            if e.id == name:
                                found = ev
                    if found is not None:
                        return found
            return ANY
        finally:
            self.stack.pop()
            self.st.glob.pop((m.name, name), None)

    _IDENT_DECOS = {
        "expects_ndim",
        "rowwise",
        "wraps",
        "functools.wraps",
        "torch.no_grad",
        "no_grad",
        "staticmethod",
        "classmethod",
        "property",
        "abstractmethod",
        "contextmanager",
        "contextlib.contextmanager",
        "pass_info",
        "torch.jit.script",
        "overload",
        "vectorized",
        "on_device",
        "on_aux_device",
        "on_cuda",
        "cached_property",
        "lru_cache",
        "functools.lru_cache",
        "torch.inference_mode",
    }

    def func_value(self, fi, frame=None):
        """Function value after decorators."""
        v = V(FnA(fi, frame))
        if isinstance(fi.node, ast.Lambda):
            return v
        from .prog import _deco_names

        names = _deco_names(fi.node)
        for d, n in zip(reversed(fi.decorators), reversed(names)):
            raw = self.raw_ndim and n.split(".")[-1] in ("expects_ndim", "rowwise")
            if n.split(".")[-1] == "expects_ndim" and isinstance(d, ast.Call) and not raw:
                v = self.ndim_wrap(fi, frame, d, v)
                continue
            if raw:
                pass
            elif n in self._IDENT_DECOS or n.endswith((".setter", ".getter", ".deleter")):
                continue
            elif n.split(".")[-1] in self._IDENT_DECOS:
                continue
            if frame is None:
                fr = Frame(None, ("m", fi.module.name), self.ctx_id(("mod", fi.module.name)), d, fi.module)
                self.st.frames.setdefault(fr.fid, {})
                self.stack.append(fr)
                try:
                    v = self._apply_deco(d, v)
                finally:
                    self.stack.pop()
            else:
                v = self._apply_deco(d, v)
        return v

    def ndim_wrap(self, fi, frame, d, v):
        """`expects_ndim`: a wrapper that converts scalars and maps over extra leftmost dimensions."""
        key = ("ndim", fi.qual, frame)
        r = self.st.glob.get(key)
        if r is not None:
            return r
        if frame is None:
            fr = Frame(None, ("m", fi.module.name), self.ctx_id(("mod", fi.module.name)), d, fi.module)
            self.st.frames.setdefault(fr.fid, {})
            self.stack.append(fr)
        try:
            args = [self.eval(a) for a in d.args if not isinstance(a, ast.Starred)]
            kw = {q.arg: self.eval(q.value) for q in d.keywords if q.arg}
            r = ext.mk_ndim(self, v, args, kw, d)
        finally:
            if frame is None:
                self.stack.pop()
        self.st.glob[key] = r
        return r

    def _apply_deco(self, d, v):
        try:
            f = self.eval(d)
        except Dead:
            return v
        if any(isinstance(a, Ext) or isinstance(a, Abs) for a in f):
            return v
        try:
            return self.call(f, [v], {}, d)
        except Dead:
            return v

    def st_FunctionDef(self, s):
        fi = getattr(s, "_fi", None)
        if fi is None:
            q = (self.fr.fi.qual if self.fr.fi else self.fr.module.name) + "." + s.name
            fi = FuncInfo(s.name, q, s, self.fr.module, parent=self.fr.fi)
            s._fi = fi
        self.fr.has_closure = True
        self.set_name(s.name, self.func_value(fi, self.fr.fid))

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, s):
        # every execution of the definition in a function makes a class of its own
        cis = s.__dict__.setdefault("_cis", {})
        ci = cis.get(self.fr.fid)
        if ci is None:
            q = (self.fr.fi.qual if self.fr.fi else self.fr.module.name) + "." + s.name
            ci = self.prog.make_class(s, self.fr.module, q)
            ci.scope = self.fr.fid
            ci.key = (q, self.fr.fid) if self.fr.fi else q
            cis[self.fr.fid] = ci
        if self.fr.fi:
            for g in [g for g in self.st.glob if isinstance(g, tuple) and g[:2] == ("cls", ci.key)]:
                del self.st.glob[g]
        self.fr.has_closure = True
        self.set_name(s.name, V(ClsA(ci)))

    def st_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.fr.returns.append((v, self.st))
        raise Dead

    def st_Raise(self, s):
        if s.exc is not None:
            try:
                self.mute += 1
                self.eval(s.exc)
            finally:
                self.mute -= 1
        self.note_dead(s)
        self.record_raise()
        raise Dead

    def note_dead(self, node):
        """Remember recent places where a path ended (diagnostics only)."""
        self.deads.append((where(node), [f.fi.qual.split(".")[-1] for f in self.stack if f.fi]))
        if len(self.deads) > 40:
            del self.deads[:20]

    def record_raise(self):
        if self.try_stack:
            self.try_stack[-1].append(self.st.copy())

    def st_Assert(self, s):
        t, f = self.cond(s.test)
        if f is not None:
            self.st = f
            self.record_raise()
        if t is None:
            raise Dead
        self.st = t

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fid = self.find_frame(t.id)
                if fid is not None:
                    self.st.frame(fid).pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value)
                for a in b:
                    if isinstance(a, Ref):
                        self.note_write([a.oid], t, "delattr " + t.attr)
                        h = self.st.heap[a.oid]
                        if len(b) == 1 and a.oid not in self.st.summ and t.attr in h.fields:
                            h = h.copy()
                            del h.fields[t.attr]
                            self.st.heap[a.oid] = h
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                i = self.eval_index(t.slice)
                for a in b:
                    if isinstance(a, Ref):
                        h = self.st.heap[a.oid]
                        if h.kind == "inst":
                            m = self.find_method(h.cls, "__delitem__")
                            if m:
                                self.call(V(BM(FnA(m), a)), [i], {}, t)
                                continue
                        self.note_write([a.oid], t, "del item")
                        kx = next(iter(i)) if len(i) == 1 else None
                        if h.kind == "dict" and h.items is not None and isinstance(kx, K) and len(b) == 1 and a.oid not in self.st.summ:
                            h = h.copy()
                            h.items.pop(kx, None)
                            self.st.heap[a.oid] = h
                        elif h.kind == "list" and h.items is not None:
                            self.st.heap[a.oid] = h.smash()
                    elif isinstance(a, Abs):
                        self.note_write(a.stors, t, "del item")

    def st_If(self, s):
        t, f = self.cond(s.test)
        out = None
        for st, body in ((t, s.body), (f, s.orelse)):
            if st is None:
                continue
            self.st = st
            try:
                self.exec_block(body)
                out = join_state(out, self.st)
            except Dead:
                pass
        if out is None:
            raise Dead
        self.st = out

    def _while_round(self, s, t, breaks):
        conts = []
        self.fr.loops.append((breaks, conts))
        self.st = t
        back = None
        try:
            self.exec_block(s.body)
            back = self.st
        except Dead:
            pass
        self.fr.loops.pop()
        for c in conts:
            back = join_state(back, c)
        return back

    def st_While(self, s):
        breaks = []
        exits = None
        cur = self.st
        # rounds in which the condition is known to hold are followed one by one
        if not isinstance(s.test, ast.Constant):
            for it in range(UNROLL):
                self.st = cur.copy()
                t, f = self.cond(s.test)
                if t is None or f is not None:
                    break
                back = self._while_round(s, t, breaks)
                if back is None or back.same(cur):
                    break
                cur = back
        elif self.raw_ndim and s.test.value:
            outer = self.fr.iters
            for it in range(UNROLL):
                bs = []
                self.fr.iters = outer + (f"round {it}",)
                back = self._while_round(s, cur.copy(), bs)
                self.fr.iters = outer
                if back is None:
                    out = None
                    for b in bs:
                        out = join_state(out, b)
                    if out is None:
                        raise Dead
                    self.st = out
                    return
                if bs:
                    break
                cur = back
        for it in range(LOOP_MAX):
            self.st = cur.copy()
            if len(self.stack) == 1:
                self.gc()
            t, f = self.cond(s.test)
            exits_now = f
            if t is None:
                exits = exits_now
                break
            back = self._while_round(s, t, breaks)
            if back is None:
                exits = exits_now
                break
            if len(self.stack) == 1:
                self.st = back
                self.gc()
                back = self.st
            new = join_state(cur, back)
            if it >= 4:
                new = self.widen(cur, new)
            if new.same(cur):
                exits = exits_now
                break
            cur = new
        else:
            self.st = cur.copy()
            t, f = self.cond(s.test)
            exits = f
        out = None
        if exits is not None:
            self.st = exits
            try:
                self.exec_block(s.orelse)
                out = self.st
            except Dead:
                pass
        for b in breaks:
            out = join_state(out, b)
        if out is None:
            raise Dead
        self.st = out

    def widen(self, old, new):
        for fid, f in list(new.frames.items()):
            of = old.frames.get(fid)
            if of is None or of is f:
                continue
            ch = {}
            for n, v in f.items():
                ov = of.get(n)
                if ov is not None and ov != v and isinstance(v, frozenset):
                    w = widen_v(v)
                    if w != v:
                        ch[n] = w
            if ch:
                new.frame(fid).update(ch)
        for oid, h in list(new.heap.items()):
            oh = old.heap.get(oid)
            if oh is None or oh is h or oh == h:
                continue
            if h.kind == "inst":
                h2 = h.copy()
                for n, v in h.fields.items():
                    ov = oh.fields.get(n)
                    if ov is not None and ov != v and isinstance(v, frozenset):
                        h2.fields[n] = widen_v(v)
                new.heap[oid] = h2
            elif h.items is not None:
                new.heap[oid] = h.smash()
        return new

    def st_For(self, s):
        itv = self.eval(s.iter)
        self.loop_over(s, itv, lambda ev: self.assign(s.target, ev), s.body, s.orelse)

    st_AsyncFor = st_For

    def loop_over(self, node, itv, bind, body, orelse, body_fn=None):
        """Run `body` for the elements of itv."""
        hid = f"$it{node._sid}"
        self.st.frame(self.fr.fid)[hid] = itv
        exact = self.exact_items(itv)
        run = body_fn or (lambda: self.exec_block(body))
        breaks = []
        out = None
        if exact is not None and len(exact) <= UNROLL:
            n = len(exact)
            dead = False
            outer = self.fr.iters
            for i in range(n):
                self.fr.iters = outer + (i,)
                # re-read: aging may have renamed objects
                cur = self.exact_items(self.st.frames[self.fr.fid].get(hid, itv))
                ev = cur[i] if cur is not None and i < len(cur) else exact[i]
                conts = []
                self.fr.loops.append((breaks, conts))
                st = None
                try:
                    bind(ev)
                    run()
                    st = self.st
                except Dead:
                    pass
                self.fr.loops.pop()
                for c in conts:
                    st = join_state(st, c)
                if st is None:
                    dead = True
                    break
                self.st = st
            self.fr.iters = outer
            if not dead:
                try:
                    self.exec_block(orelse)
                    out = self.st
                except Dead:
                    pass
        else:
            may_empty = self.may_be_empty(itv)
            base = self.st
            cur = base
            first = True
            after = None
            for it in range(LOOP_MAX):
                self.st = cur.copy()
                conts = []
                self.fr.loops.append((breaks, conts))
                back = None
                try:
                    ev = self.iter_elem(self.st.frames[self.fr.fid].get(hid, itv), node)
                    bind(ev)
                    run()
                    back = self.st
                except Dead:
                    pass
                self.fr.loops.pop()
                for c in conts:
                    back = join_state(back, c)
                if back is None:
                    break
                after = back
                new = join_state(cur, back)
                if it >= 4:
                    new = self.widen(cur, new)
                if new.same(cur):
                    break
                cur = new
            ex = join_state(after, base) if (may_empty or after is None and not breaks) else after
            for x in [ex] + breaks:
                # how often the events of such a loop happen is not known
                if x is not None and x.dom.get("events") != base.dom.get("events"):
                    x.dom = dict(x.dom, events=frozenset(["?"]))
            if ex is not None:
                self.st = ex
                try:
                    self.exec_block(orelse)
                    out = self.st
                except Dead:
                    pass
        for b in breaks:
            out = join_state(out, b)
        if out is None:
            raise Dead
        self.st = out
        self.st.frame(self.fr.fid).pop(hid, None)

    def may_be_empty(self, v):
        for a in v:
            if isinstance(a, Ref):
                h = self.st.heap.get(a.oid)
                if h is not None and h.items is None and h.kind in ("list", "dict", "set", "tuple") and not h.fields.get("$ne") and not h.elem:
                    return True
                if h is not None and h.items is not None and len(h.items) == 0:
                    return True
        return False

    def st_Break(self, s):
        self.fr.loops[-1][0].append(self.st)
        raise Dead

    def st_Continue(self, s):
        self.fr.loops[-1][1].append(self.st)
        raise Dead

    def st_With(self, s):
        mgrs = []
        for it in s.items:
            v = self.eval(it.context_expr)
            r = v
            for a in v:
                if isinstance(a, Ref) and self.st.heap[a.oid].kind == "inst":
                    m = self.find_method(self.st.heap[a.oid].cls, "__enter__")
                    if m:
                        r = self.call(V(BM(FnA(m), a)), [], {}, s)
                        mgrs.append(a)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r)
        self.exec_block(s.body)
        for a in reversed(mgrs):
            m = self.find_method(self.st.heap[a.oid].cls, "__exit__")
            if m:
                self.call(V(BM(FnA(m), a)), [NONE, NONE, NONE], {}, s)

    st_AsyncWith = st_With

    def _sure_lookup(self, s):
        """The guarded block only looks up a key that is known to be there."""
        if len(s.body) != 1 or not isinstance(s.body[0], (ast.Return, ast.Assign, ast.Expr)):
            return False
        e = s.body[0].value
        if not isinstance(e, ast.Subscript) or any(isinstance(n, (ast.Call, ast.Await)) for n in ast.walk(e)):
            return False
        if isinstance(s.body[0], ast.Assign) and not all(isinstance(t, ast.Name) for t in s.body[0].targets):
            return False
        b, q = self.eval(e.value), self.eval(e.slice)
        for a in b:
            h = self.st.heap.get(a.oid) if isinstance(a, Ref) else None
            if h is None or h.kind != "dict" or h.items is None or h.fields.get("$opt"):
                return False
            if not q or not all(isinstance(x, K) and x in h.items for x in q):
                return False
        return bool(b)

    def st_Try(self, s):
        begin = self.st.copy()
        sure = bool(s.handlers) and self._sure_lookup(s)
        coll = []
        fr = self.fr
        nret = len(fr.returns)
        outer_len = len(self.try_stack[-1]) if self.try_stack else 0
        depth = len(self.stack)
        if s.handlers:
            self.try_stack.append(coll)
        normal = None
        try:
            self.exec_block(s.body)
            normal = self.st
        except Dead:
            pass
        finally:
            if s.handlers:
                self.try_stack.pop()
            del self.stack[depth:]
        imports_only = all(isinstance(x, (ast.Import, ast.ImportFrom)) for x in s.body)
        out = None
        if s.handlers and not imports_only and not sure:
            entry = begin
            for c in coll:
                entry = join_state(entry, c)
            if normal is not None:
                entry = join_state(entry, normal)
                normal = normal.copy()
            for h in s.handlers:
                self.st = entry.copy()
                if h.name:
                    self.set_name(h.name, ANY)
                try:
                    self.exec_block(h.body)
                    out = join_state(out, self.st)
                except Dead:
                    pass
        if normal is not None:
            self.st = normal
            try:
                self.exec_block(s.orelse)
                out = join_state(out, self.st)
            except Dead:
                pass
        if s.finalbody:
            # abrupt exits also run the final block
            for i in range(nret, len(fr.returns)):
                v, st = fr.returns[i]
                self.st = st
                try:
                    self.exec_block(s.finalbody)
                    fr.returns[i] = (v, self.st)
                except Dead:
                    pass
            if self.try_stack:
                lst = self.try_stack[-1]
                for i in range(outer_len, len(lst)):
                    self.st = lst[i]
                    try:
                        self.exec_block(s.finalbody)
                        lst[i] = self.st
                    except Dead:
                        pass
            if out is not None:
                self.st = out
                self.exec_block(s.finalbody)
                out = self.st
        if out is None:
            raise Dead
        self.st = out

    def st_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def st_AugAssign(self, s):
        opn, fold = _BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, t)
            new = self.aug(opn, fold, cur, self.eval(s.value), s)
            self.set_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            cur = self.getattr(base, t.attr, t)
            new = self.aug(opn, fold, cur, self.eval(s.value), s)
            self.setattr(base, t.attr, new, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            idx = self.eval_index(t.slice)
            cur = self.getitem(base, idx, t)
            rhs = self.eval(s.value)
            tens = [a for a in cur if isinstance(a, Abs) and a.kind in TENSORISH and a.stors]
            bt = any(isinstance(a, Abs) and a.kind in TENSORISH for a in base)
            if bt:
                # x[i] op= y : read, compute, write back
                res = self.binop(opn, fold, cur, rhs, s)
                self.setitem(base, idx, res, s, aug=opn)
            else:
                new = self.aug(opn, fold, cur, rhs, s)
                self.setitem(base, idx, new, t)

    def aug(self, opn, fold, cur, rhs, node):
        out = E
        for a in cur:
            if isinstance(a, Abs) and a.kind in TENSORISH and a.stors:
                r = ext.inplace_binop(self, opn, a, rhs, node, n=len(cur))
                out = join_v(out, r)
            elif isinstance(a, Ref):
                h = self.st.heap[a.oid]
                if h.kind == "inst" and h.cls is not None:
                    m = self.find_method(h.cls, f"__i{opn}__")
                    if m:
                        out = join_v(out, self.call(V(BM(FnA(m), a)), [rhs], {}, node))
                        continue
                    out = join_v(out, self.binop(opn, fold, V(a), rhs, node))
                elif h.kind in ("list", "set", "dict"):
                    self.call_method(V(a), "extend" if h.kind == "list" else "update", [rhs], node)
                    out = join_v(out, V(a))
                else:
                    out = join_v(out, self.binop(opn, fold, V(a), rhs, node))
            else:
                out = join_v(out, self.binop(opn, fold, V(a), rhs, node))
        return out

    # ------------------------------------------------------------------ names
    def find_frame(self, name):
        fid = self.fr.fid
        while fid is not None:
            f = self.st.frames.get(fid)
            if f is None:
                return None
            if name in f:
                return fid
            fid = f.get("$parent")
        return None

    def load_name(self, name, node):
        fid = self.find_frame(name)
        if fid is not None:
            return self.st.frames[fid][name]
        m = self.fr.module
        if isinstance(self.fr.fid, tuple) and self.fr.fid[0] == "h" or m.name.startswith("h:"):
            if name in self.intr:
                return V(Ext("sa." + name))
            fid = getattr(m, "bindings_frame", None)
            if fid is not None and name in self.st.frames.get(fid, ()):
                return self.st.frames[fid][name]
        v = self.module_attr(m, name)
        if v is not None:
            return v
        if name in ext.BUILTINS:
            return V(Ext("builtins." + name))
        if name in ("__name__", "__file__"):
            return STR
        self.obs.error(self, "name", node, name)
        return ANY

    def set_name(self, name, v):
        fr = self.fr
        if fr.fi is not None and name in fr.fi.nonlocals:
            fid = self.st.frames.get(fr.fid, {}).get("$parent")
            while fid is not None:
                f = self.st.frames.get(fid)
                if f is None:
                    break
                if name in f:
                    self.st.frame(fid)[name] = v
                    return
                fid = f.get("$parent")
            self.note_write([("glob", fr.module.name, name)], fr.node, "global " + name, v)
            self.st.glob[(fr.module.name, name)] = v
            return
        self.st.frame(fr.fid)[name] = v

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            idx = self.eval_index(t.slice)
            if isinstance(t.value, ast.Attribute) and t.value.attr == "flags" and base and all(isinstance(x, Abs) and x.kind == "flags" for x in base):
                ro = all(isinstance(x, K) and not x.v for x in v)
                self.refine(t.value.value, frozenset(Abs(x.kind, x.stors, ro, x.view) if isinstance(x, Abs) and x.kind == "ndarray" else x for x in self.eval(t.value.value)))
                return
            self.setitem(base, idx, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            ex = self.exact_items(v)
            if ex is not None and not star and len(ex) == n:
                for e, x in zip(t.elts, ex):
                    self.assign(e, x)
            elif ex is not None and star and len(ex) >= n - 1:
                i = star[0]
                tail = n - 1 - i
                for e, x in zip(t.elts[:i], ex[:i]):
                    self.assign(e, x)
                mid = ex[i : len(ex) - tail]
                self.assign(t.elts[i].value, self.mk_list(t, mid))
                for e, x in zip(t.elts[i + 1 :], ex[len(ex) - tail :]):
                    self.assign(e, x)
            else:
                for i, e in enumerate(t.elts):
                    ev = self.unpack_elem(v, i, t)
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, self.mk_smash(t, "list", ev))
                    else:
                        self.assign(e, ev)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack_elem(self, v, i, node):
        out = E
        for a in v:
            if isinstance(a, Abs):
                # i-th element of an untracked value
                out = join_v(out, ext.elem_of(self, a, node, i))
            else:
                ex = self.exact_items(V(a))
                if ex is not None and i < len(ex):
                    out = join_v(out, ex[i])
                else:
                    out = join_v(out, self.iter_elem(V(a), node))
        return out

    def setattr(self, base, name, v, node):
        for a in base:
            if isinstance(a, Ref):
                h = self.st.heap[a.oid]
                if h.kind == "inst" and h.cls is not None:
                    st = self.find_setter(h.cls, name)
                    if st is not None:
                        self.call(V(BM(FnA(st), a)), [v], {}, node)
                        continue
                    if self.find_prop(h.cls, name) is not None:
                        self.obs.error(self, "setattr", node, f"{h.cls.qual}.{name} has no setter")
                        continue
                    sa = self.find_method(h.cls, "__setattr__")
                    if sa is not None and not self._in_func(sa):
                        self.call(V(BM(FnA(sa), a)), [k(name), v], {}, node)
                        continue
                self.raw_setattr(base, a, name, v, node)
            elif isinstance(a, ClsA):
                self.note_write([("cls", a.ci.qual)], node, "setattr " + name, v)
                self.st.glob[("cls", a.ci.key, name)] = v
            elif isinstance(a, FnA):
                self.note_write([("fn", a.fi.qual)], node, "setattr " + name, v)
                self.st.glob[("fn", a.fi.qual, a.frame, name)] = v
            elif isinstance(a, BM):
                pass
            elif isinstance(a, Abs):
                if name in ("data",) and a.kind in TENSORISH:
                    self.note_write(a.stors, node, "setattr data", v)
                elif name in ("grad", "requires_grad"):
                    ext.set_tensor_attr(self, a, name, v, node)
                elif a.stors:
                    self.note_write(a.stors, node, "setattr " + name, v)
                    if a.kind == "any":
                        for s in a.stors:
                            c = self.st.content.get(s)
                            if c is not None:
                                self.st.content[s] = {}

    def _in_func(self, fi):
        return any(f.fi is fi for f in self.stack)

    def raw_setattr(self, base, a, name, v, node):
        self.note_write([a.oid], node, "setattr " + name, v)
        h = self.st.heap[a.oid].copy()
        if len(base) == 1 and a.oid not in self.st.summ:
            h.fields[name] = v
        else:
            h.fields[name] = join_v(h.fields[name], v) if name in h.fields else v
        self.st.heap[a.oid] = h

    def setitem(self, base, idx, v, node, aug=None):
        for a in base:
            if isinstance(a, Ref):
                h = self.st.heap[a.oid]
                if h.kind == "inst":
                    m = self.find_method(h.cls, "__setitem__") if h.cls else None
                    if m:
                        self.call(V(BM(FnA(m), a)), [idx, v], {}, node)
                    else:
                        self.note_write([a.oid], node, "setitem", v)
                    continue
                self.note_write([a.oid], node, "setitem", v)
                if K("id:*", "int") in idx:
                    idx = idx - {K("id:*", "int")}
                    if not idx:
                        continue
                kx = next(iter(idx)) if len(idx) == 1 else None
                h = h.copy()
                strong = len(base) == 1 and a.oid not in self.st.summ
                if h.kind == "dict":
                    if h.items is not None and self.is_key(kx):
                        if strong or kx not in h.items:
                            h.items[kx] = v
                        else:
                            h.items[kx] = join_v(h.items[kx], v)
                        if "$opt" in h.fields and strong:
                            h.fields["$opt"] = h.fields["$opt"] - {kx}
                    else:
                        # unknown key: everything may change
                        if h.items is not None and idx and all(self.is_key(x) for x in idx):
                            for x in idx:
                                if x not in h.items:
                                    h.fields["$opt"] = h.fields.get("$opt", E) | {x}
                                h.items[x] = join_v(h.items.get(x, E), v)
                        else:
                            h.elem = join_v(h.elem, v)
                            h.keys = join_v(h.keys, idx)
                            if h.items is not None and not (h.items and all(is_idk(q) for q in h.items)):
                                h.items = {q: join_v(w, v) for q, w in h.items.items()}
                elif h.kind in ("list", "tuple"):
                    if h.items is not None and isinstance(kx, K) and isinstance(kx.v, int) and -len(h.items) <= kx.v < len(h.items):
                        its = list(h.items)
                        its[kx.v] = v if strong else join_v(its[kx.v], v)
                        h.items = tuple(its)
                    else:
                        if any(isinstance(x, Ref) and self.st.heap[x.oid].kind == "slice" for x in idx):
                            v = self.iter_elem(v, node)
                        h = h.smash().copy()
                        h.elem = join_v(h.elem, v)
                self.st.heap[a.oid] = h
                if "$dictof" in h.fields:
                    self.sync_dict(a.oid)
            elif isinstance(a, Abs):
                ext.tensor_setitem(self, base, a, idx, v, node, aug)

    @staticmethod
    def is_key(x):
        return isinstance(x, (K, ClsA, FnA)) or (isinstance(x, Ext) and x.recv is None)

    # ------------------------------------------------------------------ classes
    def mro(self, ci):
        if ci._mro is not None:
            return ci._mro
        ci._mro = [ci]
        bases = self.bases(ci)
        seqs = []
        exts = []
        for b in bases:
            if isinstance(b, ClassInfo):
                seqs.append(list(self.mro(b)))
            else:
                exts.append(b)
        seqs.append([b for b in bases if isinstance(b, ClassInfo)])
        out = [ci]
        seqs = [s for s in seqs if s]
        # C3 over repo classes; external bases are kept at the end
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]
                elif c in s:
                    s.remove(c)
        tail = []
        for b in exts:
            if b not in out:
                tail.append(b)
        reps = [x for x in out if isinstance(x, ClassInfo)]
        ext_in = [x for x in out if not isinstance(x, ClassInfo)]
        ci._mro = reps + [x for x in ext_in if x not in tail] + tail
        return ci._mro

    def bases(self, ci):
        if ci.bases_resolved:
            return ci.bases
        ci.bases_resolved = True
        out = []
        for b in ci.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            fid = ci.scope if ci.scope in self.st.frames else ("m", ci.module.name)
            fr = Frame(None, fid, 0, b, ci.module)
            self.st.frames.setdefault(fid, {})
            self.stack.append(fr)
            try:
                v = self.eval(b)
            except Dead:
                v = ANY
            finally:
                self.stack.pop()
            for a in v:
                if isinstance(a, ClsA):
                    out.append(a.ci)
                elif isinstance(a, Ext):
                    out.append(a.q)
                else:
                    out.append("?")
        ci.bases = out
        return out

    def find_method(self, ci, name):
        if not isinstance(ci, ClassInfo):
            return None
        for c in self.mro(ci):
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c.methods[name]
                if name in c.attrs:
                    return None
        return None

    def find_prop(self, ci, name):
        if not isinstance(ci, ClassInfo):
            return None
        for c in self.mro(ci):
            if isinstance(c, ClassInfo):
                if name in c.props:
                    return c.props[name]
                if name in c.methods or name in c.attrs:
                    return None
        return None

    def find_setter(self, ci, name):
        if not isinstance(ci, ClassInfo):
            return None
        for c in self.mro(ci):
            if isinstance(c, ClassInfo):
                if name in c.setters:
                    return c.setters[name]
                if name in c.props or name in c.methods:
                    return None
        return None

    def ext_bases(self, ci):
        return [c for c in self.mro(ci) if isinstance(c, str)]

    def subclass_of(self, ci, other):
        """other: ClassInfo or external qualname."""
        return other in self.mro(ci)

    # ------------------------------------------------------------------ attributes
    def getattr(self, base, name, node):
        out = E
        for a in base:
            r = self.getattr1(a, name, node)
            out = join_v(out, r)
        if not out:
            raise Dead
        return out

    def getattr1(self, a, name, node):
        if isinstance(a, Ref) and a.oid in self.st.heap and self.st.heap[a.oid].fields.get("$nd"):
            r = {"dtype": absv("dtype", E, False, {("npd", "object")}), "shape": absv("size"), "flags": absv("any"), "ndim": k(1)}.get(name)
            if r is not None:
                return r
        if isinstance(a, Ref):
            h = self.st.heap.get(a.oid)
            if h is None:
                return ANY
            if h.kind == "inst":
                return self.inst_attr(a, h, name, node)
            if h.kind == "slice":
                return {"start": h.items[0], "stop": h.items[1], "step": h.items[2]}.get(name, ANY)
            if h.fields.get("$nt") and name in h.fields["$nt"]:
                return h.items[h.fields["$nt"].index(name)]
            return V(Ext("py." + h.kind + "." + name, a))
        if isinstance(a, Abs):
            return ext.abs_attr(self, a, name, node)
        if isinstance(a, ModA):
            v = self.module_attr(a.m, name)
            if v is None:
                self.obs.error(self, "attr", node, f"{a.m.name}.{name}")
                return ANY
            return v
        if isinstance(a, Ext):
            if a.recv is not None:
                return V(Ext("any." + name, Abs("any")))
            if a.q == "builtins.object":
                return V(Ext("object." + name))
            if name == "__name__":
                return k(a.q.split(".")[-1])
            return V(Ext(a.q + "." + name))
        if isinstance(a, ClsA):
            return self.cls_attr(a, name, node)
        if isinstance(a, SuperA):
            return self.super_attr(a, name, node)
        if isinstance(a, (FnA,)):
            if name in ("__name__", "__qualname__"):
                return k(a.fi.name)
            v = self.st.glob.get(("fn", a.fi.qual, a.frame, name))
            if v is not None:
                return v
            return ANY
        if isinstance(a, BM):
            if name == "__self__":
                return V(a.self_)
            if name == "__name__":
                return k(a.fn.fi.name)
            if name == "remote":
                return V(Ext("ray.bound", a)) if "@ray" in self.intr else V(a)
            return ANY
        if isinstance(a, K):
            if a.v is None:
                self.none_attr(node, name)
                return E
            return V(Ext("const." + name, a))
        return ANY

    def none_attr(self, node, name):
        pass

    def inst_attr(self, a, h, name, node):
        ci = h.cls
        if isinstance(ci, ClassInfo):
            p = self.find_prop(ci, name)
            if p is not None:
                return self.call(V(BM(FnA(p), a)), [], {}, node)
        if name in h.fields:
            return h.fields[name]
        if isinstance(ci, ClassInfo):
            for c in self.mro(ci):
                if isinstance(c, ClassInfo):
                    g = self.st.glob.get(("cls", c.key, name))
                    if g is not None:
                        return g
                    if name in c.methods:
                        m = c.methods[name]
                        if m.kind == "static":
                            return self.func_value(m)
                        if m.kind == "class":
                            return V(BM(FnA(m), ClsA(ci)))
                        f = self.func_value(m)
                        return frozenset(BM(x, a) if isinstance(x, FnA) else x for x in f)
                    if name in c.attrs:
                        return self.class_const(c, name)
                else:
                    r = ext.ext_base_attr(self, c, a, h, name, node)
                    if r is not None:
                        return r
            if name == "__class__":
                return V(ClsA(ci))
            if name == "__dict__":
                return self.dict_of(a, h, node)
            if name in ext.OBJECT_ATTRS:
                return V(Ext("object." + name, a))
            g = self.find_method(ci, "__getattr__")
            if g is not None:
                return self.call(V(BM(FnA(g), a)), [k(name)], {}, node)
            if ci is not None and any(d in ("dataclass", "dataclasses.dataclass") for d in self._cls_decos(ci)):
                if name in ci.attrs:
                    return self.class_const(ci, name)
        if h.open:
            return ANY
        self.obs.error(self, "attr", node, f"{getattr(ci, 'qual', ci)}.{name}")
        self.record_raise()
        return E

    def dict_of(self, a, h, node):
        """`obj.__dict__`: a dict object kept in step with the instance."""
        d = HObj("dict", items={kk(n): v for n, v in h.fields.items() if n[:1] != "$"})
        d.fields["$dictof"] = a.oid
        return V(self.alloc(node, "odict", d))

    def sync_dict(self, oid):
        h = self.st.heap.get(oid)
        if h is None or "$dictof" not in h.fields:
            return
        o = h.fields["$dictof"]
        t = self.st.heap.get(o)
        if t is None:
            return
        t = t.copy()
        keep = {n: v for n, v in t.fields.items() if n[:1] == "$"}
        for q, v in (h.items or {}).items():
            if isinstance(q, K):
                keep[q.v] = v
        if h.items is None or h.elem:
            t.open = True
            keep["$rest"] = join_v(keep.get("$rest", E), h.elem)
        t.fields = keep
        self.note_write([o], self.stack[-1].node, "__dict__ update")
        self.st.heap[o] = t

    def _cls_decos(self, ci):
        from .prog import _deco_names

        return _deco_names(ci.node)

    def class_const(self, c, name):
        g = self.st.glob.get(("cls", c.key, name))
        if g is not None:
            return g
        e = c.attrs[name]
        if isinstance(e, ClassInfo):
            return V(ClsA(e))
        if isinstance(e, ast.Name) and e.id in c.methods and e.id != name:
            return self.func_value(c.methods[e.id])
        if isinstance(e, ast.Name) and e.id in c.attrs and e.id != name:
            return self.class_const(c, e.id)
        fid = c.scope if c.scope in self.st.frames else ("m", c.module.name)
        fr = Frame(None, fid, self.ctx_id(("cls", c.qual)), e, c.module)
        self.st.frames.setdefault(fid, {})
        self.stack.append(fr)
        try:
            v = self.eval(e)
        except Dead:
            v = ANY
        finally:
            self.stack.pop()
        self.st.glob[("cls", c.key, name)] = v
        return v

    def cls_attr(self, a, name, node):
        ci = a.ci
        for c in self.mro(ci):
            if isinstance(c, ClassInfo):
                g = self.st.glob.get(("cls", c.key, name))
                if g is not None:
                    return g
                if name in c.methods:
                    m = c.methods[name]
                    if m.kind == "class":
                        return V(BM(FnA(m), a))
                    return self.func_value(m)
                if name in c.attrs:
                    return self.class_const(c, name)
        if name in ("__name__", "__qualname__"):
            return k(ci.name)
        if name == "__module__":
            return k(ci.module.name)
        if name in ("options", "remote"):
            return V(Ext("ray.cls." + name, a))
        if name == "__mro__":
            return ANY
        if name == "__new__":
            return V(Ext("object.__new__"))
        if name in ("_fields",) and ci.ann_order:
            return self.mk_tuple(node, [k(n) for n in ci.ann_order])
        eb = self.ext_bases(ci)
        if eb:
            return V(Ext("extcls." + name, a))
        self.obs.error(self, "attr", node, f"{ci.qual}.{name}")
        return ANY

    def super_attr(self, a, name, node):
        self_ = a.self_
        if isinstance(self_, Ref):
            h = self.st.heap[self_.oid]
            ci = h.cls
        elif isinstance(self_, ClsA):
            ci = self_.ci
        elif isinstance(self_, Abs) and self_.kind in ("tensor", "any"):
            return V(Ext("super." + name + "@torch.Tensor", self_))
        else:
            return ANY
        mro = self.mro(ci) if isinstance(ci, ClassInfo) else []
        seen = False
        for c in mro:
            if c is a.ci:
                seen = True
                continue
            if not seen:
                continue
            if isinstance(c, ClassInfo):
                if name in c.props:
                    return self.call(V(BM(FnA(c.props[name]), self_)), [], {}, node)
                if name in c.methods:
                    m = c.methods[name]
                    if m.kind == "static":
                        return self.func_value(m)
                    f = self.func_value(m)
                    return frozenset(BM(x, self_) if isinstance(x, FnA) else x for x in f)
                if name in c.attrs:
                    return self.class_const(c, name)
        exts = [c for c in mro if isinstance(c, str)]
        return V(Ext("super." + name + "@" + (exts[0] if exts else "object"), self_))

    # ------------------------------------------------------------------ items
    def exact_items(self, v):
        """List of element values if the iterable's items are known exactly."""
        if len(v) != 1:
            return None
        a = next(iter(v))
        if isinstance(a, Ref):
            h = self.st.heap.get(a.oid)
            if h is None:
                return None
            if h.kind in ("list", "tuple") and h.items is not None:
                return list(h.items)
            if h.kind == "dict" and h.items is not None and not h.elem and not h.fields.get("$opt"):
                return [frozenset([x]) for x in h.items]
            if h.kind == "set" and h.items is not None:
                return list(h.items)
            if h.kind == "inst" and isinstance(h.cls, ClassInfo):
                if self.is_namedtuple(h.cls):
                    return [h.fields.get(n, ANY) for n in self.nt_fields(h.cls)]
                m = self.find_method(h.cls, "__iter__")
                if m is not None and not self._in_func(m):
                    r = self.call(V(BM(FnA(m), a)), [], {}, m.node)
                    if r != v:
                        return self.exact_items(r)
                m = self.find_method(h.cls, "__getitem__") if m is None else None
                n = self.find_method(h.cls, "__len__") if m is not None else None
                if n is not None and not self._in_func(m) and not self._in_func(n):
                    r = [x.v for x in self.call(V(BM(FnA(n), a)), [], {}, n.node) if isinstance(x, K)]
                    if len(r) == 1 and r[0] <= UNROLL:
                        outer = self.fr.iters
                        out = []
                        for i in range(r[0]):
                            self.fr.iters = outer + (i,)
                            out.append(self.call(V(BM(FnA(m), a)), [k(i)], {}, m.node))
                        self.fr.iters = outer
                        return out
        if isinstance(a, K) and isinstance(a.v, str):
            return [k(c) for c in a.v] if len(a.v) <= UNROLL else None
        if isinstance(a, Abs):
            return ext.abs_exact_items(self, a)
        return None

    def is_namedtuple(self, ci):
        return any(b in ("typing.NamedTuple", "collections.namedtuple") for b in self.ext_bases(ci))

    def nt_fields(self, ci):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and c.ann_order:
                return c.ann_order
        return []

    def iter_elem(self, v, node):
        out = E
        for a in v:
            if isinstance(a, Ref):
                h = self.st.heap.get(a.oid)
                if h is None:
                    out = join_v(out, ANY)
                elif h.kind == "dict":
                    r = h.keys
                    if h.items is not None:
                        for x in h.items:
                            r = join_v(r, frozenset([x]))
                    out = join_v(out, r)
                elif h.kind in ("list", "tuple", "set", "cell"):
                    out = join_v(out, h.all_elems())
                elif h.kind == "inst":
                    if isinstance(h.cls, ClassInfo) and self.is_namedtuple(h.cls):
                        for n in self.nt_fields(h.cls):
                            out = join_v(out, h.fields.get(n, ANY))
                        continue
                    m = self.find_method(h.cls, "__iter__") if h.cls else None
                    if m is not None:
                        if self._in_func(m):
                            out = join_v(out, ANY)
                            continue
                        r = self.call(V(BM(FnA(m), a)), [], {}, node)
                        if Ref(a.oid) in r:
                            # iterator protocol
                            nx = self.find_method(h.cls, "__next__")
                            if nx is not None:
                                out = join_v(out, self.call(V(BM(FnA(nx), a)), [], {}, node))
                            continue
                        out = join_v(out, self.iter_elem(r, node))
                        continue
                    m = self.find_method(h.cls, "__getitem__") if h.cls else None
                    if m is not None:
                        out = join_v(out, self.call(V(BM(FnA(m), a)), [INT], {}, node))
                    else:
                        out = join_v(out, ANY)
                else:
                    out = join_v(out, ANY)
            elif isinstance(a, Abs):
                out = join_v(out, ext.elem_of(self, a, node, None))
            elif isinstance(a, K):
                out = join_v(out, STR if isinstance(a.v, str) else ANY)
            else:
                out = join_v(out, ANY)
        return out

    def eval_index(self, e):
        return self.eval(e)

    def getitem(self, base, idx, node):
        out = E
        for a in base:
            out = join_v(out, self.getitem1(a, idx, node))
        if not out:
            self.record_raise()
            raise Dead
        return out

    def getitem1(self, a, idx, node):
        if isinstance(a, Abs) and a.ro and a.kind == "tensor" and self.ro_class is not None:
            m = self.find_method(self.ro_class, "__getitem__")
            if m:
                return self.call(V(BM(FnA(m), a)), [idx], {}, node)
        if isinstance(a, Ref):
            h = self.st.heap.get(a.oid)
            if h is None:
                return ANY
            kx = next(iter(idx)) if len(idx) == 1 else None
            if h.kind == "inst":
                if isinstance(h.cls, ClassInfo):
                    if self.is_namedtuple(h.cls) and isinstance(kx, K) and isinstance(kx.v, int):
                        fs = self.nt_fields(h.cls)
                        return h.fields.get(fs[kx.v], ANY) if -len(fs) <= kx.v < len(fs) else ANY
                    m = self.find_method(h.cls, "__getitem__")
                    if m:
                        return self.call(V(BM(FnA(m), a)), [idx], {}, node)
                    if any(b in ("torch.nn.ModuleList", "torch.nn.Sequential") for b in self.ext_bases(h.cls)):
                        return ANY
                return ANY
            if h.kind == "dict":
                if h.items is not None and idx and all(self.is_key(x) for x in idx):
                    r = E
                    miss = False
                    for x in idx:
                        if x in h.items:
                            r = join_v(r, h.items[x])
                            if h.fields.get("$opt") and x in h.fields["$opt"]:
                                miss = True
                        elif h.elem:
                            r = join_v(r, h.elem)
                        else:
                            miss = True
                    if miss:
                        d = h.fields.get("$default")
                        if d:
                            return join_v(r, self._default_item(a, h, idx, d, node))
                        self.record_raise()
                        if not r:
                            self.obs.error(self, "key", node, str(kx))
                    return r
                r = h.all_elems()
                d = h.fields.get("$default")
                if d:
                    r = join_v(r, self._default_item(a, h, idx, d, node))
                return r
            if h.kind in ("list", "tuple"):
                if h.items is not None and kx is not None:
                    if isinstance(kx, K) and isinstance(kx.v, int):
                        if -len(h.items) <= kx.v < len(h.items):
                            return h.items[kx.v]
                        self.record_raise()
                        return E
                    if isinstance(kx, Ref) and self.st.heap[kx.oid].kind == "slice":
                        sl = self.const_slice(kx)
                        if sl is not None:
                            return self.mk_list(node, list(h.items)[sl], tag="slc", kind=h.kind)
                if isinstance(kx, Ref) and self.st.heap[kx.oid].kind == "slice":
                    return self.mk_smash(node, h.kind, h.all_elems(), tag="slc")
                return h.all_elems()
            return ANY
        if isinstance(a, Abs):
            return ext.tensor_getitem(self, a, idx, node)
        if isinstance(a, K) and isinstance(a.v, str):
            kx = next(iter(idx)) if len(idx) == 1 else None
            if isinstance(kx, K) and isinstance(kx.v, int):
                try:
                    return k(a.v[kx.v])
                except IndexError:
                    return E
            if isinstance(kx, Ref):
                sl = self.const_slice(kx)
                if sl is not None:
                    return k(a.v[sl])
            return STR
        if isinstance(a, ClsA):
            return V(a)
        if isinstance(a, Ext):
            return V(a)
        if isinstance(a, K):
            return E if a.v is None else ANY
        return ANY

    def _default_item(self, a, h, idx, d, node):
        v = self.call(d, [], {}, node)
        self.setitem(V(a), idx, v, node)
        return v

    def const_slice(self, ref):
        h = self.st.heap[ref.oid]
        out = []
        if h.items is None:
            return None
        for x in h.items:
            if len(x) != 1:
                return None
            y = next(iter(x))
            if not isinstance(y, K):
                return None
            out.append(y.v)
        try:
            return slice(*out)
        except Exception:
            return None

    # ------------------------------------------------------------------ calls
    def call_method(self, v, name, args, node, kwargs=None):
        return self.call(self.getattr(v, name, node), args, kwargs or {}, node)

    def call(self, f, args, kwargs, node):
        """Call every possible target; join results and states."""
        targets = list(f)
        if len(targets) == 1:
            r = self.call1(targets[0], args, kwargs, node)
            if not r:
                raise Dead
            return r
        if not targets:
            raise Dead
        targets.sort(key=repr_atom)
        base = self.st
        out_v, out_s = E, None
        for t in targets:
            self.st = base.copy()
            try:
                r = self.call1(t, args, kwargs, node)
                if r:
                    out_v = join_v(out_v, r)
                    out_s = join_state(out_s, self.st)
            except Dead:
                pass
        if out_s is None:
            self.st = base
            raise Dead
        self.st = out_s
        return out_v

    def call1(self, t, args, kwargs, node):
        if isinstance(t, FnA):
            return self.call_fn(t, args, kwargs, node)
        if isinstance(t, BM):
            return self.call_fn(t.fn, [V(t.self_)] + list(args), kwargs, node)
        if isinstance(t, ClsA):
            return self.instantiate(t.ci, args, kwargs, node)
        if isinstance(t, Ext):
            return ext.call(self, t, args, kwargs, node)
        if isinstance(t, Ref):
            h = self.st.heap.get(t.oid)
            if h is None:
                return ANY
            if h.kind == "partial":
                kw = dict(h.fields)
                f = kw.pop("$f")
                kw.update(kwargs)
                return self.call(f, list(h.items) + list(args), kw, node)
            if h.kind == "vmap":
                return ext.call_vmap(self, t, h, args, kwargs, node)
            if h.kind == "ndim":
                return ext.call_ndim(self, t, h, args, kwargs, node)
            if h.kind == "inst":
                m = self.find_method(h.cls, "__call__") if h.cls else None
                if m:
                    return self.call_fn(FnA(m), [V(t)] + list(args), kwargs, node)
                if isinstance(h.cls, ClassInfo) and any("nn.Module" in b or b.endswith(".Module") for b in self.ext_bases(h.cls)):
                    m = self.find_method(h.cls, "forward")
                    if m:
                        return self.call_fn(FnA(m), [V(t)] + list(args), kwargs, node)
            return ext.unknown_call(self, t, args, kwargs, node)
        if isinstance(t, Abs):
            return ext.call_abs(self, t, args, kwargs, node)
        if isinstance(t, K):
            if t.v is None:
                self.record_raise()
                return E
            return ANY
        return ANY

    def instantiate(self, ci, args, kwargs, node):
        # __new__
        if self.is_namedtuple(ci):
            fs = self.nt_fields(ci)
            fields = {}
            for n, v in zip(fs, args):
                fields[n] = v
            for n, v in kwargs.items():
                if n == "**":
                    continue
                if n not in fs:
                    self.obs.error(self, "arity", node, f"{ci.qual} has no field {n}")
                fields[n] = v
            for n in fs:
                if n not in fields:
                    if n in ci.attrs:
                        fields[n] = self.class_const(ci, n)
                    else:
                        self.obs.error(self, "arity", node, f"{ci.qual} needs field {n}")
                        fields[n] = ANY
            if len(args) > len(fs):
                self.obs.error(self, "arity", node, f"{ci.qual} takes {len(fs)} fields")
            return V(self.alloc(node, "inst:" + ci.qual, HObj("inst", ci, fields)))
        hook = self.intr.get("@new")
        if hook is not None:
            r = hook(self, ci, args, kwargs, node)
            if r is not None:
                return r
        new = self.find_method(ci, "__new__")
        if new is not None and not self._in_func(new):
            r = self.call_fn(FnA(new), [V(ClsA(ci))] + list(args), kwargs, node)
            return r
        eb = self.ext_bases(ci)
        h = HObj("inst", ci, {})
        if any(b.split(".")[-1] in ("Tensor", "Exception", "ValueError", "TypeError", "RuntimeError") for b in eb):
            if "torch.Tensor" in eb:
                return ext.tensor_subclass_new(self, ci, args, kwargs, node)
            h.open = True
        a = self.alloc(node, "inst:" + ci.qual, h)
        init = self.find_method(ci, "__init__")
        if init is not None:
            self.call_fn(FnA(init), [V(a)] + list(args), kwargs, node)
            # the object may have been renamed by aging only if re-allocated inside; not expected
        elif any(d.split(".")[-1] == "dataclass" for d in self._cls_decos(ci)):
            hh = self.st.heap[a.oid].copy()
            fs = []
            for c in reversed(self.mro(ci)):
                if isinstance(c, ClassInfo):
                    fs += [n for n in c.ann_order if n not in fs]
            for n, v in zip(fs, args):
                hh.fields[n] = v
            for n, v in kwargs.items():
                hh.fields[n] = v
            for n in fs:
                if n not in hh.fields:
                    for c in self.mro(ci):
                        if isinstance(c, ClassInfo) and n in c.attrs:
                            hh.fields[n] = self.class_const(c, n)
                            break
            self.st.heap[a.oid] = hh
            pi = self.find_method(ci, "__post_init__")
            if pi:
                self.call_fn(FnA(pi), [V(a)], {}, node)
        elif (args or kwargs) and not eb:
            self.obs.error(self, "arity", node, f"{ci.qual}() takes no arguments")
        return V(a)

    def bind(self, fi, args, kwargs, node, fn):
        """Bind arguments to parameters; returns dict or None when the call cannot be made."""
        A = fi.args
        d = {}
        pos = [a.arg for a in A.posonlyargs + A.args]
        star = None
        args = list(args)
        extra = []
        for i, v in enumerate(args):
            if isinstance(v, StarArgs):
                # unknown number of positional arguments: may fill all remaining
                for p in pos[i:]:
                    if p not in kwargs:
                        d[p] = v.elem
                        star = v
                extra.append(v.elem)
                break
            if i < len(pos):
                d[pos[i]] = v
            else:
                extra.append(v)
        kwstar = kwargs.get("**")
        kwextra = {}
        ok = True
        for n, v in kwargs.items():
            if n == "**":
                continue
            if n in pos and n not in [p.arg for p in A.posonlyargs] or n in [a.arg for a in A.kwonlyargs]:
                if n in d and star is None:
                    self.obs.error(self, "arity", node, f"{fi.qual}: multiple values for {n}")
                d[n] = v
            elif A.kwarg is not None:
                kwextra[n] = v
            else:
                self.obs.error(self, "arity", node, f"{fi.qual}: unexpected keyword {n}")
                ok = False
        if extra and A.vararg is None and star is None:
            self.obs.error(self, "arity", node, f"{fi.qual}: too many positional arguments")
            ok = False
        # defaults
        defs = A.defaults
        npos = len(pos)
        missing = []
        for i, p in enumerate(pos):
            if p not in d:
                j = i - (npos - len(defs))
                if j >= 0:
                    d[p] = self.eval_default(fi, defs[j], fn)
                    if kwstar is not None:
                        d[p] = join_v(d[p], kwstar)
                elif kwstar is not None:
                    d[p] = kwstar
                else:
                    missing.append(p)
        for a, e in zip(A.kwonlyargs, A.kw_defaults):
            if a.arg not in d:
                if e is not None:
                    d[a.arg] = self.eval_default(fi, e, fn)
                    if kwstar is not None:
                        d[a.arg] = join_v(d[a.arg], kwstar)
                elif kwstar is not None:
                    d[a.arg] = kwstar
                else:
                    missing.append(a.arg)
        if missing:
            self.obs.error(self, "arity", node, f"{fi.qual}: missing arguments {missing}")
            ok = False
            for p in missing:
                d[p] = ANY
        if A.vararg is not None:
            if star is not None:
                d[A.vararg.arg] = self.mk_smash(node, "tuple", join_all(extra), tag="va" + fi.name)
            else:
                d[A.vararg.arg] = self.mk_tuple(node, extra, tag="va" + fi.name)
        if A.kwarg is not None:
            items = {kk(n): v for n, v in kwextra.items()}
            ref = self.mk_dict(node, items, tag="kw" + fi.name)
            if kwstar is not None:
                r = next(iter(ref))
                h = self.st.heap[r.oid].copy()
                h.elem = kwstar
                h.keys = STR
                self.st.heap[r.oid] = h
            d[A.kwarg.arg] = ref
        return d if ok else None

    def eval_default(self, fi, e, fn):
        if isinstance(e, ast.Constant):
            return k(e.value)
        key = ("def", fi.qual, e._sid if hasattr(e, "_sid") else id(e))
        v = self.st.glob.get(key)
        if v is not None:
            return v
        fid = fn.frame if fn.frame in self.st.frames else ("m", fi.module.name)
        fr = Frame(None, fid, self.ctx_id(("mod", fi.module.name)), e, fi.module)
        self.st.frames.setdefault(fid, {})
        self.stack.append(fr)
        try:
            v = self.eval(e)
        except Dead:
            v = ANY
        finally:
            self.stack.pop()
        self.st.glob[key] = v
        return v

    def call_fn(self, fn, args, kwargs, node):
        fi = fn.fi
        self.ncalls += 1
        if fi.qual == "evotorch.decorators.expects_ndim" and len(args) == 2 and not self.raw_ndim:
            ex = self.exact_items(args[1])
            if ex is not None:
                return ext.mk_ndim(self, args[0], ex, kwargs, node)
        hook = self.intr.get("@call:" + fi.qual)
        if hook is not None:
            r = hook(self, fn, args, kwargs, node)
            if r is not None:
                return r
        self.obs.enter(self, fi, node)
        depth = len(self.stack)
        rec = sum(1 for f in self.stack if f.fi is fi)
        same = False
        if rec:
            key = args_key(args, kwargs)
            same = any(f.fi is fi and f.akey == key and f.closure == fn.frame for f in self.stack)
            if rec >= 2 and not same:
                # nothing is known about what is recursed into
                vals = args[1:] if fi.cls is not None else args
                same = bool(vals) and all(isinstance(a, Abs) and a.kind in ("any", "obj", "int", "num") for v in vals[:1] for a in getattr(v, "elem", v))
        if depth >= MAX_DEPTH or rec >= self.max_recur or same:
            self.cuts[fi.qual] = self.cuts.get(fi.qual, 0) + 1
            stors = set()
            for v in list(args) + list(kwargs.values()):
                for a in getattr(v, "elem", v):
                    if isinstance(a, Abs):
                        stors |= a.stors
            return absv("any", stors)
        d = self.bind(fi, args, kwargs, node, fn)
        if d is None:
            self.record_raise()
            raise Dead
        caller = self.stack[-1] if self.stack else None
        cctx = (caller.ctx, caller.iters) if caller else 0
        ctx = self.ctx_id((cctx, getattr(node, "_sid", 0), fi.qual, fn.frame))
        fid = ("f", ctx)
        self.visited.add(fi.qual)
        if caller is not None and caller.fi is not None:
            self.edges.add((caller.fi.qual, fi.qual))
        fr = Frame(fi, fid, ctx, node, fi.module)
        fr.akey, fr.closure = args_key(args, kwargs), fn.frame
        d["$parent"] = fn.frame
        if fn.frame is None and fi.cls is not None and fi.cls.scope is not None:
            d["$parent"] = fi.cls.scope
        if fn.frame is None and fi.parent is None and fi.module is not None and getattr(fi.module, "bindings_frame", None) is not None:
            d["$parent"] = fi.module.bindings_frame
        st = self.st
        saved_frame = st.frames.get(fid)
        st.frames[fid] = d
        st._own.add(fid)
        self.stack.append(fr)
        if fi.is_gen:
            ref = self.alloc(node, "gen:" + fi.name, HObj("list", items=()))
            fr.yields = f"$y"
            self.st.frame(fid)["$y"] = V(ref)
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body)
                fr.returns.append((v, self.st))
            else:
                try:
                    self.exec_block(fi.node.body)
                    fr.returns.append((NONE, self.st))
                except Dead:
                    pass
        finally:
            del self.stack[depth:]
        if fi.is_gen:
            outs = None
            rv = E
            for v, s in fr.returns:
                outs = join_state(outs, s)
                rv = join_v(rv, s.frames[fid].get("$y", E))
            if outs is None:
                raise Dead
            self.st = outs
            res = rv
        else:
            outs = None
            res = E
            for v, s in fr.returns:
                outs = join_state(outs, s)
                res = join_v(res, v)
            if outs is None:
                raise Dead
            self.st = outs
        if not fr.has_closure and not any(True for _ in ()):
            if saved_frame is not None and rec:
                self.st.frames[fid] = saved_frame
            else:
                self.st.frames.pop(fid, None)
            self.st._own.discard(fid)
        hook = self.intr.get("@ret:" + fi.qual)
        if hook is not None:
            r = hook(self, fn, args, kwargs, node, res)
            if r is not None:
                return r
        return res

    def do_yield(self, v, node):
        fid = self.fr.fid
        lst = self.st.frames[fid].get("$y", E)
        for a in lst:
            if isinstance(a, Ref):
                h = self.st.heap[a.oid].copy()
                if h.items is not None and len(lst) == 1 and not a.oid.endswith("*") and len(h.items) < UNROLL:
                    h.items = h.items + (v,)
                else:
                    h = h.smash().copy()
                    h.elem = join_v(h.elem, v)
                    h.fields["$ne"] = True
                self.st.heap[a.oid] = h

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        r = getattr(self, "ex_" + type(e).__name__)(e)
        if not r:
            self.note_dead(e)
            self.record_raise()
            raise Dead
        return r

    def ex_Constant(self, e):
        return k(e.value)

    def ex_Name(self, e):
        return self.load_name(e.id, e)

    def ex_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr, e)

    def ex_Subscript(self, e):
        b = self.eval(e.value)
        i = self.eval_index(e.slice)
        return self.getitem(b, i, e)

    def ex_Slice(self, e):
        its = [self.eval(x) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
        return V(self.alloc(e, "slice", HObj("slice", items=tuple(its))))

    def ex_Index(self, e):
        return self.eval(e.value)

    def ex_Tuple(self, e):
        return self._seq(e, "tuple")

    def ex_List(self, e):
        return self._seq(e, "list")

    def ex_Set(self, e):
        return self._seq(e, "set")

    def _seq(self, e, kind):
        # items are accumulated in the state so that aging can rename them
        hid = f"$seq{e._sid}"
        fid = self.fr.fid
        items = []
        exact = True
        elem = E
        if not any(isinstance(x, ast.Starred) for x in e.elts):
            vals = [self.eval(x) for x in e.elts]
            return self.mk_list(e, vals, tag=kind, kind=kind)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                ex = self.exact_items(v)
                if ex is not None:
                    items += ex
                else:
                    exact = False
                    elem = join_v(elem, self.iter_elem(v, e))
            else:
                items.append(self.eval(x))
        if exact:
            return self.mk_list(e, items, tag=kind, kind=kind)
        for x in items:
            elem = join_v(elem, x)
        return self.mk_smash(e, kind, elem, tag=kind)

    def ex_Dict(self, e):
        items = {}
        elem, keys = E, E
        for kx, vx in zip(e.keys, e.values):
            if kx is None:
                v = self.eval(vx)
                for a in v:
                    if isinstance(a, Ref) and self.st.heap[a.oid].kind == "dict":
                        h = self.st.heap[a.oid]
                        if h.items is not None:
                            for q, w in h.items.items():
                                items[q] = w
                        elem = join_v(elem, h.elem)
                        keys = join_v(keys, h.keys)
                    else:
                        elem = join_v(elem, ANY)
                        keys = join_v(keys, STR)
                continue
            kv = self.eval(kx)
            v = self.eval(vx)
            a = next(iter(kv)) if len(kv) == 1 else None
            if self.is_key(a):
                items[a] = v
            else:
                keys = join_v(keys, kv)
                elem = join_v(elem, v)
        ref = self.alloc(e, "dict", HObj("dict", items=items, elem=elem, keys=keys))
        return V(ref)

    def ex_Lambda(self, e):
        fi = getattr(e, "_fi", None)
        if fi is None:
            q = (self.fr.fi.qual if self.fr.fi else self.fr.module.name) + ".<lambda>"
            fi = FuncInfo("<lambda>", q, e, self.fr.module, parent=self.fr.fi)
            e._fi = fi
        self.fr.has_closure = True
        return V(FnA(fi, self.fr.fid))

    def ex_IfExp(self, e):
        t, f = self.cond(e.test)
        out_v, out_s = E, None
        for st, x in ((t, e.body), (f, e.orelse)):
            if st is None:
                continue
            self.st = st
            try:
                v = self.eval(x)
                out_v = join_v(out_v, v)
                out_s = join_state(out_s, self.st)
            except Dead:
                pass
        if out_s is None:
            raise Dead
        self.st = out_s
        return out_v

    def ex_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        out_v, out_s = E, None
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            if last:
                try:
                    v = self.eval(x)
                except Dead:
                    break
                out_v = join_v(out_v, v)
                out_s = join_state(out_s, self.st)
                break
            if isinstance(x, (ast.Compare, ast.BoolOp, ast.Call, ast.UnaryOp)):
                t, f = self.cond(x)
                go, stop = (t, f) if is_and else (f, t)
                if stop is not None:
                    sv = FALSE if is_and else TRUE
                    out_v = join_v(out_v, sv)
                    out_s = join_state(out_s, stop)
                if go is None:
                    break
                self.st = go
                continue
            v = self.eval(x)
            stopv = frozenset(a for a in v if self.truth(a) is not (True if is_and else False))
            gov = frozenset(a for a in v if self.truth(a) is not (False if is_and else True))
            if stopv:
                out_v = join_v(out_v, stopv)
                out_s = join_state(out_s, self.st.copy())
            if not gov:
                break
            self.refine(x, gov)
        if out_s is None:
            raise Dead
        self.st = out_s
        return out_v

    def ex_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            if self.domains and isinstance(e.operand, (ast.Compare, ast.Call, ast.Name)):
                v = self.eval(e.operand)
                if v and all(isinstance(a, Abs) and a.kind in ("tensor", "bool") for a in v):
                    return ext.mkfresh(self, e, "bool", "logical_not", [v], {})
                tb, fb = self.truth_set(v)
                return (FALSE if tb else E) | (TRUE if fb else E)
            t, f = self.cond(e.operand)
            r = E
            if t is not None:
                r |= FALSE
            if f is not None:
                r |= TRUE
            self.st = join_state(t, f)
            return r
        v = self.eval(e.operand)
        op = {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(e.op)]
        out = E
        for a in v:
            if isinstance(a, K) and isinstance(a.v, (int, float)):
                try:
                    out = join_v(out, k({"neg": lambda x: -x, "pos": lambda x: x, "invert": lambda x: ~x}[op](a.v)))
                except Exception:
                    out = join_v(out, NUM)
            elif isinstance(a, Ref) and self.st.heap[a.oid].kind == "inst":
                m = self.find_method(self.st.heap[a.oid].cls, f"__{op}__")
                out = join_v(out, self.call(V(BM(FnA(m), a)), [], {}, e) if m else ANY)
            else:
                out = join_v(out, ext.unary(self, op, a, e))
        return out

    def ex_BinOp(self, e):
        opn, fold = _BINOPS[type(e.op)]
        l = self.eval(e.left)
        r = self.eval(e.right)
        return self.binop(opn, fold, l, r, e)

    def binop(self, opn, fold, l, r, node):
        out = E
        group = set()
        l2 = []
        for a in l:
            rest = []
            for b in r:
                if isinstance(a, K) and isinstance(b, K):
                    v = None
                    if fold is not None:
                        try:
                            v = fold(a.v, b.v)
                        except Exception:
                            v = None
                    if v is not None and isinstance(v, (int, float, str, bool)) and (not isinstance(v, str) or len(v) < 500):
                        out = join_v(out, k(v))
                    elif isinstance(a.v, str):
                        out = join_v(out, STR)
                    elif a.v is None or b.v is None:
                        continue
                    else:
                        out = join_v(out, NUM)
                    continue
                if isinstance(a, Ref):
                    h = self.st.heap.get(a.oid)
                    if h is not None and h.kind == "inst":
                        m = self.find_method(h.cls, f"__{opn}__") if h.cls else None
                        if m:
                            out = join_v(out, self.call(V(BM(FnA(m), a)), [V(b)], {}, node))
                            continue
                if isinstance(b, Ref):
                    h = self.st.heap.get(b.oid)
                    if h is not None and h.kind == "inst":
                        m = self.find_method(h.cls, f"__r{opn}__") if h.cls else None
                        if m:
                            out = join_v(out, self.call(V(BM(FnA(m), b)), [V(a)], {}, node))
                            continue
                if isinstance(a, K) and a.v is None or isinstance(b, K) and b.v is None:
                    continue
                out = join_v(out, self.alternative(group, ext.binop, opn, a, b, node))
        return out

    def ex_Compare(self, e):
        guard = self.st.dom.get("guard")
        t, f = self.cond(e)
        # elementwise comparisons keep their tensor value
        v = getattr(self, "_cmpval", None)
        self._cmpval = None
        self.st = join_state(t, f)
        if guard is not None:
            self.st.dom["guard"] = guard
        if v is not None:
            return v
        r = E
        if t is not None:
            r |= TRUE
        if f is not None:
            r |= FALSE
        return r

    def ex_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                self.mute += 1
                try:
                    v = self.eval(x.value)
                except Dead:
                    v = ANY
                finally:
                    self.mute -= 1
                if len(v) == 1:
                    a = next(iter(v))
                    if isinstance(a, K) and x.format_spec is None and x.conversion == -1:
                        parts.append(str(a.v))
                        continue
                parts.append(None)
        if all(p is not None for p in parts):
            return k("".join(parts))
        return STR

    def ex_FormattedValue(self, e):
        self.eval(e.value)
        return STR

    def ex_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def ex_Starred(self, e):
        return self.eval(e.value)

    def ex_Await(self, e):
        return self.eval(e.value)

    def ex_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        self.do_yield(v, e)
        return ANY

    def ex_YieldFrom(self, e):
        v = self.eval(e.value)
        ex = self.exact_items(v)
        if ex is not None:
            for x in ex:
                self.do_yield(x, e)
        else:
            self.do_yield(self.iter_elem(v, e), e)
        return ANY

    # comprehensions: accumulate into a heap list that lives in the state
    def _comp(self, e, kind, emit):
        acc = self.alloc(e, "comp", HObj(kind, items=() if kind != "dict" else {}))
        name = f"$acc{e._sid}"
        # comprehension scope: iteration variables live in a child frame
        fr = self.fr
        cfid = ("c", fr.ctx, e._sid)
        sub = Frame(fr.fi, cfid, fr.ctx, e, fr.module)
        sub.iters = fr.iters
        sub.cls = None
        self.st.frames[cfid] = {"$parent": fr.fid, name: V(acc)}
        self.stack.append(sub)
        depth = len(self.stack)

        def level(i):
            if i == len(e.generators):
                emit(name, cfid)
                return
            g = e.generators[i]
            itv = self.eval(g.iter)

            def bind(ev):
                self.assign(g.target, ev)

            def body():
                for c in g.ifs:
                    t, f = self.cond(c)
                    if f is not None:
                        self.fr.loops[-1][1].append(f)
                    if t is None:
                        raise Dead
                    self.st = t
                level(i + 1)

            self.loop_over(g.iter if hasattr(g.iter, "_sid") else e, itv, bind, None, [], body_fn=body)

        try:
            level(0)
        finally:
            del self.stack[depth - 1 :]
        res = self.st.frames[cfid][name]
        if sub.has_closure:
            fr.has_closure = True
        else:
            self.st.frames.pop(cfid, None)
            self.st._own.discard(cfid)
        return res

    def _emit_list(self, name, cfid, v, node):
        for a in self.st.frames[cfid][name]:
            h = self.st.heap[a.oid].copy()
            multi = any(True for f in self.stack[-1].loops)
            if h.items is not None and len(h.items) < UNROLL and self._unrolling(node):
                h.items = h.items + (v,)
            else:
                h = h.smash().copy() if h.items is not None else h
                h.elem = join_v(h.elem, v)
                h.fields["$ne"] = True
            self.st.heap[a.oid] = h

    def _unrolling(self, e):
        """All generators of comprehension e iterate over exact sequences, without conditions."""
        for g in e.generators:
            if g.ifs and not getattr(self, "_exact_ifs", False):
                pass
            hid = f"$it{g.iter._sid}"
            v = self.st.frames[self.fr.fid].get(hid)
            if v is None:
                return False
            ex = self.exact_items(v)
            if ex is None or len(ex) > UNROLL:
                return False
        return True

    def ex_ListComp(self, e):
        return self._comp(e, "list", lambda n, c: self._emit_list(n, c, self.eval(e.elt), e))

    def ex_SetComp(self, e):
        return self._comp(e, "set", lambda n, c: self._emit_list(n, c, self.eval(e.elt), e))

    def ex_GeneratorExp(self, e):
        return self._comp(e, "list", lambda n, c: self._emit_list(n, c, self.eval(e.elt), e))

    def ex_DictComp(self, e):
        def emit(name, cfid):
            kv = self.eval(e.key)
            v = self.eval(e.value)
            for a in self.st.frames[cfid][name]:
                h = self.st.heap[a.oid].copy()
                kx = next(iter(kv)) if len(kv) == 1 else None
                if self.is_key(kx):
                    h.items = dict(h.items)
                    h.items[kx] = v
                else:
                    h.keys = join_v(h.keys, kv)
                    h.elem = join_v(h.elem, v)
                self.st.heap[a.oid] = h

        return self._comp(e, "dict", emit)

    def ex_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.find_frame("super") is None:
            return self.eval_super(e)
        f = self.eval(e.func)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                ex = self.exact_items(v)
                if ex is not None:
                    args += ex
                else:
                    args.append(StarArgs(self.iter_elem(v, e)))
            else:
                args.append(self.eval(x))
        kwargs = {}
        for kw in e.keywords:
            v = self.eval(kw.value)
            if kw.arg is None:
                for a in v:
                    if isinstance(a, Ref) and self.st.heap[a.oid].kind == "dict":
                        h = self.st.heap[a.oid]
                        if h.items is not None:
                            opt = h.fields.get("$opt") or ()
                            for q, w in h.items.items():
                                if isinstance(q, K) and isinstance(q.v, str):
                                    kwargs[q.v] = join_v(kwargs.get(q.v, E), w) if len(v) > 1 else w
                        if h.elem or h.items is None:
                            kwargs["**"] = join_v(kwargs.get("**", E), h.elem or ANY)
                    elif isinstance(a, K) and a.v is None:
                        continue
                    else:
                        kwargs["**"] = join_v(kwargs.get("**", E), ext.elem_of(self, a, e, None) if isinstance(a, Abs) else ANY)
            else:
                kwargs[kw.arg] = v
        return self.call(f, args, kwargs, e)

    def eval_super(self, e):
        if len(e.args) == 2:
            c = self.eval(e.args[0])
            s = self.eval(e.args[1])
            return frozenset(SuperA(x.ci, y) for x in c for y in s if isinstance(x, ClsA))
        # find the enclosing method
        fi = self.fr.fi
        while fi is not None and fi.cls is None:
            fi = fi.parent
        if fi is None:
            return ANY
        A = fi.args
        first = (A.posonlyargs + A.args)[0].arg
        s = self.load_name(first, e)
        return frozenset(SuperA(fi.cls, y) for y in s)

    # ------------------------------------------------------------------ conditions
    def truth(self, a):
        if isinstance(a, K):
            try:
                return bool(a.v)
            except Exception:
                return None
        if isinstance(a, Ref):
            h = self.st.heap.get(a.oid)
            if h is None:
                return None
            if h.kind in ("list", "tuple", "dict", "set"):
                if h.items is not None:
                    if h.kind == "dict" and (h.elem or h.fields.get("$opt")):
                        return None
                    return bool(h.items)
                return True if h.fields.get("$ne") else None
            if h.kind == "inst":
                if h.cls and (self.find_method(h.cls, "__bool__") or self.find_method(h.cls, "__len__")):
                    return None
                return True
            return True
        if isinstance(a, (FnA, BM, ClsA, ModA)):
            return True
        if isinstance(a, Ext):
            return True
        if isinstance(a, Abs):
            if a.kind in ("gen", "dtype", "device", "callable", "obj"):
                return True
            for kx, v in a.view:
                if kx == "truth":
                    return v
        return None

    def truth_set(self, v):
        """(may be true, may be false)"""
        t = f = False
        for a in v:
            x = self.truth(a)
            if x is None:
                if isinstance(a, Ref):
                    h = self.st.heap[a.oid]
                    if h.kind == "inst":
                        m = self.find_method(h.cls, "__bool__") or self.find_method(h.cls, "__len__")
                        if m and not self._in_func(m):
                            r = self.call(V(BM(FnA(m), a)), [], {}, m.node)
                            tt, ff = self.truth_set(r)
                            t, f = t or tt, f or ff
                            continue
                t = f = True
            elif x:
                t = True
            else:
                f = True
        return t, f

    def split(self, t, f):
        if t and f:
            s2 = self.st.copy()
            return self.st, s2
        if t:
            return self.st, None
        if f:
            return None, self.st
        return None, None

    def cond(self, e):
        """Evaluate a condition; returns (state if true, state if false)."""
        self._cmpval = None
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            stop = None
            for i, x in enumerate(e.values):
                t, f = self.cond(x)
                go, st = (t, f) if is_and else (f, t)
                stop = join_state(stop, st)
                if go is None:
                    return (None, stop) if is_and else (stop, None)
                self.st = go
            self._cmpval = None
            return (self.st, stop) if is_and else (stop, self.st)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand)
            self._cmpval = None
            return f, t
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1:
                return self.cond_compare(e)
            return self.cond_chain(e)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2 and self.find_frame("isinstance") is None:
            v = self.eval(e.args[0])
            c = self.eval(e.args[1])
            tv, fv = [], []
            for a in v:
                x = ext.isinstance_atom(self, a, c)
                if x is not False:
                    tv.append(ext.refine_isinstance(self, a, c) if x is None else a)
                if x is not True:
                    fv.append(a)
            t, f = self.split(bool(tv), bool(fv))
            if t is not None:
                self.st = t
                self.refine(e.args[0], frozenset(tv))
            if f is not None:
                self.st = f
                self.refine(e.args[0], frozenset(fv))
            return t, f
        if isinstance(e, ast.Call) and self.is_predicate(e):
            # f(x) with several possible x: decide f for each of them, so that x is refined by the outcome
            t = f = None
            base = self.st
            atoms = self.peek(e.args[0])
            for i, a in enumerate(sorted(atoms, key=repr)):
                self.st = base if i == len(atoms) - 1 else base.copy()
                self.refine(e.args[0], frozenset([a]))
                try:
                    v = self.eval(e)
                    tb, fb = self.truth_set(v)
                except Dead:
                    continue
                t1, f1 = self.split(tb, fb)
                if t1 is not None and f1 is not None:
                    self.branch(e, v, t1, f1)
                t = join_state(t, t1)
                f = join_state(f, f1)
            return t, f
        v = self.eval(e)
        tb, fb = self.truth_set(v)
        t, f = self.split(tb, fb)
        if t is not None and f is not None:
            self.st = t
            self.refine(e, frozenset(a for a in v if self.truth(a) is not False))
            self.st = f
            self.refine(e, frozenset(a for a in v if self.truth(a) is not True))
            self.branch(e, v, t, f)
        return t, f

    def branch(self, e, v, t, f):
        """A condition went both ways: let the domains note it in the two states."""
        for d in self.domains:
            if hasattr(d, "branch"):
                d.branch(self, e, v, t, f)

    def is_predicate(self, e):
        """e is a call of a short helper of the sources whose first argument is a variable with several possible values."""
        if not (isinstance(e.func, ast.Name) and e.args and isinstance(e.args[0], ast.Name)):
            return False
        v = self.peek(e.args[0])
        if v is None or not 2 <= len(v) <= 10:
            return False
        f = self.eval(e.func)
        if len(f) != 1:
            return False
        a = next(iter(f))
        return isinstance(a, FnA) and len(a.fi.node.body) <= 3

    def cond_chain(self, e):
        left = e.left
        stop = None
        for op, right in zip(e.ops, e.comparators):
            c = ast.Compare(left=left, ops=[op], comparators=[right])
            ast.copy_location(c, e)
            c._sid = e._sid
            c._mod = getattr(e, "_mod", None)
            t, f = self.cond_compare(c)
            stop = join_state(stop, f)
            if t is None:
                self._cmpval = None
                return None, stop
            self.st = t
            left = right
        self._cmpval = None
        return self.st, stop

    def cond_compare(self, e):
        op = e.ops[0]
        l = self.eval(e.left)
        r = self.eval(e.comparators[0])
        tl, fl = set(), set()  # atoms of the left operand compatible with true / false
        cmpval = None
        if isinstance(op, (ast.Is, ast.IsNot)):
            for a in l:
                for b in r:
                    x = self.is_same(a, b)
                    if x is not False:
                        tl.add(b if (x is None and isinstance(b, K)) else a)
                    if x is not True:
                        fl.add(a)
            if isinstance(op, ast.IsNot):
                tl, fl = fl, tl
        elif isinstance(op, (ast.In, ast.NotIn)):
            for a in l:
                for b in r:
                    x = self.contains(b, a, e)
                    if x is not False:
                        tl.add(a)
                    if x is not True:
                        fl.add(a)
            if isinstance(op, ast.NotIn):
                tl, fl = fl, tl
        else:
            name, fold = _CMP[type(op)]
            vals = E
            group = set()
            for a in l:
                for b in r:
                    x = None
                    val = None
                    if isinstance(a, K) and isinstance(b, K):
                        try:
                            x = bool(fold(a.v, b.v))
                        except Exception:
                            x = None
                            if name in ("lt", "le", "gt", "ge"):
                                continue
                    else:
                        x, val = self.compare_atoms(name, a, b, e, group)
                    if val is not None:
                        vals = join_v(vals, val)
                        x2 = None
                        for va in val:
                            x2 = self.truth(va)
                        x = x if x is not None else x2 if len(val) == 1 else None
                    else:
                        if x is not False:
                            vals = join_v(vals, TRUE)
                        if x is not True:
                            vals = join_v(vals, FALSE)
                    if x is not False:
                        tl.add(b if (x is None and name == "eq" and isinstance(b, K) and isinstance(a, Abs) and a.kind in ("str", "any", "int") and not a.stors and isinstance(b.v, str)) else a)
                    if x is not True:
                        fl.add(a if not (name == "ne" and x is None and isinstance(b, K) and isinstance(a, Abs) and a.kind == "str") else b)
            if any(isinstance(a, Abs) for a in vals):
                cmpval = vals
        t, f = self.split(bool(tl), bool(fl))
        if t is not None and f is not None:
            self.st = t
            self.refine(e.left, frozenset(tl))
            self.st = f
            self.refine(e.left, frozenset(fl))
            self.branch(e, cmpval, t, f)
        if t is None and f is None:
            raise Dead
        self._cmpval = cmpval
        return t, f

    def compare_atoms(self, name, a, b, node, group):
        for x, y, nm in ((a, b, name), (b, a, _REFLECT[name])):
            if isinstance(x, Ref):
                h = self.st.heap.get(x.oid)
                if h is not None and h.kind == "inst" and h.cls:
                    m = self.find_method(h.cls, f"__{nm}__")
                    if m:
                        return None, self.call(V(BM(FnA(m), x)), [V(y)], {}, node)
                    if nm == "ne":
                        m = self.find_method(h.cls, "__eq__")
                        if m:
                            return None, BOTH
        if isinstance(a, (ClsA, FnA, ModA, Ext)) and isinstance(b, (ClsA, FnA, ModA, Ext)) and name in ("eq", "ne"):
            if isinstance(a, Ext) and isinstance(b, Ext) and a.recv is None and b.recv is None:
                same = a.q == b.q
                return (same if name == "eq" else not same), None
            same = a == b
            return (same if name == "eq" else not same), None
        if isinstance(a, Abs) and a.kind in TENSORISH or isinstance(b, Abs) and b.kind in TENSORISH:
            return None, self.alternative(group, ext.compare, name, a, b, node)
        if name in ("eq", "ne"):
            x = self.eq_atoms(a, b)
            if x is not None:
                return (x if name == "eq" else not x), None
        if isinstance(a, Abs) or isinstance(b, Abs):
            v = self.alternative(group, ext.compare_num, name, a, b, node)
            if v is not None:
                return None, v
        return None, None

    def eq_atoms(self, a, b):
        if isinstance(a, Abs) and isinstance(b, Abs) and a.kind == b.kind == "dtype":
            x, y = dict(a.view).get("npd"), dict(b.view).get("npd")
            if x and y and not set(x.split(",")) & set(y.split(",")):
                return False
            return None
        if isinstance(a, Ref) and isinstance(b, Ref):
            ha, hb = self.st.heap.get(a.oid), self.st.heap.get(b.oid)
            if a.oid == b.oid and a.oid not in self.st.summ:
                return True
            if ha and hb and ha.kind in ("list", "tuple") and hb.kind == ha.kind and ha.items is not None and hb.items is not None:
                if len(ha.items) != len(hb.items):
                    return False
                res = True
                for x, y in zip(ha.items, hb.items):
                    if len(x) == 1 and len(y) == 1 and isinstance(next(iter(x)), K) and isinstance(next(iter(y)), K):
                        if next(iter(x)).v != next(iter(y)).v:
                            return False
                    else:
                        res = None
                return res
            return None
        if isinstance(a, K) and isinstance(b, (ClsA, FnA, ModA)) or isinstance(b, K) and isinstance(a, (ClsA, FnA, ModA)):
            return False
        if isinstance(a, K) and isinstance(b, Ref) or isinstance(b, K) and isinstance(a, Ref):
            return False
        if isinstance(a, K) and isinstance(b, Ext) or isinstance(b, K) and isinstance(a, Ext):
            return ext.eq_const_ext(a, b)
        if isinstance(a, Abs) and isinstance(b, K) or isinstance(a, K) and isinstance(b, Abs):
            ab, c = (a, b) if isinstance(a, Abs) else (b, a)
            if c.v is None and ab.kind != "any":
                return False
            if isinstance(c.v, str) and ab.kind in ("int", "num", "bool", "tensor"):
                return False
            if isinstance(c.v, (int, float)) and ab.kind in ("str",):
                return False
        return None

    def is_same(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, K):
                if isinstance(y, K):
                    return x == y if (x.v is None or isinstance(x.v, bool) or y.v is None) else (None if x == y else False)
                if isinstance(y, Abs):
                    if y.kind == "any" and (x.v is None or True):
                        return None
                    if y.kind == "bool" and isinstance(x.v, bool):
                        return None
                    return False
                return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid != b.oid:
                return False
            return None if a.oid in self.st.summ else True
        if isinstance(a, Abs) and isinstance(b, Abs):
            return None
        if isinstance(a, (ClsA, FnA, ModA, Ext)) and isinstance(b, (ClsA, FnA, ModA, Ext)):
            return a == b
        if isinstance(a, Abs) or isinstance(b, Abs):
            ab = a if isinstance(a, Abs) else b
            return None if ab.kind == "any" else False
        return False

    def contains(self, cont, item, node):
        if isinstance(cont, Ref):
            h = self.st.heap.get(cont.oid)
            if h is None:
                return None
            if h.kind == "inst":
                m = self.find_method(h.cls, "__contains__") if h.cls else None
                if m:
                    r = self.call(V(BM(FnA(m), cont)), [V(item)], {}, node)
                    t, f = self.truth_set(r)
                    return None if t and f else t
                return None
            if h.items is not None:
                if isinstance(h.items, dict):
                    if self.is_key(item):
                        if item in h.items:
                            return None if (h.fields.get("$opt") and item in h.fields["$opt"]) else True
                        return None if h.elem and not is_idk(item) else False
                    return None
                res = False
                for v in h.items:
                    for b in v:
                        x = None
                        if isinstance(b, K) and isinstance(item, K):
                            x = b.v == item.v
                        else:
                            x = self.eq_atoms(item, b) if not (isinstance(item, (ClsA, FnA, Ext)) and isinstance(b, (ClsA, FnA, Ext))) else item == b
                        if x and len(v) == 1:
                            return True
                        if x is not False:
                            res = None
                return res
            return None
        if isinstance(cont, K) and isinstance(item, K) and isinstance(cont.v, str) and isinstance(item.v, str):
            return item.v in cont.v
        return None

    # refinement of variables / fields by a condition
    def refine(self, e, v):
        if not v:
            return
        if isinstance(e, ast.Name):
            fid = self.find_frame(e.id)
            if fid is not None:
                self.st.frame(fid)[e.id] = v
        elif isinstance(e, ast.NamedExpr):
            self.refine(e.target, v)
        elif isinstance(e, ast.Attribute):
            b = self.peek(e.value)
            if b is not None and len(b) == 1:
                a = next(iter(b))
                if isinstance(a, Ref) and a.oid not in self.st.summ:
                    h = self.st.heap.get(a.oid)
                    if h is not None and h.kind == "inst" and e.attr in h.fields:
                        if isinstance(h.cls, ClassInfo) and self.find_prop(h.cls, e.attr):
                            return
                        h = h.copy()
                        h.fields[e.attr] = v
                        self.st.heap[a.oid] = h

    def peek(self, e):
        if isinstance(e, ast.Name):
            fid = self.find_frame(e.id)
            return self.st.frames[fid][e.id] if fid is not None else None
        if isinstance(e, ast.Attribute):
            b = self.peek(e.value)
            if b is not None and len(b) == 1:
                a = next(iter(b))
                if isinstance(a, Ref):
                    h = self.st.heap.get(a.oid)
                    if h is not None and h.kind == "inst":
                        return h.fields.get(e.attr)
        return None

    # ------------------------------------------------------------------ helpers for checks
    def reach(self, v, seen=None):
        """All storages and heap objects reachable from a value."""
        seen = seen if seen is not None else set()
        todo = list(v)
        while todo:
            a = todo.pop()
            if isinstance(a, Ref):
                if a.oid in seen:
                    continue
                seen.add(a.oid)
                h = self.st.heap.get(a.oid)
                if h is None:
                    continue
                for n, x in h.fields.items():
                    if isinstance(x, frozenset) and n != "$opt":
                        todo.extend(x)
                if h.items is not None:
                    for x in h.items.values() if isinstance(h.items, dict) else h.items:
                        todo.extend(x)
                todo.extend(h.elem)
            elif isinstance(a, Abs):
                seen |= a.stors
            elif isinstance(a, BM):
                todo.append(a.self_)
            elif isinstance(a, Ext) and a.recv is not None:
                todo.append(a.recv)
            elif isinstance(a, FnA) and a.frame is not None:
                # captured variables
                f = self.st.frames.get(a.frame)
                if f is not None and ("fr", a.frame) not in seen:
                    seen.add(("fr", a.frame))
                    names = closure_names(a.fi)
                    for n in names:
                        x = f.get(n)
                        if isinstance(x, frozenset):
                            todo.extend(x)
        return seen

    def stack_desc(self, node=None):
        out = []
        for f in self.stack:
            if f.fi is not None:
                out.append(f.fi.qual)
        return out

    def cur_func(self):
        for f in reversed(self.stack):
            if f.fi is not None:
                return f.fi
        return None


def closure_names(fi):
    r = getattr(fi.node, "_free", None)
    if r is None:
        r = {n.id for n in ast.walk(fi.node) if isinstance(n, ast.Name)}
        fi.node._free = r
    return r


class StarArgs(frozenset):
    """Marker for *args of unknown length."""

    def __new__(cls, elem):
        o = super().__new__(cls, elem)
        return o

    @property
    def elem(self):
        return frozenset(self)


def args_key(args, kwargs):
    """Arguments as seen by the recursion cut: references to containers count by identity."""
    return (tuple(args), tuple(sorted(kwargs.items(), key=lambda x: x[0])))


def is_idk(a):
    """A key standing for id(<object>)."""
    return isinstance(a, K) and isinstance(a.v, str) and a.t == "int" and a.v.startswith("id:")


def join_all(vs):
    r = E
    for v in vs:
        r = join_v(r, v)
    return r


def repr_atom(a):
    if isinstance(a, FnA):
        return "F" + a.fi.qual
    if isinstance(a, BM):
        return "B" + repr_atom(a.fn) + repr_atom(a.self_)
    if isinstance(a, ClsA):
        return "C" + a.ci.qual
    if isinstance(a, Ref):
        return "R" + str(a.oid)
    if isinstance(a, Ext):
        return "X" + a.q
    if isinstance(a, Abs):
        return "A" + a.kind + str(sorted(map(str, a.stors)))
    return str(a)
