"""Models of builtins, torch, numpy and other external code.

Unknown external calls return a fresh untracked value without facts: the analysis then knows
nothing, and rules stay quiet about it.
"""
import builtins as _b
import operator

from .prog import ClassInfo
from .vals import (
    ANY,
    BM,
    BOOL,
    BOTH,
    E,
    FALSE,
    INT,
    NONE,
    NUM,
    STR,
    TRUE,
    Abs,
    join_h,
    join_facts,
    ClsA,
    Ext,
    FnA,
    HObj,
    K,
    ModA,
    Ref,
    SuperA,
    V,
    absv,
    join_facts,
    join_v,
    k,
    kk,
)

BUILTINS = {n for n in dir(_b)} | {"WindowsError", "exit"}
DTYPES = {
    "float",
    "float16",
    "float32",
    "float64",
    "half",
    "double",
    "bfloat16",
    "int",
    "int8",
    "int16",
    "int32",
    "int64",
    "long",
    "short",
    "uint8",
    "bool",
    "complex64",
    "complex128",
}
TORCH_CONST = set()
OBJECT_ATTRS = {"__init__", "__eq__", "__hash__", "__repr__", "__str__", "__reduce__", "__reduce_ex__", "__doc__", "__module__", "__sizeof__", "__setattr__", "__getattribute__", "__delattr__"}

VIEW = {
    "view", "view_as", "t", "transpose", "permute", "unsqueeze", "squeeze", "expand", "expand_as", "narrow",
    "select", "detach", "diagonal", "movedim", "moveaxis", "swapaxes", "swapdims", "unbind", "split", "chunk",
    "as_strided", "as_subclass", "tensor_split", "unfold", "from_numpy", "numpy", "requires_grad_", "hsplit", "__array__",
    "vsplit", "detach_", "squeeze_", "unsqueeze_", "alias", "view_as_real", "share_memory_", "from_dlpack", "to_dlpack", "__array__",
    "unflatten", "_make_subclass",
}
MAYVIEW = {
    "reshape", "contiguous", "to", "type", "cpu", "cuda", "flatten", "ravel", "reshape_as", "as_tensor", "asarray",
    "type_as", "broadcast_to", "broadcast_tensors", "atleast_1d", "atleast_2d", "atleast_3d", "positive", "ascontiguousarray", "asanyarray", "conj", "resolve_conj",
}
CASTS = {"float", "double", "half", "bfloat16", "int", "long", "short", "char", "byte", "bool"}
PARTVIEW = {"narrow", "select", "diagonal", "unbind", "split", "chunk", "tensor_split", "unfold", "as_strided"}
SCALAR = {"item", "tolist"}
META = {"size", "dim", "ndimension", "numel", "nelement", "element_size", "stride", "storage_offset", "data_ptr", "is_contiguous", "get_device", "is_floating_point", "is_tensor", "is_complex", "is_nonzero", "is_cuda"}
FULLWRITE = {"copy_", "fill_", "zero_", "normal_", "uniform_", "random_", "bernoulli_", "exponential_", "geometric_", "cauchy_", "log_normal_", "set_"}
NONWRITE_ = {"requires_grad_", "share_memory_", "detach_", "squeeze_", "unsqueeze_", "retain_grad", "pin_memory"}
PAIR = {"sort", "topk", "kthvalue", "cummax", "cummin", "mode", "aminmax"}
MAYPAIR = {"max", "min", "median", "nanmedian"}
CREATE = {
    "zeros", "ones", "empty", "full", "rand", "randn", "randint", "randperm", "arange", "linspace", "eye", "tensor",
    "logspace", "normal", "bernoulli", "multinomial", "zeros_like", "ones_like", "empty_like", "full_like",
    "rand_like", "randn_like", "randint_like", "new_zeros", "new_ones", "new_full", "new_empty", "new_tensor", "array", "poisson",
}


def is_tensorish(a):
    return isinstance(a, Abs) and a.kind in ("tensor", "ndarray", "any")


# --------------------------------------------------------------------------- facts plumbing
def op_facts(it, name, args, kwargs, node):
    """Ask the domains for content and view facts of the result of an operation."""
    content, view = {}, {}
    for d in it.domains:
        r = d.op(it, name, args, kwargs, node)
        if r:
            c, w = r
            if c:
                content.update(c)
            if w:
                view.update(w)
    if name in ("copy", "clone", "deepcopy", "asarray", "array") and args and "dtk" not in content:
        f = [it.facts(a).get("dtk") for a in args[0]]
        if f and all(f):
            content = dict(content, dtk=frozenset().union(*f))
    return content, view


def mkfresh(it, node, kind, name, args, kwargs, tag=""):
    c, w = op_facts(it, name, args, kwargs, node)
    if kind in ("tensor", "ndarray", "any"):
        # results of operations on a tensor subclass are of that subclass as well
        ro = it.ro_class is not None and kind == "tensor" and bool(args) and bool(args[0]) and all(isinstance(a, Abs) and a.ro for a in args[0])
        return it.fresh(node, kind, "op" + name + tag, c, frozenset((kx, v) for kx, v in w.items() if not kx.startswith("@")), ro=ro)
    if "const" in w:
        return k(w["const"])
    f = {kx: next(iter(v)) for kx, v in c.items() if len(v) == 1}
    f.update(w)
    return absv(kind, E, False, frozenset(f.items()))


def mkview(it, node, a, name, args, kwargs, part=False, kind=None):
    c, w = op_facts(it, name, args, kwargs, node)
    view = dict(a.view) if not it.domains else {kx: v for kx, v in a.view if kx in ("part",)}
    view.update(w)
    if part:
        view["part"] = True
    return V(Abs(kind or a.kind, a.stors, a.ro, frozenset(view.items())))


# --------------------------------------------------------------------------- attributes
def abs_attr(it, a, name, node):
    if a.kind in ("tensor", "ndarray"):
        if a.ro and a.kind == "tensor" and it.ro_class is not None:
            m = it.find_method(it.ro_class, name)
            if m:
                return V(BM(FnA(m), a))
            if name in it.ro_class.attrs:
                return frozenset(BM(x, a) if isinstance(x, FnA) else x for x in it.class_const(it.ro_class, name))
        if name == "flags" and a.kind == "ndarray":
            return V(Abs("flags", a.stors, a.ro))
        if name in ("T", "mT", "H", "data", "real", "imag"):
            return mkview(it, node, a, name, [V(a)], {})
        if name == "shape":
            return shape_of(it, a, node)
        if name == "dtype":
            c, w = op_facts(it, "attr.dtype", [V(a)], {}, node)
            kinds = it.facts(a).get("dtk") if a.kind == "ndarray" else None
            if kinds:
                w = dict(w, npd=",".join(sorted(kinds)))
            if "atom" in w:
                return V(w["atom"])
            return absv("dtype", E, False, w.items())
        if name == "device":
            c, w = op_facts(it, "attr.device", [V(a)], {}, node)
            return absv("device", E, False, w.items())
        if name == "ndim":
            c, w = op_facts(it, "attr.ndim", [V(a)], {}, node)
            if "const" in w:
                return k(w["const"])
            return INT
        if name == "requires_grad" and len(a.stors) == 1 and next(iter(a.stors)) in it.trainable:
            return k(it.trainable[next(iter(a.stors))])
        if name in ("requires_grad", "is_cuda", "is_leaf", "is_sparse"):
            return BOOL
        if name == "grad":
            return ANY
        if name in ("itemsize", "nbytes", "size") and a.kind == "ndarray":
            return INT
        if name == "__class__":
            return V(Ext("torch.Tensor" if a.kind == "tensor" else "numpy.ndarray"))
        if name == "indices" or name == "values":
            return V(Ext("tensor." + name, a))
        return V(Ext("tensor." + name, a))
    if a.kind == "any":
        if name in ("shape",):
            return absv("size")
        if name == "dtype":
            c, w = op_facts(it, "attr.dtype", [V(a)], {}, node)
            return absv("any", E, False, w.items())
        if name == "device":
            c, w = op_facts(it, "attr.device", [V(a)], {}, node)
            return absv("any", E, False, w.items())
        return V(Ext("any." + name, a))
    if a.kind == "obj":
        h = it.intr.get("@obj_attr")
        if h is not None:
            r = h(it, a, name, node)
            if r is not None:
                return r
        return V(Ext("any." + name, a))
    if a.kind == "dtype" and name == "is_floating_point":
        return BOOL
    if a.kind == "device" and name == "type":
        return absv("str")
    return V(Ext(a.kind + "." + name, a))


def shape_of(it, a, node):
    c, w = op_facts(it, "attr.shape", [V(a)], {}, node)
    if "dims" in w and isinstance(w["dims"], tuple):
        return it.mk_tuple(node, [k(d) if isinstance(d, int) else absv("int", E, False, {("dim", d)}) for d in w["dims"]], tag="shape")
    return absv("size", E, False, w.items())


def set_tensor_attr(it, a, name, v, node):
    if name == "grad":
        # remembered: optimizers read the gradients of the tensors they hold
        for s in a.stors:
            it.st.glob[("grad", s)] = v


def abs_exact_items(it, a):
    for kx, v in a.view:
        if kx == "items" and isinstance(v, int):
            return None
    return None


def elem_of(it, a, node, i):
    """Element obtained by iterating / unpacking an untracked value."""
    if isinstance(a, K):
        return ANY
    if a.kind in ("tensor", "ndarray"):
        return mkview(it, node, a, "iter", [V(a)], {}, part=True)
    if a.kind == "size":
        return INT
    if a.kind == "str":
        return STR
    if a.kind == "range":
        return INT
    if a.kind == "any":
        return absv("any", a.stors, a.ro, {("part", True)} if a.stors else E)
    return ANY


def index_kind(it, idx):
    """'view' (basic indexing), 'copy' (advanced indexing) or 'maybe'."""
    res = set()

    def one(v):
        for x in v:
            if isinstance(x, K):
                res.add("copy" if isinstance(x.v, bool) else "view")
            elif isinstance(x, Ref):
                h = it.st.heap.get(x.oid)
                if h is None:
                    res.add("maybe")
                elif h.kind == "slice":
                    res.add("view")
                elif h.kind == "tuple" and h.items is not None:
                    for y in h.items:
                        one(y)
                elif h.kind == "tuple":
                    one(h.elem)
                elif h.kind in ("list",):
                    res.add("copy")
                else:
                    res.add("maybe")
            elif isinstance(x, Abs):
                if x.kind in ("int", "num"):
                    res.add("view")
                elif x.kind in ("tensor", "ndarray", "bool"):
                    res.add("copy")
                else:
                    res.add("maybe")
            else:
                res.add("maybe")

    one(idx)
    if "copy" in res:
        return "copy"
    if "maybe" in res:
        return "maybe"
    return "view"


def full_slice(it, idx):
    """Index covers everything: x[:], x[...], x[:, :]"""
    if len(idx) != 1:
        return False
    a = next(iter(idx))
    if isinstance(a, K):
        return a.v is Ellipsis
    if isinstance(a, Ref):
        h = it.st.heap.get(a.oid)
        if h is None:
            return False
        if h.kind == "slice":
            return all(len(x) == 1 and isinstance(next(iter(x)), K) and next(iter(x)).v in (None,) for x in h.items)
        if h.kind == "tuple" and h.items is not None:
            return all(full_slice(it, x) for x in h.items)
    return False


def tensor_getitem(it, a, idx, node):
    if a.kind == "size":
        h = [x for x in idx if isinstance(x, Ref)]
        if h:
            return absv("size")
        d = dict(a.view)
        kx = next(iter(idx)) if len(idx) == 1 else None
        c, w = op_facts(it, "size.getitem", [V(a), idx], {}, node)
        return absv("int", E, False, w.items())
    if a.kind == "flags":
        return k(not a.ro) if it.ro_class is not None else BOOL
    if a.kind in ("tensor", "ndarray", "any"):
        ik = index_kind(it, idx)
        if ik == "view" or ik == "maybe" or a.kind == "any":
            part = not full_slice(it, idx)
            return mkview(it, node, a, "getitem", [V(a), idx], {}, part=part or bool(dict(a.view).get("part")))
        return mkfresh(it, node, a.kind, "getitem", [V(a), idx], {})
    if a.kind == "obj":
        return ANY
    return ANY


def tensor_setitem(it, base, a, idx, v, node, aug=None):
    if not a.stors and a.kind != "tensor":
        it.note_write(a.stors, node, "setitem", v)
        return
    c, w = op_facts(it, "setitem", [V(a), idx, v] + ([k(aug)] if aug else []), {}, node)
    it.write_tensor(V(a), node, "setitem", c, strong=full_slice(it, idx) and len(base) == 1, val=v)


# --------------------------------------------------------------------------- operators
NUMK = {"int": 0, "bool": 0, "num": 1}


def _numkind(a):
    if isinstance(a, K):
        return "int" if isinstance(a.v, int) else "num" if isinstance(a.v, float) else None
    if isinstance(a, Abs) and a.kind in ("int", "bool", "num"):
        return a.kind
    return None


def binop(it, opn, a, b, node):
    if isinstance(a, Ref) or isinstance(b, Ref):
        r = seq_binop(it, opn, a, b, node)
        if r is not None:
            return r
    for x in (a, b):
        if isinstance(x, Abs) and x.kind in ("tensor", "ndarray"):
            kind = "tensor" if any(isinstance(y, Abs) and y.kind == "tensor" for y in (a, b)) else "ndarray"
            res = mkfresh(it, node, kind, opn, [V(a), V(b)], {})
            it.obs.op(it, opn, [V(a), V(b)], res, node)
            return res
    na, nb = _numkind(a), _numkind(b)
    if na and nb:
        kind = "int" if na in ("int", "bool") and nb in ("int", "bool") and opn != "truediv" else "num"
        if opn in ("and", "or", "xor") and na == "bool" and nb == "bool":
            kind = "bool"
        res = mkfresh(it, node, kind, opn, [V(a), V(b)], {})
        return res
    if isinstance(a, K) and isinstance(a.v, str) or isinstance(a, Abs) and a.kind == "str":
        return STR
    if opn == "or" and isinstance(a, Ref) and isinstance(b, Ref):
        return V(a) | V(b)
    if isinstance(a, Abs) and a.kind == "size" or isinstance(b, Abs) and b.kind == "size":
        return absv("size")
    if isinstance(a, Abs) or isinstance(b, Abs):
        res = mkfresh(it, node, "any", opn, [V(a), V(b)], {})
        it.obs.op(it, opn, [V(a), V(b)], res, node)
        return res
    return ANY


def seq_binop(it, opn, a, b, node):
    ha = it.st.heap.get(a.oid) if isinstance(a, Ref) else None
    hb = it.st.heap.get(b.oid) if isinstance(b, Ref) else None
    if opn == "add" and ha is not None and hb is not None and ha.kind in ("list", "tuple") and hb.kind in ("list", "tuple"):
        if ha.items is not None and hb.items is not None:
            return it.mk_list(node, ha.items + hb.items, tag="cat", kind=ha.kind)
        return it.mk_smash(node, ha.kind, join_v(ha.all_elems(), hb.all_elems()), tag="cat")
    if opn == "add" and ha is not None and ha.kind in ("list", "tuple") and isinstance(b, Abs):
        return it.mk_smash(node, ha.kind, join_v(ha.all_elems(), elem_of(it, b, node, None)), tag="cat")
    if opn == "add" and hb is not None and hb.kind in ("list", "tuple") and isinstance(a, Abs) and a.kind in ("size", "any"):
        return it.mk_smash(node, hb.kind, join_v(hb.all_elems(), elem_of(it, a, node, None)), tag="cat")
    if opn == "mul":
        for x, h, o in ((a, ha, b), (b, hb, a)):
            if h is not None and h.kind in ("list", "tuple"):
                if isinstance(o, K) and isinstance(o.v, int) and h.items is not None and o.v * len(h.items) <= 32:
                    return it.mk_list(node, h.items * o.v, tag="rep", kind=h.kind)
                if isinstance(o, Abs) and o.kind in ("int", "num", "any") and not o.stors or isinstance(o, K):
                    return it.mk_smash(node, h.kind, h.all_elems(), tag="rep", ne=bool(h.items))
    if ha is not None and hb is not None and ha.kind in ("set", "dict") and hb.kind in ("set", "dict"):
        if opn in ("or", "and", "sub", "xor"):
            if ha.items is not None and hb.items is not None and ha.kind == "set" and hb.kind == "set":
                ka = [next(iter(x)) for x in ha.items if len(x) == 1]
                kb = [next(iter(x)) for x in hb.items if len(x) == 1]
                if len(ka) == len(ha.items) and len(kb) == len(hb.items) and all(isinstance(x, K) for x in ka + kb):
                    sa, sb = ka, kb
                    if opn == "or":
                        r = sa + [x for x in sb if x not in sa]
                    elif opn == "and":
                        r = [x for x in sa if x in sb]
                    elif opn == "sub":
                        r = [x for x in sa if x not in sb]
                    else:
                        r = [x for x in sa if x not in sb] + [x for x in sb if x not in sa]
                    return it.mk_list(node, [V(x) for x in r], tag="setop", kind="set")
            return it.mk_smash(node, ha.kind, join_v(ha.all_elems(), hb.all_elems()), tag="setop", keys=join_v(ha.keys, hb.keys))
    return None


def inplace_binop(it, opn, a, rhs, node, n=1):
    """x op= y on a tensor-like atom: modifies the storage, returns the same handle."""
    c, w = op_facts(it, opn, [V(a), rhs], {}, node)
    it.obs.op(it, opn, [V(a), rhs], V(a), node)
    it.write_tensor(V(a), node, "augmented " + opn, c, strong=(n == 1), val=rhs)
    view = {kx: v for kx, v in a.view if kx == "part"}
    if it.domains:
        # same handle: what part of the storage it shows, and its shape, stay
        view.update((kx, v) for kx, v in w.items() if not kx.startswith("@") and kx != "dims")
        view.update((kx, v) for kx, v in a.view if kx.startswith("@") or kx == "dims")
    else:
        view = dict(a.view)
    return V(Abs(a.kind, a.stors, a.ro, frozenset(view.items())))


def unary(it, op, a, node):
    if isinstance(a, Abs):
        if a.kind in ("tensor", "ndarray", "any"):
            return mkfresh(it, node, a.kind, op, [V(a)], {})
        if a.kind in ("int", "num", "bool"):
            return mkfresh(it, node, "int" if a.kind == "bool" else a.kind, op, [V(a)], {})
    return ANY


def compare(it, name, a, b, node):
    """Elementwise comparison where at least one side is tensor-like."""
    ka = a.kind if isinstance(a, Abs) else None
    kb = b.kind if isinstance(b, Abs) else None
    kind = "tensor" if "tensor" in (ka, kb) else "ndarray" if "ndarray" in (ka, kb) else "any"
    if kind == "any" and not (isinstance(a, Abs) and a.stors or isinstance(b, Abs) and b.stors):
        r = mkfresh(it, node, "bool", name, [V(a), V(b)], {})
        return r
    res = mkfresh(it, node, kind, name, [V(a), V(b)], {})
    it.obs.op(it, name, [V(a), V(b)], res, node)
    return res


def compare_num(it, name, a, b, node):
    if it.domains:
        return mkfresh(it, node, "bool", name, [V(a), V(b)], {})
    return None


def eq_const_ext(a, b):
    c, x = (a, b) if isinstance(a, K) else (b, a)
    return False


# --------------------------------------------------------------------------- isinstance
_TRUE = {
    "tensor": {"Tensor", "Iterable", "Sized", "Hashable", "Collection", "object", "Container"},
    "ndarray": {"ndarray", "Iterable", "Sized", "object", "Collection", "Container"},
    "int": {"int", "Integral", "Real", "Number", "Rational", "object", "Hashable"},
    "num": {"Real", "Number", "object", "Hashable"},
    "bool": {"bool", "int", "Integral", "Real", "Number", "object", "Hashable"},
    "str": {"str", "Iterable", "Sequence", "object", "Sized", "Hashable", "Collection", "Container"},
    "gen": {"Generator", "object"},
    "dtype": {"dtype", "object"},
    "device": {"device", "object"},
    "size": {"Size", "tuple", "Iterable", "Sequence", "object", "Sized", "Collection"},
    "callable": {"Callable", "object"},
}
_MAYBE = {"num": {"int", "float", "Integral"}, "callable": {"Module"}}
_PYK = {
    "int": _TRUE["int"],
    "bool": _TRUE["bool"],
    "float": {"float", "Real", "Number", "object", "Hashable"},
    "str": _TRUE["str"],
    "NoneType": {"NoneType", "object", "Hashable"},
    "ellipsis": {"ellipsis", "object"},
    "bytes": {"bytes", "Iterable", "Sequence", "object"},
    "complex": {"complex", "Number", "object"},
}
_HK = {
    "list": {"list", "Iterable", "Sequence", "MutableSequence", "Sized", "Collection", "object", "Container", "Reversible"},
    "tuple": {"tuple", "Iterable", "Sequence", "Sized", "Collection", "object", "Hashable", "Container", "Reversible"},
    "dict": {"dict", "Mapping", "MutableMapping", "Iterable", "Sized", "Collection", "object", "Container"},
    "set": {"set", "Set", "MutableSet", "Iterable", "Sized", "Collection", "object", "Container"},
    "slice": {"slice", "object"},
    "partial": {"partial", "Callable", "object"},
    "vmap": {"Callable", "object"},
    "ndim": {"Callable", "object"},
    "cell": None,
}


def class_list(it, c):
    """Flatten the second argument of isinstance into ClassInfo / tail names; None if unknown."""
    out = []
    for a in c:
        if isinstance(a, ClsA):
            out.append(a.ci)
        elif isinstance(a, Ext):
            if a.q == "typing.Union" or a.q.startswith("sa."):
                return None
            out.append(a.q)
        elif isinstance(a, Ref):
            ex = it.exact_items(V(a))
            if ex is None:
                return None
            for x in ex:
                r = class_list(it, x)
                if r is None:
                    return None
                out += r
        else:
            return None
    return out


def isinstance_atom(it, a, c):
    cl = class_list(it, c)
    if cl is None:
        return None
    res = False
    for x in cl:
        r = isinstance1(it, a, x)
        if r is True:
            return True
        if r is None:
            res = None
    return res


def isinstance1(it, a, x):
    if isinstance(a, Abs) and a.kind == "any":
        t = dict(a.view).get("not")
        return None
    if isinstance(x, str):
        t = x.split(".")[-1]
        if x == "numpy.bool_":
            t = "np.bool_"
        if isinstance(a, K):
            s = _PYK.get(a.t)
            return (t in s) if s is not None else None
        if isinstance(a, Abs):
            if a.kind == "obj":
                cls = dict(a.view).get("cls")
                if cls is None:
                    return None
                return True if cls.split(".")[-1] == t else (None if t in ("object", "Module", "Iterable", "Mapping", "Callable") else False)
            if t in _TRUE.get(a.kind, ()):
                if a.kind == "gen" and x.startswith("numpy"):
                    return False
                return True
            if t in _MAYBE.get(a.kind, ()):
                return None
            return False
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is None:
                return None
            if h.kind == "inst":
                if not isinstance(h.cls, ClassInfo):
                    return None
                if t == "object":
                    return True
                for b in it.ext_bases(h.cls):
                    bt = b.split(".")[-1]
                    if bt == t:
                        return True
                    if t in {
                        "Mapping": {"Mapping", "Iterable", "Sized", "Collection"},
                        "MutableMapping": {"MutableMapping", "Mapping", "Iterable", "Sized", "Collection"},
                        "Sequence": {"Sequence", "Iterable", "Sized", "Collection"},
                        "MutableSequence": {"MutableSequence", "Sequence", "Iterable", "Sized"},
                        "Set": {"Set", "Iterable", "Sized", "Collection"},
                        "MutableSet": {"MutableSet", "Set", "Iterable", "Sized"},
                        "NamedTuple": {"tuple", "Iterable", "Sequence", "Sized"},
                        "namedtuple": {"tuple", "Iterable", "Sequence", "Sized"},
                        "Parameter": {"Tensor"},
                        "Sequential": {"Module"},
                        "RNN": {"Module"},
                        "Linear": {"Module"},
                        "OrderedDict": {"dict", "Mapping", "Iterable"},
                    }.get(bt, ()):
                        return True
                if t == "Iterable":
                    return bool(it.find_method(h.cls, "__iter__"))
                if t == "Callable":
                    return bool(it.find_method(h.cls, "__call__"))
                if t == "Sized":
                    return bool(it.find_method(h.cls, "__len__"))
                return False
            s = _HK.get(h.kind)
            if s is None:
                return None
            if t == "OrderedDict":
                return bool(h.fields.get("$ordered"))
            if t == "deque":
                return bool(h.fields.get("$deque"))
            if h.fields.get("$nd"):
                return t in _TRUE["ndarray"]
            return t in s
        if isinstance(a, (FnA, BM)):
            return t in ("Callable", "FunctionType", "MethodType", "object", "Hashable")
        if isinstance(a, ClsA):
            return t in ("type", "Callable", "object", "Type", "Hashable")
        if isinstance(a, Ext):
            if a.q.startswith("torch.") and a.q[6:] in DTYPES:
                return t in ("dtype", "object")
            if a.recv is None:
                if t == "str":
                    return False
                return None if t in ("type", "Callable", "object") else False
            if a.q.startswith("any."):
                return None
            return None if t in ("Callable", "object") else False
        return None
    # x: repo class
    if isinstance(a, Ref):
        h = it.st.heap.get(a.oid)
        if h is None:
            return None
        if h.kind == "inst" and isinstance(h.cls, ClassInfo):
            return it.subclass_of(h.cls, x)
        return None if h.kind == "cell" else False
    if isinstance(a, Abs):
        if a.kind == "tensor" and x.name == "ReadOnlyTensor":
            return a.ro
        if a.kind == "obj":
            return False if dict(a.view).get("cls") else None
        return False
    return False


def refine_isinstance(it, a, c):
    """a is untracked and the check may hold: pick the matching kind when it is unique."""
    cl = class_list(it, c)
    if isinstance(a, Abs) and a.kind in ("any", "num") and cl and len(cl) == 1 and isinstance(cl[0], str):
        t = cl[0].split(".")[-1]
        kind = {"Tensor": "tensor", "ndarray": "ndarray", "str": "str", "Real": "num", "Number": "num", "int": "int", "float": "num", "Integral": "int", "bool": "bool", "Generator": "gen"}.get(t)
        if kind == "gen" and cl[0].startswith("numpy"):
            return a
        if kind:
            return Abs(kind, a.stors if kind in ("tensor", "ndarray") else E, a.ro, a.view)
    return a


# --------------------------------------------------------------------------- base classes from outside
def ext_base_attr(it, base, a, h, name, node):
    """Attribute of an instance whose class derives from an external class."""
    t = base.split(".")[-1]
    if t in ("Mapping", "MutableMapping", "OrderedDict", "dict"):
        if name in ("keys", "values", "items", "get", "__contains__", "pop", "update", "setdefault", "clear", "popitem", "__eq__"):
            return V(Ext("mapmixin." + name, a))
        return None
    if t in ("Sequence", "MutableSequence"):
        if name in ("index", "count", "__contains__", "__iter__", "append", "extend", "reverse", "pop", "remove", "__iadd__", "__reversed__", "insert", "clear"):
            return V(Ext("seqmixin." + name, a))
        return None
    if t in ("Set", "MutableSet"):
        if name in ("isdisjoint", "add", "discard", "__le__", "__and__", "__or__", "__sub__", "__xor__", "remove", "pop", "clear"):
            return V(Ext("setmixin." + name, a))
        return None
    if t in ("NamedTuple", "namedtuple"):
        if name in ("_replace", "_asdict", "_fields", "index", "count"):
            if name == "_fields":
                return it.mk_tuple(node, [k(n) for n in it.nt_fields(h.cls)], tag="ntf")
            return V(Ext("nt." + name, a))
        return None
    if t in ("ABC", "object", "Generic", "Protocol", "Recursive"):
        return None
    if t == "Iterable" or t == "Sized" or t == "Hashable":
        return None
    if t == "RecursivePrintable":
        return None
    # other external bases (nn.Module, threading, gym wrappers ...): unknown attributes exist
    return V(Ext("extinst." + name, a))


def tensor_subclass_new(it, ci, args, kwargs, node):
    v = args[0] if args else ANY
    return frozenset(Abs("tensor", a.stors, True, a.view) if isinstance(a, Abs) else a for a in v)


# --------------------------------------------------------------------------- calls
def unknown_call(it, t, args, kwargs, node):
    it.obs.ext_call(it, "?", t, args, kwargs, node, None)
    return it.fresh(node, "any", "unk")


def call_abs(it, a, args, kwargs, node):
    """Call of an untracked value."""
    h = it.intr.get("@call_abs")
    if h is not None:
        r = h(it, a, args, kwargs, node)
        if r is not None:
            return r
    it.obs.ext_call(it, "abs()", a, args, kwargs, node, None)
    return it.fresh(node, "any", "callabs")


def call_vmap(it, t, h, args, kwargs, node):
    f = h.fields["$f"]
    h2 = it.intr.get("@vmap")
    if h2 is not None:
        r = h2(it, h, args, kwargs, node)
        if r is not None:
            return r
    it.vmaps = getattr(it, "vmaps", 0) + 1
    try:
        # a function wrapped an unknown number of times
        return it.call(f, args, kwargs, node) if it.vmaps < 12 else ANY
    finally:
        it.vmaps -= 1


def mk_ndim(it, f, ndims, kwargs, node):
    h = HObj("ndim", items=tuple(ndims))
    h.fields = {"$f": f, "$smaller": kwargs.get("allow_smaller_ndim", FALSE), "$rand": kwargs.get("randomness", k("error"))}
    return V(it.alloc(node, "ndim", h))


def call_ndim(it, t, h, args, kwargs, node):
    """Call through `expects_ndim`: scalars and arrays become tensors; extra leftmost dims are mapped over."""
    out = []
    for i, v in enumerate(args):
        nd = h.items[i] if i < len(h.items) else NONE
        if nd == NONE:
            out.append(v)
            continue
        r = E
        for a in v:
            if isinstance(a, K) and isinstance(a.v, (int, float)) or isinstance(a, Abs) and a.kind in ("num", "int", "bool"):
                r = join_v(r, mkfresh(it, node, "tensor", "as_tensor", [V(a)], {}, tag=str(i)))
            elif isinstance(a, Abs) and a.kind == "ndarray":
                r = join_v(r, V(Abs("tensor", a.stors, a.ro, a.view)))
            else:
                r = join_v(r, V(a))
        out.append(r)
    h2 = it.intr.get("@ndim")
    if h2 is not None:
        r = h2(it, h, out, kwargs, node)
        if r is not None:
            return r
    return it.call(h.fields["$f"], out, kwargs, node)


def optim_step(it, view, node):
    """step() of an optimizer of torch: modifies the parameters according to their gradients."""
    if not str(view["cls"]).startswith("torch.optim."):
        return ANY
    for s in view.get("params", ()):
        p = absv("tensor", frozenset([s]))
        g = it.st.glob.get(("grad", s))
        c = {}
        if g:
            it.inplace = True
            try:
                c, _ = op_facts(it, "optim.step", [p, g], {}, node)
            finally:
                it.inplace = False
        it.write_tensor(p, node, "optim.step", c, strong=True)
    return NONE


def call(it, t, args, kwargs, node):
    q = t.q
    key = (q, t.recv is not None)
    if t.recv is not None and q.startswith(("any.", "tensor.", "ndarray.", "num.", "int.", "bool.", "size.", "obj.", "gen.", "callable.", "dtype.", "device.", "str.", "range.", "stg.", "flags.")):
        meth = q.split(".", 1)[1]
        if meth == "step" and isinstance(t.recv, Abs) and ("cls" in dict(t.recv.view)):
            return optim_step(it, dict(t.recv.view), node)
        if q.startswith("tensor.") or (q.startswith("any.")):
            res = tensor_method(it, t.recv, meth, args, kwargs, node)
        else:
            res = scalar_method(it, t.recv, meth, args, kwargs, node)
    elif q.startswith("sa."):
        f = it.intr[q[3:]]
        res = f(it, args, kwargs, node)
    elif q.startswith("builtins."):
        f = globals().get("bi_" + q[9:])
        if f is not None:
            res = f(it, args, kwargs, node)
        elif q[9:].endswith(("Error", "Exception", "Warning", "Iteration", "Interrupt")):
            res = absv("obj", E, False, {("cls", q[9:])})
        else:
            res = ANY
    elif q.startswith("py."):
        _, kind, meth = q.split(".", 2)
        isd = "$dictof" in it.st.heap[t.recv.oid].fields
        res = container_method(it, kind, t.recv, meth, args, kwargs, node)
        if isd and meth in ("update", "pop", "setdefault", "clear", "popitem"):
            it.sync_dict(t.recv.oid)
    elif q.startswith("const."):
        res = const_method(it, t.recv, q[6:], args, kwargs, node)
    elif q.startswith("nt."):
        res = nt_method(it, t.recv, q[3:], args, kwargs, node)
    elif q.startswith("mapmixin."):
        res = map_mixin(it, t.recv, q[9:], args, kwargs, node)
    elif q.startswith("seqmixin.") or q.startswith("setmixin."):
        res = seq_mixin(it, t.recv, q[9:], args, kwargs, node)
    elif q.startswith("extinst."):
        res = extinst(it, t.recv, q[8:], args, kwargs, node)
    elif q.startswith("super."):
        res = super_call(it, t, q[6:], args, kwargs, node)
    elif q.startswith("object."):
        res = object_call(it, t, q[7:], args, kwargs, node)
    elif q.startswith("extcls."):
        if q == "extcls._make_subclass":
            res = tensor_method(it, None, "_make_subclass", args, kwargs, node) if False else frozenset(
                Abs("tensor", a.stors, True, a.view) if isinstance(a, Abs) else a for a in (args[1] if len(args) > 1 else ANY)
            )
        elif q == "extcls._make" and t.recv is not None:
            ex = it.exact_items(args[0])
            if ex is not None:
                res = it.instantiate(t.recv.ci, ex, {}, node)
            else:
                n = len(it.nt_fields(t.recv.ci))
                e = it.iter_elem(args[0], node)
                res = it.instantiate(t.recv.ci, [e] * n, {}, node)
        else:
            res = it.fresh(node, "any", "extcls")
    else:
        f = FUNCS.get(q)
        if f is not None:
            res = f(it, args, kwargs, node)
        elif q.startswith(("torch.optim.",)):
            ps = stors_of([it.iter_elem(args[0], node)]) if args else ()
            res = absv("obj", E, False, {("cls", q), ("params", tuple(sorted(ps)))})
        elif q.startswith(("torch.", "numpy.")):
            res = torch_function(it, q, args, kwargs, node)
        elif q.startswith(("math.",)):
            res = math_call(it, q, args, kwargs, node)
        elif q.startswith(("typing.", "logging.", "warnings.", "numbers.")):
            res = ANY
        elif q.startswith("ray"):
            res = ray_call(it, t, q, args, kwargs, node)
        else:
            it.unknown_calls[q] = it.unknown_calls.get(q, 0) + 1
            res = it.fresh(node, "any", "ext" + q)
    it.obs.ext_call(it, q, t.recv, args, kwargs, node, res)
    return res


def stors_of(vs):
    s = set()
    for v in vs:
        for a in v:
            if isinstance(a, Abs):
                s |= a.stors
    return s


def const_of(v):
    if v is not None and len(v) == 1:
        a = next(iter(v))
        if isinstance(a, K):
            return a
    return None


def const_val(v, default=None):
    c = const_of(v)
    return c.v if c is not None else default


# ------------------------------------------------------------ tensors
def tensor_method(it, recv, meth, args, kwargs, node):
    return tensor_op(it, meth, [V(recv)] + list(args), kwargs, node, method=True)


def torch_function(it, q, args, kwargs, node):
    name = q.split(".")[-1]
    if q in ("torch.Generator",):
        return absv("gen", E, False, {("cls", q), ("gid", getattr(node, "_sid", 0))})
    if q.startswith("torch.nn.") and name[:1].isupper():
        return absv("obj", E, False, {("cls", q)})
    if q.startswith("torch.utils") or q.startswith("torch.cuda"):
        return ANY
    if name in ("set_grad_enabled", "no_grad", "enable_grad", "manual_seed", "inference_mode", "set_num_threads", "get_num_threads", "save"):
        return absv("any")
    if name == "device":
        c, w = op_facts(it, "torch.device", args, kwargs, node)
        return absv("device", E, False, w.items())
    if q == "numpy.empty" and kwargs.get("dtype") == V(Ext("builtins.object")):
        # an array of objects: a list which passes for an array
        r = bi_list(it, [], {}, node)
        a = next(iter(r))
        h = it.st.heap[a.oid].smash().copy()
        h.fields["$nd"] = True
        h.elem = NONE
        it.st.heap[a.oid] = h
        return r
    if q == "numpy.dtype" and args and args[0] == V(Ext("builtins.object")):
        return absv("dtype", E, False, {("npd", "object")})
    if name == "dtype" or q in ("numpy.dtype",):
        return absv("obj", E, False, {("cls", "numpy.dtype")})
    if name in ("get_default_dtype", "promote_types", "result_type"):
        return absv("dtype")
    if name in ("finfo", "iinfo"):
        return absv("obj", E, False, {("cls", q)})
    if name == "Size":
        ex = it.exact_items(args[0]) if len(args) == 1 and not kwargs else None
        return absv("size") if ex is None else it.mk_tuple(node, ex, tag="shape")
    if name == "is_tensor":
        return bi_isinstance(it, [args[0], V(Ext("torch.Tensor"))], {}, node)
    if name == "issubdtype":
        return BOOL
    if name == "load":
        return it.fresh(node, "any", "load")
    if q.startswith("torch.Tensor.") and args and any(isinstance(a, Abs) for a in args[0]):
        return tensor_op(it, name, [frozenset(a for a in args[0] if isinstance(a, Abs))] + list(args[1:]), kwargs, node, method=True)
    return tensor_op(it, name, list(args), kwargs, node, numpy=q.startswith("numpy."))


def _flat_operands(it, args):
    """Tensor-like atoms among the arguments, looking into lists/tuples."""
    out = []
    for v in args:
        for a in v:
            if isinstance(a, Abs):
                out.append(a)
            elif isinstance(a, Ref):
                h = it.st.heap.get(a.oid)
                if h is not None and h.kind in ("list", "tuple"):
                    for b in h.all_elems():
                        if isinstance(b, Abs):
                            out.append(b)
    return out


def tensor_op(it, name, args, kwargs, node, method=False, numpy=False):
    recv = args[0] if args else E
    # receivers that are not tensors at all
    if method:
        a0 = next(iter(recv))
        if a0.kind == "any" and name in ("append", "extend", "update", "add", "insert", "pop", "remove", "clear", "setdefault", "popitem", "sort", "reverse", "discard", "appendleft", "popleft"):
            if name != "add" and not (name == "sort"):
                it.note_write(a0.stors, node, "method " + name, args[1] if len(args) > 1 else None)
                for s in a0.stors:
                    if s in it.st.content:
                        it.st.content[s] = {}
                return absv("any", a0.stors)
    kind = "ndarray" if numpy else "tensor"
    if method:
        ks = {a.kind for a in recv if isinstance(a, Abs)}
        if ks == {"ndarray"}:
            kind = "ndarray"
        elif ks == {"any"}:
            kind = "any"
    # in-place
    out = kwargs.get("out")
    if out is not None and out != NONE:
        c, w = op_facts(it, name, args, kwargs, node)
        it.obs.op(it, name, args, out, node)
        for a in out:
            if isinstance(a, Ref):
                h = it.st.heap.get(a.oid)
                if h is not None:
                    for b in h.all_elems():
                        it.write_tensor(V(b), node, f"{name}(out=)", None)
        it.write_tensor(frozenset(a for a in out if isinstance(a, Abs)), node, f"{name}(out=)", c, strong=True)
        return frozenset(a for a in out if not (isinstance(a, K) and a.v is None))
    if name.endswith("_") and not name.endswith("__") and name not in NONWRITE_:
        base = name[:-1]
        if name in ("vector_to_parameters",):
            pass
        it.inplace = name
        c, w = op_facts(it, base if name not in FULLWRITE else name, args, kwargs, node)
        it.inplace = None
        it.obs.op(it, name, args, recv, node)
        tv = frozenset(a for a in recv if isinstance(a, Abs))
        # elementwise in-place ops fully rewrite the handle's elements
        strong = name in FULLWRITE or base in ELEMWISE
        it.write_tensor(tv, node, name, c, strong=strong, val=args[1] if len(args) > 1 else None)
        return frozenset(Abs(a.kind, a.stors, a.ro, frozenset((kx, v) for kx, v in a.view if kx in ("part", "dims"))) if isinstance(a, Abs) else a for a in recv)
    if name in ("vector_to_parameters",):
        it.write_tensor(join_v(E, frozenset(_flat_operands(it, args[1:]))), node, name, None)
        return NONE
    if name in SCALAR:
        if name == "item":
            out_v = E
            for a in recv:
                if isinstance(a, Abs):
                    out_v = join_v(out_v, mkfresh(it, node, "num", "item", [V(a)], kwargs))
                else:
                    out_v = join_v(out_v, V(a))
            return out_v
        return it.mk_smash(node, "list", mkfresh(it, node, "num", "item", [recv], kwargs), tag="tolist")
    if name in ("untyped_storage", "storage") and method:
        return frozenset(Abs("stg", a.stors) for a in recv if isinstance(a, Abs))
    if name in META:
        if name == "size" and len(args) == 1 and not kwargs:
            r = E
            for a in recv:
                if isinstance(a, Abs):
                    r = join_v(r, shape_of(it, a, node))
            return r or absv("size")
        c, w = op_facts(it, name, args, kwargs, node)
        if "const" in w:
            return k(w["const"])
        if name.startswith("is_"):
            return BOOL
        return absv("int", E, False, w.items())
    if name == "equal" or name == "allclose":
        return mkfresh(it, node, "bool", name, args, kwargs)
    # views
    if name in VIEW or name in MAYVIEW or name in CASTS or name == "clone" and False:
        src = frozenset(a for a in recv if isinstance(a, Abs))
        if name in ("as_tensor", "asarray", "broadcast_tensors", "atleast_1d", "ascontiguousarray", "atleast_2d", "asanyarray") and not src:
            # built from python data
            res = mkfresh(it, node, kind, name, args, kwargs)
            return res
        if name in MAYVIEW and const_val(kwargs.get("copy")) is True:
            return mkfresh(it, node, kind, "clone", args, kwargs)
        if name in CASTS and cast_copies(it, name, src):
            return mkfresh(it, node, kind, name, args, kwargs)
        if name in ("as_tensor", "from_numpy") and kind != "any":
            kind = "tensor"
        if name in ("numpy", "asarray", "__array__") and (method or numpy):
            kind = "ndarray" if not (name == "asarray" and not numpy) else "tensor"
        c, w = op_facts(it, name, args, kwargs, node)
        outv = E
        for a in src:
            view = {kx: v for kx, v in a.view if kx == "part"} if it.domains else dict(a.view)
            view.update(w)
            if name in PARTVIEW:
                view["part"] = True
            ro = a.ro and name not in ("numpy", "__array__")
            if name == "as_subclass" and it.ro_class is not None:
                ro = len(args) > 1 and all(isinstance(x, ClsA) and it.subclass_of(x.ci, it.ro_class) for x in args[1])
            b = Abs(kind if a.kind != "any" or kind != "tensor" or not method else "any", a.stors, ro, frozenset(view.items()))
            outv = join_v(outv, V(b))
        if not outv:
            return mkfresh(it, node, kind, name, args, kwargs)
        if name in ("unbind", "split", "chunk", "tensor_split", "hsplit", "vsplit", "broadcast_tensors"):
            if name == "broadcast_tensors":
                return it.mk_list(node, [frozenset(Abs("tensor", a.stors, a.ro, a.view) if isinstance(a, Abs) else a for a in v) for v in args], tag="bt", kind="tuple")
            return it.mk_smash(node, "tuple", outv, tag=name, ne=True)
        it.obs.op(it, name, args, outv, node)
        return outv
    if name in PAIR or (name in MAYPAIR and _is_dim_reduce(it, args, kwargs)):
        c1, w1 = op_facts(it, name + ".values", args, kwargs, node)
        c2, w2 = op_facts(it, name + ".indices", args, kwargs, node)
        v1 = it.fresh(node, kind, "v" + name, c1, frozenset(w1.items()))
        v2 = it.fresh(node, kind, "i" + name, c2, frozenset(w2.items()))
        it.obs.op(it, name, args, v1, node)
        h = HObj("tuple", items=(v1, v2))
        h.fields["$nt"] = ("values", "indices")
        return V(it.alloc(node, "pair", h))
    if name in ("unique", "meshgrid", "where") and name != "where" or (name == "where" and len(args) == 1) or name == "nonzero" and const_val(kwargs.get("as_tuple")) is True:
        if name == "unique" and not kwargs:
            return mkfresh(it, node, kind, name, args, kwargs)
        return it.mk_smash(node, "tuple", mkfresh(it, node, kind, name, args, kwargs), tag=name, ne=True)
    if name in ("eigh", "eig", "svd", "qr", "slogdet", "std_mean", "var_mean"):
        its = []
        for i in range(3 if name == "svd" else 2):
            its.append(it.fresh(node, kind, f"{name}{i}"))
        return it.mk_tuple(node, its, tag=name)
    if name == "apply" and False:
        pass
    res = mkfresh(it, node, kind, name, args, kwargs)
    it.obs.op(it, name, args, res, node)
    return res


ELEMWISE = {
    "add", "sub", "mul", "div", "neg", "abs", "exp", "log", "sqrt", "clamp", "clamp_min", "clamp_max", "clip", "pow",
    "floor", "ceil", "round", "sigmoid", "tanh", "relu", "logical_not", "logical_and", "logical_or", "bitwise_not",
    "square", "sin", "cos", "reciprocal", "true_divide", "floor_divide", "remainder", "fmod", "multiply", "subtract", "divide", "addcmul", "addcdiv", "lerp", "nan_to_num",
}


def cast_copies(it, name, src):
    for a in src:
        f = it.facts(a).get("dtk")
        if f is None:
            return False
        target = "bool" if name == "bool" else "float" if name in ("float", "double", "half", "bfloat16") else "int"
        if target in f:
            return False
    return True


def _is_dim_reduce(it, args, kwargs):
    if "dim" in kwargs or "axis" in kwargs:
        return True
    if len(args) >= 2:
        a = args[1]
        if all((isinstance(x, K) and isinstance(x.v, int)) or (isinstance(x, Abs) and x.kind == "int") for x in a):
            return True
    return False


# ------------------------------------------------------------ scalars and constants
def scalar_method(it, recv, meth, args, kwargs, node):
    if recv.kind == "stg":
        if meth == "data_ptr" and len(recv.stors) == 1 and not (recv.stors & it.st.summ):
            return V(K("ptr:" + next(iter(recv.stors)), "int"))
        return INT
    if recv.kind == "str":
        if meth in ("split", "splitlines", "rsplit"):
            return it.mk_smash(node, "list", STR, tag="split")
        if meth in ("startswith", "endswith", "isdigit", "isidentifier"):
            return BOOL
        if meth in ("index", "find", "count"):
            return INT
        return STR
    if recv.kind in ("num", "int", "bool"):
        if meth in ("is_integer",):
            return BOOL
        if meth in ("item",):
            return V(recv)
        return NUM
    if recv.kind == "size" and meth == "numel":
        return INT
    if recv.kind == "gen":
        return V(recv) if meth == "manual_seed" else ANY
    if recv.kind == "obj":
        return it.fresh(node, "any", "objm")
    return ANY


def const_method(it, recv, meth, args, kwargs, node):
    cs = [const_of(a) for a in args]
    if isinstance(recv.v, str):
        if meth == "join":
            return STR
        if meth == "format":
            return STR
        if all(c is not None for c in cs) and not kwargs:
            try:
                r = getattr(recv.v, meth)(*[c.v for c in cs])
            except Exception:
                return STR
            if isinstance(r, (str, bool, int)):
                return k(r)
            if isinstance(r, (list, tuple)):
                return it.mk_list(node, [k(x) for x in r], tag="cm", kind=type(r).__name__)
        if meth in ("startswith", "endswith", "isdigit", "isidentifier"):
            return BOOL
        return STR
    if isinstance(recv.v, (int, float)):
        if meth in ("item",):
            return V(recv)
        return NUM
    return ANY


def math_call(it, q, args, kwargs, node):
    import math

    name = q[5:]
    cs = [const_of(a) for a in args]
    if all(c is not None for c in cs):
        try:
            return k(getattr(math, name)(*[c.v for c in cs]))
        except Exception:
            return NUM
    if name in ("isnan", "isinf", "isfinite"):
        return BOOL
    if name in ("floor", "ceil"):
        return mkfresh(it, node, "int", name, args, kwargs)
    return mkfresh(it, node, "num", name, args, kwargs)


# ------------------------------------------------------------ containers
def container_method(it, kind, recv, meth, args, kwargs, node):
    h = it.st.heap[recv.oid]
    st = it.st
    single = recv.oid not in st.summ

    def wr(h2, how):
        it.note_write([recv.oid], node, how, args[0] if args else None)
        it.st.heap[recv.oid] = h2

    if kind in ("list", "tuple", "set", "cell"):
        if h.fields.get("$nt") and meth in h.fields["$nt"]:
            return ANY
        if meth in ("append", "add", "appendleft"):
            h2 = h.copy()
            if h2.items is not None and single and len(h2.items) < 64:
                if meth == "add" and any(args[0] == x for x in h2.items):
                    pass
                elif meth == "appendleft":
                    h2.items = (args[0],) + h2.items
                else:
                    h2.items = h2.items + (args[0],)
            else:
                h2 = h.smash().copy()
                h2.elem = join_v(h2.elem, args[0])
                h2.fields["$ne"] = True
            wr(h2, meth)
            return NONE
        if meth in ("extend", "update"):
            ex = it.exact_items(args[0]) if args else []
            h = it.st.heap[recv.oid]
            h2 = h.copy()
            if h2.items is not None and ex is not None and single and len(h2.items) + len(ex) < 64:
                h2.items = h2.items + tuple(ex)
            else:
                e = it.iter_elem(args[0], node)
                h2 = it.st.heap[recv.oid].smash().copy()
                h2.elem = join_v(h2.elem, e)
                if ex:
                    h2.fields["$ne"] = True
            wr(h2, meth)
            return NONE
        if meth == "insert":
            at = const_val(args[0]) if args else None
            if h.items is not None and single and len(h.items) < 64 and isinstance(at, int):
                h2 = h.copy()
                i = max(0, at + len(h.items)) if at < 0 else at
                h2.items = h.items[:i] + (args[1],) + h.items[i:]
                wr(h2, meth)
                return NONE
            h2 = h.smash().copy()
            h2.elem = join_v(h2.elem, args[1])
            wr(h2, meth)
            return NONE
        if meth in ("pop", "popleft", "remove", "discard", "clear"):
            it.note_write([recv.oid], node, meth)
            if meth == "clear":
                if single:
                    it.st.heap[recv.oid] = HObj(h.kind, items=(), fields={n: v for n, v in h.fields.items() if n != "$ne"})
                return NONE
            if h.items is not None and single and h.items and meth in ("pop", "popleft"):
                i = -1 if meth == "pop" else 0
                if args:
                    i = const_val(args[0])
                if isinstance(i, int) and -len(h.items) <= i < len(h.items):
                    h2 = h.copy()
                    its = list(h2.items)
                    r = its.pop(i)
                    h2.items = tuple(its)
                    it.st.heap[recv.oid] = h2
                    return r
            e = h.all_elems()
            if meth in ("pop", "popleft"):
                it.st.heap[recv.oid] = h.smash()
                return e or ANY
            if h.items is not None and args and single:
                its = [x for x in h.items if x != args[0]]
                h2 = h.copy()
                h2.items = tuple(its)
                it.st.heap[recv.oid] = h2
            return NONE
        if meth in ("sort", "reverse"):
            it.note_write([recv.oid], node, meth)
            if meth == "reverse" and h.items is not None:
                h2 = h.copy()
                h2.items = tuple(reversed(h2.items))
                it.st.heap[recv.oid] = h2
            else:
                it.st.heap[recv.oid] = h.smash()
            return NONE
        if meth == "copy":
            return V(it.alloc(node, "lcopy", h.copy()))
        if meth in ("index", "count"):
            if meth == "index" and h.items is not None:
                c = const_of(args[0])
                if c is not None:
                    for i, x in enumerate(h.items):
                        if x == args[0]:
                            return k(i)
            return INT
        if meth in ("union", "intersection", "difference", "symmetric_difference"):
            e = h.all_elems()
            for v in args:
                e = join_v(e, it.iter_elem(v, node))
            opn = {"union": "or", "intersection": "and", "difference": "sub", "symmetric_difference": "xor"}[meth]
            if len(args) == 1 and len(args[0]) == 1:
                r = seq_binop(it, opn, recv, next(iter(args[0])), node)
                if r is not None:
                    return r
            return it.mk_smash(node, "set", e, tag="setop")
        if meth in ("issubset", "issuperset", "isdisjoint"):
            return BOOL
        if meth == "__iter__":
            return V(recv)
        if meth in ("__next__",):
            return h.all_elems() or ANY
        if meth in ("close", "send"):
            return NONE
        return ANY
    if kind == "dict":
        if meth == "get":
            d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            ks = args[0]
            r = E
            if h.items is not None and all(it.is_key(x) for x in ks):
                for x in ks:
                    if x in h.items:
                        r = join_v(r, h.items[x])
                        if h.fields.get("$opt") and x in h.fields["$opt"]:
                            r = join_v(r, d)
                    else:
                        r = join_v(r, join_v(h.elem, d))
                return r
            return join_v(h.all_elems(), d)
        if meth in ("pop", "setdefault"):
            d = args[1] if len(args) > 1 else None
            ks = args[0]
            it.note_write([recv.oid], node, meth)
            c = next(iter(ks)) if len(ks) == 1 else None
            if h.items is not None and it.is_key(c) and single:
                h2 = h.copy()
                if meth == "pop":
                    if c in h2.items:
                        r = h2.items.pop(c)
                        if h.fields.get("$opt") and c in h.fields["$opt"]:
                            r = join_v(r, d or E)
                        it.st.heap[recv.oid] = h2
                        return r
                    r = join_v(h.elem, d or E)
                    return r
                if c in h2.items:
                    return h2.items[c]
                h2.items[c] = d or NONE
                it.st.heap[recv.oid] = h2
                return d or NONE
            r = join_v(h.all_elems(), d or E)
            if meth == "setdefault":
                h2 = h.smash().copy()
                h2.elem = join_v(h2.elem, d or NONE)
                h2.keys = join_v(h2.keys, ks)
                it.st.heap[recv.oid] = h2
            return r or ANY
        if meth == "update":
            srcs = list(args)
            h2 = h.copy()
            for v in srcs:
                for a in v:
                    if isinstance(a, Ref) and it.st.heap[a.oid].kind == "dict":
                        hs = it.st.heap[a.oid]
                        if hs.items is not None:
                            opt = hs.fields.get("$opt") or ()
                            if h2.items is None:
                                for q2, w in hs.items.items():
                                    h2.elem = join_v(h2.elem, w)
                                    h2.keys = join_v(h2.keys, V(q2))
                            else:
                                for q2, w in hs.items.items():
                                    if single and len(v) == 1 and q2 not in opt:
                                        h2.items[q2] = w
                                    else:
                                        h2.items[q2] = join_v(h2.items.get(q2, E), w)
                        h2.elem = join_v(h2.elem, hs.elem)
                        h2.keys = join_v(h2.keys, hs.keys)
                    elif isinstance(a, Ref) and it.st.heap[a.oid].kind == "inst":
                        ex = it.exact_items(V(a)) if h2.items is not None and single and len(v) == 1 else None
                        if ex is not None and len(ex) <= 48 and all(len(x) == 1 and isinstance(next(iter(x)), K) for x in ex):
                            try:
                                vals = [it.getitem(V(a), x, node) for x in ex]
                            except Exception as exc:
                                if type(exc).__name__ != "Dead":
                                    raise
                                vals = None
                            if vals is not None:
                                for x, w in zip(ex, vals):
                                    h2.items[next(iter(x))] = w
                                continue
                        e = it.iter_elem(V(a), node)
                        try:
                            val = it.getitem(V(a), e or ANY, node)
                        except Exception as ex:
                            if type(ex).__name__ != "Dead":
                                raise
                            val = ANY
                        h2.elem = join_v(h2.elem, val)
                        h2.keys = join_v(h2.keys, e)
                    else:
                        if isinstance(a, Abs):
                            h2.elem = join_v(h2.elem, elem_of(it, a, node, None))
                            h2.keys = join_v(h2.keys, ANY)
                        elif isinstance(a, Ref):
                            # iterable of pairs
                            ex = it.exact_items(V(a)) if h2.items is not None and single and len(v) == 1 else None
                            prs = [it.exact_items(x) for x in ex] if ex is not None else None
                            if prs is not None and all(x is not None and len(x) == 2 and len(x[0]) == 1 and isinstance(next(iter(x[0])), K) for x in prs):
                                for x, w in prs:
                                    h2.items[next(iter(x))] = w
                                continue
                            e = it.iter_elem(V(a), node)
                            kv = it.unpack_elem(e, 0, node) if e else E
                            vv = it.unpack_elem(e, 1, node) if e else E
                            h2.elem = join_v(h2.elem, vv)
                            h2.keys = join_v(h2.keys, kv)
            for n, v in kwargs.items():
                if n == "**":
                    h2.elem = join_v(h2.elem, v)
                elif h2.items is not None:
                    h2.items[kk(n)] = v
                else:
                    h2.elem = join_v(h2.elem, v)
            wr(h2, meth)
            return NONE
        if meth in ("keys", "__iter__"):
            if h.items is not None and not h.elem and not h.fields.get("$opt"):
                return it.mk_list(node, [V(x) for x in h.items], tag="keys")
            r = h.keys
            for x in h.items or ():
                r = join_v(r, V(x))
            return it.mk_smash(node, "list", r, tag="keys")
        if meth == "values":
            if h.items is not None and not h.elem and not h.fields.get("$opt"):
                return it.mk_list(node, list(h.items.values()), tag="values")
            return it.mk_smash(node, "list", h.all_elems(), tag="values")
        if meth == "items":
            if h.items is not None and not h.elem and not h.fields.get("$opt"):
                prs = [it.mk_tuple(node, [V(x), v], tag="it" + str(i)) for i, (x, v) in enumerate(h.items.items())]
                return it.mk_list(node, prs, tag="items")
            r = h.keys
            for x in h.items or ():
                r = join_v(r, V(x))
            return it.mk_smash(node, "list", it.mk_tuple(node, [r or ANY, h.all_elems() or ANY], tag="itx"), tag="items")
        if meth == "copy":
            h2 = h.copy()
            h2.fields.pop("$dictof", None)
            return V(it.alloc(node, "dcopy", h2))
        if meth in ("clear", "popitem"):
            it.note_write([recv.oid], node, meth)
            if meth == "clear" and single:
                it.st.heap[recv.oid] = HObj("dict", items={}, fields={n: v for n, v in h.fields.items() if n not in ("$ne", "$opt")})
                return NONE
            return ANY
        if meth == "fromkeys":
            return it.mk_smash(node, "dict", args[1] if len(args) > 1 else NONE, keys=it.iter_elem(args[0], node))
        if meth in ("move_to_end",):
            it.note_write([recv.oid], node, meth)
            return NONE
        return ANY
    return ANY


def map_mixin(it, recv, meth, args, kwargs, node):
    """collections.abc.Mapping mixin methods in terms of the class's own protocol."""
    v = V(recv)
    if meth == "get":
        d = args[1] if len(args) > 1 else NONE
        base = it.st.copy()
        try:
            r = it.getitem(v, args[0], node)
        except Exception as ex:
            if type(ex).__name__ != "Dead":
                raise
            it.st = base
            return d
        # whether the key is there is taken from the class's own test, when that decides it
        h = it.st.heap.get(recv.oid)
        m = it.find_method(h.cls, "__contains__") if h is not None and isinstance(h.cls, ClassInfo) else None
        if m is not None and it.call(V(BM(FnA(m), recv)), [args[0]], {}, node) == TRUE:
            return r
        return join_v(r, d)
    if meth in ("keys", "__iter__"):
        ex = it.exact_items(v)
        if ex is not None:
            return it.mk_list(node, ex, tag="mk")
        return it.mk_smash(node, "list", it.iter_elem(v, node) or ANY, tag="mk")
    if meth in ("values", "items"):
        ex = it.exact_items(v)
        if ex is not None:
            out = []
            for i, kx in enumerate(ex):
                val = it.getitem(v, kx, node)
                out.append(val if meth == "values" else it.mk_tuple(node, [kx, val], tag=f"mi{i}"))
            return it.mk_list(node, out, tag="mv")
        kv = it.iter_elem(v, node) or ANY
        val = it.getitem(v, kv, node)
        return it.mk_smash(node, "list", val if meth == "values" else it.mk_tuple(node, [kv, val], tag="mi"), tag="mv")
    if meth == "update":
        for x in args:
            for a in x:
                if isinstance(a, Ref) and it.st.heap[a.oid].kind == "dict":
                    h = it.st.heap[a.oid]
                    for q, w in list((h.items or {}).items()):
                        it.setitem(v, V(q), w, node)
                    if h.elem:
                        it.setitem(v, h.keys or ANY, h.elem, node)
                else:
                    it.setitem(v, ANY, ANY, node)
        for n, w in kwargs.items():
            it.setitem(v, k(n), w, node)
        return NONE
    if meth == "__contains__":
        return BOOL
    if meth in ("pop", "setdefault", "clear", "popitem"):
        m = it.find_method(it.st.heap[recv.oid].cls, "__delitem__")
        if m is not None and meth != "setdefault":
            it.call(V(BM(FnA(m), recv)), [args[0] if args else ANY], {}, node)
        return ANY
    return ANY


def seq_mixin(it, recv, meth, args, kwargs, node):
    v = V(recv)
    if meth in ("append", "extend", "__iadd__") and isinstance(recv, Ref) and isinstance(it.st.heap[recv.oid].cls, ClassInfo) and it.find_method(it.st.heap[recv.oid].cls, "insert"):
        new = [args[0]] if meth == "append" else it.exact_items(args[0])
        if new is None:
            new = [it.iter_elem(args[0], node) or ANY]
        for x in new:
            n = it.call(it.getattr(v, "__len__", node), [], {}, node)
            it.call(it.getattr(v, "insert", node), [n, x], {}, node)
        return v if meth == "__iadd__" else NONE
    if meth in ("append", "extend", "insert", "reverse", "pop", "remove", "add", "discard", "clear"):
        it.note_write([recv.oid], node, meth)
    if meth in ("__contains__", "isdisjoint"):
        return BOOL
    if meth in ("index", "count"):
        return INT
    return ANY


def nt_method(it, recv, meth, args, kwargs, node):
    h = it.st.heap[recv.oid]
    if meth == "_replace":
        f = dict(h.fields)
        for n, v in kwargs.items():
            if n == "**":
                f = {x: join_v(w, v) for x, w in f.items()}
                continue
            if n not in it.nt_fields(h.cls):
                it.obs.error(it, "arity", node, f"_replace: no field {n}")
            f[n] = v
        return V(it.alloc(node, "inst:" + h.cls.qual, HObj("inst", h.cls, f)))
    if meth == "_asdict":
        return it.mk_dict(node, {kk(n): h.fields.get(n, ANY) for n in it.nt_fields(h.cls)}, tag="asdict")
    return INT


def inst_dict(it, recv, meth, args, kwargs, node):
    h = it.st.heap[recv.oid]
    fields = {n: v for n, v in h.fields.items() if n[:1] != "$"}
    if meth == "update":
        it.note_write([recv.oid], node, "__dict__.update")
        h2 = h.copy()
        for v in args:
            for a in v:
                if isinstance(a, Ref) and it.st.heap[a.oid].kind == "dict":
                    hs = it.st.heap[a.oid]
                    for q, w in (hs.items or {}).items():
                        if isinstance(q, K):
                            h2.fields[q.v] = w
                    if hs.elem:
                        h2.open = True
                        h2.fields["$rest"] = join_v(h2.fields.get("$rest", E), hs.elem)
                else:
                    h2.open = True
        it.st.heap[recv.oid] = h2
        return NONE
    if meth in ("items", "keys", "values", "copy", "get", "pop", "__iter__"):
        d = it.mk_dict(node, {kk(n): v for n, v in fields.items()}, tag="idict")
        if meth == "copy":
            return d
        a = next(iter(d))
        if meth == "pop":
            it.note_write([recv.oid], node, "__dict__.pop")
        return container_method(it, "dict", a, meth, args, kwargs, node)
    return ANY


def extinst(it, recv, meth, args, kwargs, node):
    """Method inherited from an external base class."""
    h = it.st.heap.get(recv.oid)
    if meth in ("parameters", "named_parameters", "buffers", "modules", "children", "named_children", "named_modules", "state_dict"):
        return ANY
    if meth == "register_buffer" and args:
        c = const_val(args[0])
        if isinstance(c, str):
            it.raw_setattr(V(recv), recv, c, args[1] if len(args) > 1 else kwargs.get("tensor", ANY), node)
        return NONE
    if meth in ("to", "eval", "train", "cpu", "cuda", "requires_grad_", "float", "double"):
        return V(recv)
    return it.fresh(node, "any", "xi" + meth)


def super_call(it, t, rest, args, kwargs, node):
    meth, _, base = rest.partition("@")
    recv = t.recv
    if meth == "__init__":
        return NONE
    if meth == "__new__":
        return object_call(it, t, "__new__", args, kwargs, node)
    if meth == "__setattr__" and isinstance(recv, Ref):
        c = const_val(args[0])
        if isinstance(c, str):
            it.raw_setattr(V(recv), recv, c, args[1], node)
        return NONE
    if meth == "__getattribute__" and isinstance(recv, Ref):
        return ANY
    if meth == "register_buffer" and isinstance(recv, Ref):
        return extinst(it, recv, meth, args, kwargs, node)
    if meth in ("__torch_function__",):
        return ANY
    if meth in ("__getstate__",):
        return inst_dict(it, recv, "copy", [], {}, node)
    if isinstance(recv, Ref):
        h = it.st.heap.get(recv.oid)
        tb = base.split(".")[-1]
        if tb in ("Mapping", "MutableMapping"):
            return map_mixin(it, recv, meth, args, kwargs, node)
        if tb in ("NamedTuple",):
            return nt_method(it, recv, meth, args, kwargs, node)
    if isinstance(recv, Abs):
        if meth == "__getitem__":
            return tensor_getitem(it, recv, args[0], node)
        if meth == "__getattribute__":
            return ANY
        return tensor_method(it, recv, meth, args, kwargs, node)
    return it.fresh(node, "any", "sup" + meth)


def object_call(it, t, meth, args, kwargs, node):
    if meth == "__new__":
        c = args[0] if args else E
        out = E
        for a in c:
            if isinstance(a, ClsA):
                h = HObj("inst", a.ci, {})
                out = join_v(out, V(it.alloc(node, "inst:" + a.ci.qual, h)))
            else:
                out = join_v(out, ANY)
        return out or ANY
    if meth == "__setattr__":
        if t.recv is not None:
            args = [V(t.recv)] + list(args)
        c = const_val(args[1])
        if isinstance(c, str):
            for a in args[0]:
                if isinstance(a, Ref):
                    it.raw_setattr(args[0], a, c, args[2], node)
        return NONE
    if meth in ("__repr__", "__str__"):
        return STR
    if meth == "__init__":
        return NONE
    return ANY


# ------------------------------------------------------------ builtins
def bi_isinstance(it, args, kwargs, node):
    r = E
    for a in args[0]:
        x = isinstance_atom(it, a, args[1])
        r |= TRUE if x is True else FALSE if x is False else BOTH
    return r


def bi_issubclass(it, args, kwargs, node):
    r = E
    cl = class_list(it, args[1])
    for a in args[0]:
        if cl is None or not isinstance(a, ClsA):
            r |= BOTH
        else:
            r |= TRUE if any(x in it.mro(a.ci) for x in cl) else FALSE
    return r


def bi_len(it, args, kwargs, node):
    r = E
    for a in args[0]:
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is None:
                r = join_v(r, INT)
            elif h.kind == "inst":
                m = it.find_method(h.cls, "__len__") if h.cls else None
                if m:
                    r = join_v(r, it.call(V(BM(FnA(m), a)), [], {}, node))
                elif isinstance(h.cls, ClassInfo) and it.is_namedtuple(h.cls):
                    r = join_v(r, k(len(it.nt_fields(h.cls))))
                else:
                    r = join_v(r, INT)
            elif h.items is not None and not h.elem and not h.fields.get("$opt"):
                r = join_v(r, k(len(h.items)))
            else:
                r = join_v(r, INT)
        elif isinstance(a, K):
            try:
                r = join_v(r, k(len(a.v)))
            except TypeError:
                continue
        elif isinstance(a, Abs):
            c, w = op_facts(it, "len", [V(a)], {}, node)
            r = join_v(r, k(w["const"]) if "const" in w else absv("int", E, False, w.items()))
        else:
            r = join_v(r, INT)
    return r


def bi_range(it, args, kwargs, node):
    cs = [const_of(a) for a in args]
    if all(c is not None and isinstance(c.v, int) for c in cs):
        rg = range(*[c.v for c in cs])
        if len(rg) <= 24:
            return it.mk_list(node, [k(i) for i in rg], tag="range")
    c, w = op_facts(it, "range", args, kwargs, node)
    return it.mk_smash(node, "list", absv("int", E, False, w.items()), tag="range", ne=True)


def bi_enumerate(it, args, kwargs, node):
    ex = it.exact_items(args[0])
    start = const_val(args[1] if len(args) > 1 else kwargs.get("start"), 0)
    if ex is not None and isinstance(start, int):
        return it.mk_list(node, [it.mk_tuple(node, [k(i + start), v], tag=f"en{i}") for i, v in enumerate(ex)], tag="enum")
    e = it.iter_elem(args[0], node)
    c, w = op_facts(it, "enumerate", args, kwargs, node)
    return it.mk_smash(node, "list", it.mk_tuple(node, [absv("int", E, False, w.items()), e or ANY], tag="en"), tag="enum", ne=True)


def bi_zip(it, args, kwargs, node):
    exs = [it.exact_items(a) for a in args]
    if args and all(e is not None for e in exs):
        n = min(len(e) for e in exs)
        return it.mk_list(node, [it.mk_tuple(node, [e[i] for e in exs], tag=f"zp{i}") for i in range(n)], tag="zip")
    its = [it.iter_elem(a, node) or ANY for a in args]
    return it.mk_smash(node, "list", it.mk_tuple(node, its, tag="zp"), tag="zip", ne=True)


def bi_map(it, args, kwargs, node):
    exs = [it.exact_items(a) for a in args[1:]]
    if all(e is not None for e in exs) and exs:
        n = min(len(e) for e in exs)
        return it.mk_list(node, [it.call(args[0], [e[i] for e in exs], {}, node) for i in range(n)], tag="map")
    its = [it.iter_elem(a, node) or ANY for a in args[1:]]
    return it.mk_smash(node, "list", it.call(args[0], its, {}, node), tag="map", ne=True)


def bi_filter(it, args, kwargs, node):
    ex = it.exact_items(args[1]) if len(args) > 1 and args[0] != NONE else None
    if ex is not None and len(ex) <= 64:
        ks = [const_of(it.call(args[0], [x], {}, node)) for x in ex]
        if all(c is not None for c in ks):
            return it.mk_list(node, [x for x, c in zip(ex, ks) if c.v], tag="filter")
    e = it.iter_elem(args[1], node) or ANY
    if args[0] != NONE:
        it.call(args[0], [e], {}, node)
    return it.mk_smash(node, "list", e, tag="filter")


def bi_reversed(it, args, kwargs, node):
    ex = it.exact_items(args[0])
    if ex is not None:
        return it.mk_list(node, list(reversed(ex)), tag="rev")
    return it.mk_smash(node, "list", it.iter_elem(args[0], node) or ANY, tag="rev", ne=True)


def bi_sorted(it, args, kwargs, node):
    ex = it.exact_items(args[0])
    if ex is not None and not kwargs:
        cs = [const_of(x) for x in ex]
        if all(c is not None for c in cs):
            try:
                return it.mk_list(node, [k(c) for c in sorted(c.v for c in cs)], tag="sorted")
            except Exception:
                pass
    if ex is not None and set(kwargs) <= {"key", "reverse"} and len(ex) <= 64:
        ks = [const_of(it.call(kwargs["key"], [x], {}, node) if "key" in kwargs else (it.exact_items(x) or [x])[0]) for x in ex]
        rev = const_of(kwargs["reverse"]) if "reverse" in kwargs else k(False)
        # pairs are ordered by their first items, when those differ
        if all(c is not None for c in ks) and rev is not None and ("key" in kwargs or len({c.v for c in ks}) == len(ks)):
            try:
                order = sorted(range(len(ex)), key=lambda j: ks[j].v, reverse=bool(getattr(rev, "v", False)))
                return it.mk_list(node, [ex[j] for j in order], tag="sorted")
            except Exception:
                pass
    e = it.iter_elem(args[0], node) or ANY
    if "key" in kwargs:
        it.call(kwargs["key"], [e], {}, node)
    return it.mk_smash(node, "list", e, tag="sorted")


def _mkseq(kind):
    def f(it, args, kwargs, node):
        if not args:
            return it.mk_list(node, [], tag="new" + kind, kind=kind)
        ex = it.exact_items(args[0])
        if ex is not None:
            if kind == "set":
                out = []
                for x in ex:
                    if x not in out:
                        out.append(x)
                ex = out
            return it.mk_list(node, ex, tag="new" + kind, kind=kind)
        if kind == "tuple" and all(isinstance(a, Abs) and a.kind == "size" for a in args[0]):
            return args[0]
        return it.mk_smash(node, kind, it.iter_elem(args[0], node) or ANY, tag="new" + kind)

    return f


bi_list = _mkseq("list")
bi_tuple = _mkseq("tuple")
bi_set = _mkseq("set")
bi_frozenset = _mkseq("set")


def bi_dict(it, args, kwargs, node):
    d = it.mk_dict(node, {}, tag="newdict")
    a = next(iter(d))
    if args or kwargs:
        container_method(it, "dict", a, "update", args, kwargs, node)
    return d


def bi_iter(it, args, kwargs, node):
    out = E
    for a in args[0]:
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is not None and h.kind == "inst":
                m = it.find_method(h.cls, "__iter__") if h.cls else None
                if m:
                    out = join_v(out, it.call(V(BM(FnA(m), a)), [], {}, node))
                    continue
                out = join_v(out, it.mk_smash(node, "list", it.iter_elem(V(a), node), tag="iter"))
                continue
        out = join_v(out, V(a))
    return out


def bi_next(it, args, kwargs, node):
    out = args[1] if len(args) > 1 else E
    for a in args[0]:
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is not None and h.kind == "inst":
                m = it.find_method(h.cls, "__next__") if h.cls else None
                if m:
                    out = join_v(out, it.call(V(BM(FnA(m), a)), [], {}, node))
                    continue
        out = join_v(out, it.iter_elem(V(a), node))
    return out or ANY


def _minmax(name):
    def f(it, args, kwargs, node):
        if len(args) == 1:
            ex = it.exact_items(args[0]) if "key" not in kwargs else None
            cs = [const_of(a) for a in ex or ()]
            if cs and all(c is not None and isinstance(c.v, (int, float)) for c in cs):
                return k((min if name == "min" else max)(c.v for c in cs))
            e = it.iter_elem(args[0], node) or ANY
        else:
            e = E
            for a in args:
                e = join_v(e, a)
            cs = [const_of(a) for a in args]
            if all(c is not None for c in cs) and "key" not in kwargs:
                try:
                    return k((min if name == "min" else max)(*[c.v for c in cs]))
                except Exception:
                    pass
        if "key" in kwargs:
            it.call(kwargs["key"], [e], {}, node)
        if len(args) > 1 and all(_numkind(x) for x in e):
            return mkfresh(it, node, "num" if any(_numkind(x) == "num" for x in e) else "int", "py" + name, args, kwargs)
        return e

    return f


bi_min = _minmax("min")
bi_max = _minmax("max")


def bi_sum(it, args, kwargs, node):
    e = it.iter_elem(args[0], node)
    if any(isinstance(a, Abs) and a.kind == "tensor" for a in e):
        return mkfresh(it, node, "tensor", "pysum", [e], kwargs)
    return mkfresh(it, node, "num", "pysum", [e or NUM], kwargs)


def bi_abs(it, args, kwargs, node):
    r = E
    for a in args[0]:
        if isinstance(a, K):
            try:
                r = join_v(r, k(abs(a.v)))
            except Exception:
                continue
        elif isinstance(a, Abs):
            r = join_v(r, mkfresh(it, node, a.kind, "abs", [V(a)], {}))
        else:
            r = join_v(r, ANY)
    return r


def bi_round(it, args, kwargs, node):
    return mkfresh(it, node, "num", "round", args, kwargs)


def bi_any(it, args, kwargs, node):
    ex = it.exact_items(args[0])
    if ex is not None:
        t = f = False
        alltrue = None
        res = FALSE
        may = False
        for x in ex:
            a, b = it.truth_set(x)
            if a and not b:
                return TRUE
            if a:
                may = True
        return BOTH if may else FALSE
    return BOOL


def bi_all(it, args, kwargs, node):
    ex = it.exact_items(args[0])
    if ex is not None:
        may = False
        for x in ex:
            a, b = it.truth_set(x)
            if b and not a:
                return FALSE
            if b:
                may = True
        return BOTH if may else TRUE
    return BOOL


def _conv(kind, pyf):
    def f(it, args, kwargs, node):
        if not args:
            return k(pyf())
        r = E
        for a in args[0]:
            if isinstance(a, K):
                try:
                    r = join_v(r, k(pyf(a.v)))
                except Exception:
                    it.record_raise()
                    continue
            elif isinstance(a, Abs):
                if kind in ("int", "num"):
                    r = join_v(r, mkfresh(it, node, kind, "item", [V(a)], {}))
                elif kind == "bool":
                    t = it.truth(a)
                    r = join_v(r, k(t) if t is not None else mkfresh(it, node, "bool", "pybool", [V(a)], {}))
                else:
                    r = join_v(r, absv(kind))
            elif kind == "bool":
                t = it.truth_set(V(a))
                r = join_v(r, (TRUE if t[0] else E) | (FALSE if t[1] else E))
            elif isinstance(a, Ref) and kind == "str":
                r = join_v(r, STR)
            elif isinstance(a, Ref):
                h = it.st.heap.get(a.oid)
                m = it.find_method(h.cls, "__" + {"int": "int", "num": "float"}[kind] + "__") if h is not None and h.kind == "inst" and h.cls and kind in ("int", "num") else None
                r = join_v(r, it.call(V(BM(FnA(m), a)), [], {}, node) if m else absv(kind))
            else:
                r = join_v(r, absv(kind))
        return r

    return f


bi_int = _conv("int", int)
bi_float = _conv("num", float)
bi_bool = _conv("bool", bool)


def bi_str(it, args, kwargs, node):
    c = const_of(args[0]) if args else None
    if c is not None:
        return k(str(c.v))
    if args and len(args[0]) == 1:
        a = next(iter(args[0]))
        if isinstance(a, Ext) and a.recv is None and a.q.startswith("torch.") and a.q[6:] in DTYPES:
            return k({"torch.float": "torch.float32", "torch.double": "torch.float64", "torch.half": "torch.float16", "torch.int": "torch.int32", "torch.long": "torch.int64", "torch.short": "torch.int16"}.get(a.q, a.q))
    return STR


def bi_repr(it, args, kwargs, node):
    return STR


bi_format = bi_ascii = bi_chr = bi_hex = bi_repr


def bi_id(it, args, kwargs, node):
    v = args[0]
    out = []
    for a in v:
        if isinstance(a, Ref) and a.oid not in it.st.summ or isinstance(a, (FnA, ClsA)) or isinstance(a, Abs) and a.stors and not (a.stors & it.st.summ):
            out.append(K("id:" + repr(a), "int"))
        else:
            out.append(K("id:*", "int"))  # a constant or one of several objects: never found among the keys of an id-keyed memo
    return frozenset(out)


def bi_hash(it, args, kwargs, node):
    return INT


bi_ord = bi_hash


def bi_print(it, args, kwargs, node):
    return NONE


def bi_callable(it, args, kwargs, node):
    r = E
    for a in args[0]:
        if isinstance(a, (FnA, BM, ClsA, Ext)):
            r |= TRUE
        elif isinstance(a, K):
            r |= FALSE
        elif isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is None:
                r |= BOTH
            elif h.kind in ("partial", "vmap", "ndim"):
                r |= TRUE
            elif h.kind == "inst":
                r |= TRUE if it.find_method(h.cls, "__call__") else (BOTH if it.ext_bases(h.cls) else FALSE)
            else:
                r |= FALSE
        elif isinstance(a, Abs):
            r |= TRUE if a.kind == "callable" else BOTH if a.kind in ("any", "obj") else FALSE
        else:
            r |= BOTH
    return r


def bi_type(it, args, kwargs, node):
    r = E
    for a in args[0]:
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is not None and h.kind == "inst" and isinstance(h.cls, ClassInfo):
                r = join_v(r, V(ClsA(h.cls)))
            elif h is not None and h.kind != "inst":
                r = join_v(r, V(Ext("builtins." + h.kind)))
            else:
                r = join_v(r, ANY)
        elif isinstance(a, K):
            r = join_v(r, V(Ext("builtins." + a.t)))
        elif isinstance(a, Abs) and a.kind in ("tensor", "ndarray"):
            r = join_v(r, V(Ext({"tensor": "torch.Tensor", "ndarray": "numpy.ndarray"}[a.kind])))
        else:
            r = join_v(r, ANY)
    return r


def bi_hasattr(it, args, kwargs, node):
    n = const_val(args[1])
    r = E
    for a in args[0]:
        r |= has_attr(it, a, n)
    return r


def has_attr(it, a, n):
    if not isinstance(n, str):
        return BOTH
    if isinstance(a, Ref):
        h = it.st.heap.get(a.oid)
        if h is None:
            return BOTH
        if h.kind == "inst":
            if n in h.fields:
                return TRUE
            if isinstance(h.cls, ClassInfo):
                for c in it.mro(h.cls):
                    if isinstance(c, ClassInfo):
                        if n in c.methods or n in c.attrs or n in c.props:
                            return TRUE
                        if ("cls", c.key, n) in it.st.glob:
                            return TRUE
                if it.find_method(h.cls, "__getattr__"):
                    return BOTH
                eb = [b for b in it.ext_bases(h.cls) if b.split(".")[-1] not in ("ABC", "object", "Generic", "NamedTuple", "Mapping", "Sequence", "MutableMapping")]
                if eb or h.open:
                    return BOTH
                return FALSE
            return BOTH
        import builtins

        t = {"list": list, "tuple": tuple, "dict": dict, "set": set}.get(h.kind)
        if t is not None:
            return TRUE if hasattr(t, n) else FALSE
        return BOTH
    if isinstance(a, K):
        return TRUE if hasattr(a.v, n) else FALSE
    if isinstance(a, FnA) and n not in ("__name__", "__call__", "__doc__"):
        key = ("fn", a.fi.qual, a.frame, n)
        if key in it.st.glob:
            return TRUE
        if n.startswith("__evotorch"):
            from .prog import _deco_names

            ds = [d.split(".")[-1] for d in (_deco_names(a.fi.node) if hasattr(a.fi.node, "decorator_list") else [])]
            if "vectorized" in ds and n == "__evotorch_vectorized__":
                return TRUE
            if "pass_info" in ds and n == "__evotorch_pass_info__":
                return TRUE
            return FALSE
        return FALSE if plain_function(a, n) else BOTH
    if isinstance(a, (FnA, BM)) and n in ("__name__", "__call__", "__doc__"):
        return TRUE
    if isinstance(a, BM):
        return FALSE if n.startswith("__evotorch") or isinstance(a.fn, FnA) and ("fn", a.fn.fi.qual, a.fn.frame, n) not in it.st.glob and plain_function(a.fn, n) else BOTH
    if isinstance(a, Ext) and a.recv is None and n == "__name__":
        return TRUE
    if isinstance(a, ClsA):
        for c in it.mro(a.ci):
            if isinstance(c, ClassInfo) and (n in c.methods or n in c.attrs or n in c.props or ("cls", c.key, n) in it.st.glob):
                return TRUE
        return BOTH if it.ext_bases(a.ci) else FALSE
    if isinstance(a, Abs):
        h = it.intr.get("@hasattr")
        if h is not None:
            r = h(it, a, n)
            if r is not None:
                return r
        if a.kind in ("callable",) and n.startswith("__evotorch"):
            return BOTH
        if a.kind == "tensor":
            return BOTH if n.startswith("__evotorch") else (TRUE if n in ("device", "dtype", "shape", "clone", "to", "__len__", "cpu", "numpy", "item", "ndim") else BOTH)
        return BOTH
    return BOTH


def plain_function(a, n):
    """An undecorated function has no attributes of its own other than those of every function."""
    return not n.startswith("__") and not getattr(a.fi.node, "decorator_list", None)


def bi_getattr(it, args, kwargs, node):
    n = const_val(args[1])
    if isinstance(n, str):
        if len(args) > 2:
            r = E
            for a in args[0]:
                hv = has_attr(it, a, n)
                if hv & TRUE:
                    try:
                        r = join_v(r, it.getattr1(a, n, node))
                    except Exception as ex:
                        if type(ex).__name__ != "Dead":
                            raise
                if hv & FALSE:
                    r = join_v(r, args[2])
            return r
        return it.getattr(args[0], n, node)
    if args[1] and all(isinstance(x, K) and isinstance(x.v, str) for x in args[1]):
        r = E
        for x in args[1]:
            for a in args[0]:
                if has_attr(it, a, x.v) & TRUE:
                    r = join_v(r, it.getattr1(a, x.v, node))
        if len(args) > 2:
            r = join_v(r, args[2])
        return r or ANY
    # unknown attribute name: any field
    r = E
    for a in args[0]:
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is not None and h.kind == "inst":
                for nn, v in h.fields.items():
                    if nn[:1] != "$":
                        r = join_v(r, v)
                continue
        r = join_v(r, ANY)
    if len(args) > 2:
        r = join_v(r, args[2])
    return r or ANY


def bi_setattr(it, args, kwargs, node):
    n = const_val(args[1])
    if isinstance(n, str):
        it.setattr(args[0], n, args[2], node)
        return NONE
    if args[1] and all(isinstance(x, K) and isinstance(x.v, str) for x in args[1]):
        for x in args[1]:
            for a in args[0]:
                if isinstance(a, Ref):
                    cur = it.st.heap[a.oid].fields.get(x.v, E)
                    it.setattr(args[0], x.v, join_v(cur, args[2]), node)
        return NONE
    for a in args[0]:
        if isinstance(a, Ref):
            it.note_write([a.oid], node, "setattr ?", args[2])
            h = it.st.heap[a.oid].copy()
            h.open = True
            h.fields["$rest"] = join_v(h.fields.get("$rest", E), args[2])
            it.st.heap[a.oid] = h
    return NONE


def bi_delattr(it, args, kwargs, node):
    for a in args[0]:
        if isinstance(a, Ref):
            it.note_write([a.oid], node, "delattr")
    return NONE


def bi_vars(it, args, kwargs, node):
    a = next(iter(args[0])) if args and len(args[0]) == 1 else None
    if isinstance(a, Ref) and it.st.heap[a.oid].kind == "inst":
        return it.dict_of(a, it.st.heap[a.oid], node)
    return ANY


def bi_slice(it, args, kwargs, node):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return V(it.alloc(node, "slice", HObj("slice", items=tuple(a))))


def bi_divmod(it, args, kwargs, node):
    return it.mk_tuple(node, [NUM, NUM], tag="divmod")


def bi_pow(it, args, kwargs, node):
    return NUM


def bi_object(it, args, kwargs, node):
    return absv("obj", E, False, {("cls", "object")})


def bi_super(it, args, kwargs, node):
    return ANY


def bi_open(it, args, kwargs, node):
    return absv("obj", E, False, {("cls", "file")})


# ------------------------------------------------------------ copying
def deep_clone(it, v, node, memo, depth=0):
    """Structural copy of everything reachable; storages are copied with their facts."""
    out = []
    for a in v:
        out.append(clone_atom(it, a, node, memo, depth))
    r = E
    for x in out:
        r = join_v(r, x if isinstance(x, frozenset) else V(x))
    return r


def clone_name(it, s, node, memo, tag):
    """Name of the copy of s made here. Copies are named after the first ancestor, so that copying copies in a loop ends."""
    root = it.clone_root.get(s.rstrip("*"), s)
    i = 0
    while i < 3 and (tag, root, i) in memo:
        i += 1
    memo[(tag, root, i)] = True
    name = it.new_id(node, tag + root + (f"+{i}" if i else ""))
    it.clone_root[name] = root
    return name, i == 3


def clone_stor(it, s, node, memo):
    if s in memo:
        return memo[s]
    name, more = clone_name(it, s, node, memo, "tdc:")
    c = dict(it.st.content.get(s, {}))
    if more and name in it.st.content:
        c = join_facts(c, it.st.content[name])
        it.st.summ = it.st.summ | {name}
    elif name in it.st.content:
        it._age(name)
        it.st.summ = it.st.summ - {name}
        if s == name:
            c = dict(it.st.content.get(name + "*", c))
    it.st.content[name] = c
    memo[s] = name
    return name


def clone_atom(it, a, node, memo, depth):
    if isinstance(a, Abs):
        if not a.stors:
            return a
        if a.kind in ("gen",):
            return a
        return Abs(a.kind, frozenset(clone_stor(it, s, node, memo) for s in a.stors), False, a.view)
    if isinstance(a, Ref):
        if a.oid in memo:
            return memo[a.oid] if isinstance(memo[a.oid], frozenset) else Ref(memo[a.oid])
        h = it.st.heap.get(a.oid)
        if h is None:
            return a
        if h.kind == "inst" and isinstance(h.cls, ClassInfo) and depth > 0 or (h.kind == "inst" and isinstance(h.cls, ClassInfo) and memo.get("$top") != a.oid):
            m = it.find_method(h.cls, "__deepcopy__")
            if m is not None and not sum(1 for f in it.stack if f.fi is m and ("dc", a.oid) in it_dc(it)) > 0:
                it_dc(it).add(("dc", a.oid))
                md = it.mk_dict(node, {}, tag="memo")
                memo[a.oid] = V(a)  # cut cycles
                try:
                    r = it.call(V(BM(FnA(m), a)), [md], {}, node)
                finally:
                    it_dc(it).discard(("dc", a.oid))
                memo[a.oid] = r
                return r
        name, more = clone_name(it, a.oid, node, memo, f"dc:{h.kind}:{getattr(h.cls, 'qual', h.cls)}:")
        memo[a.oid] = name
        prev = None
        if more and name in it.st.heap:
            prev = it.st.heap[name]
            it.st.summ = it.st.summ | {name}
        else:
            if name in it.st.heap:
                it._age(name)
                it.st.summ = it.st.summ - {name}
                h = it.st.heap.get(a.oid if a.oid != name else name + "*", h)
            it.st.heap[name] = HObj(h.kind, h.cls)
        h2 = h.copy()
        h2.fields = {n: (deep_clone(it, v, node, memo, depth + 1) if isinstance(v, frozenset) and n[:1] != "$" else v) for n, v in h.fields.items()}
        if h.items is not None:
            if isinstance(h.items, dict):
                h2.items = {q: deep_clone(it, v, node, memo, depth + 1) for q, v in h.items.items()}
            else:
                h2.items = tuple(deep_clone(it, v, node, memo, depth + 1) for v in h.items)
        h2.elem = deep_clone(it, h.elem, node, memo, depth + 1)
        h2.keys = h.keys
        it.st.heap[name] = join_h(prev, h2) if prev is not None else h2
        return Ref(name)
    if isinstance(a, BM):
        s = clone_atom(it, a.self_, node, memo, depth + 1)
        if isinstance(s, frozenset):
            return frozenset(BM(a.fn, x) for x in s)
        return BM(a.fn, s)
    return a


def it_dc(it):
    s = getattr(it, "_dc", None)
    if s is None:
        s = it._dc = set()
    return s


def _ro_copy(it, a, name, args, node):
    if isinstance(a, Abs) and a.ro and a.kind == "tensor" and it.ro_class is not None:
        m = it.find_method(it.ro_class, name)
        if m:
            return it.call(V(BM(FnA(m), a)), args, {}, node)
    return None


def f_deepcopy(it, args, kwargs, node):
    if len(args[0]) == 1:
        r = _ro_copy(it, next(iter(args[0])), "__deepcopy__", [args[1] if len(args) > 1 else kwargs.get("memo", NONE)], node)
        if r is not None:
            return r
    return deep_clone(it, args[0], node, {})


def f_copy(it, args, kwargs, node):
    out = E
    for a in args[0]:
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is not None and h.kind == "inst" and isinstance(h.cls, ClassInfo):
                m = it.find_method(h.cls, "__copy__")
                if m:
                    out = join_v(out, it.call(V(BM(FnA(m), a)), [], {}, node))
                    continue
            if h is not None:
                out = join_v(out, V(it.alloc(node, "scopy", h.copy())))
                continue
        elif isinstance(a, Abs) and a.stors:
            r = _ro_copy(it, a, "__copy__", [], node)
            out = join_v(out, r if r is not None else deep_clone(it, V(a), node, {}))
            continue
        out = join_v(out, V(a))
    return out


def f_partial(it, args, kwargs, node):
    h = HObj("partial", items=tuple(args[1:]))
    h.fields = dict(kwargs)
    h.fields["$f"] = args[0]
    return V(it.alloc(node, "partial", h))


def f_vmap(it, args, kwargs, node):
    h = HObj("vmap", items=())
    h.fields = {"$f": args[0], "in_dims": args[1] if len(args) > 1 else kwargs.get("in_dims", k(0)), "randomness": kwargs.get("randomness", k("error")), "out_dims": kwargs.get("out_dims", k(0))}
    return V(it.alloc(node, "vmap", h))


def f_ident0(it, args, kwargs, node):
    return args[0]


def f_ordereddict(it, args, kwargs, node):
    r = bi_dict(it, args, kwargs, node)
    a = next(iter(r))
    h = it.st.heap[a.oid].copy()
    h.fields["$ordered"] = True
    it.st.heap[a.oid] = h
    return r


def f_defaultdict(it, args, kwargs, node):
    r = it.mk_dict(node, {}, tag="ddict")
    a = next(iter(r))
    h = it.st.heap[a.oid].copy()
    if args:
        h.fields["$default"] = args[0]
    it.st.heap[a.oid] = h
    return r


def f_deque(it, args, kwargs, node):
    r = bi_list(it, args[:1], {}, node)
    a = next(iter(r))
    h = it.st.heap[a.oid].smash().copy()
    h.fields["$deque"] = True
    it.st.heap[a.oid] = h
    return r


def f_namedtuple(it, args, kwargs, node):
    import ast

    from .prog import Module

    key = getattr(node, "_sid", 0)
    ci = it.synth.get(key)
    if ci is None:
        name = const_val(args[0], "NT")
        fs = list(kwargs) if len(args) < 2 else []
        ex = it.exact_items(args[1]) if len(args) > 1 else None
        if len(args) < 2:
            pass
        elif ex and all(it.exact_items(x) and not isinstance(next(iter(x)), K) for x in ex):
            fs = [const_val(it.exact_items(x)[0], "?") for x in ex]
        elif ex is not None and not isinstance(next(iter(args[1])), K):
            fs = [const_val(x, "?") for x in ex]
        else:
            s = const_val(args[1]) if len(args) > 1 else None
            fs = s.replace(",", " ").split() if isinstance(s, str) else []
        src = f"class {name}(NamedTuple):\n" + "".join(f"    {f}: object\n" for f in fs) + ("    pass\n" if not fs else "")
        cd = ast.parse(src).body[0]
        for n in ast.walk(cd):
            n._sid = -key
            n._mod = it.fr.module
        ci = it.prog.make_class(cd, it.fr.module, f"{it.fr.module.name}.{name}")
        ci.bases_resolved = True
        ci.bases = ["typing.NamedTuple"]
        it.synth[key] = ci
    return V(ClsA(ci))


def f_pickle_dumps(it, args, kwargs, node):
    return V(it.alloc(node, "pickled", HObj("cell", elem=args[0])))


def f_pickle_loads(it, args, kwargs, node):
    out = E
    for a in args[0]:
        if isinstance(a, Ref):
            out = join_v(out, pickle_clone(it, it.st.heap[a.oid].all_elems(), node, {}))
    return out or ANY


def pickle_clone(it, v, node, memo):
    """What pickling and unpickling gives: the state of the object as its own protocol defines it."""
    out = E
    for a in v:
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if a.oid in memo:
                out = join_v(out, memo[a.oid])
                continue
            if h is not None and h.kind == "inst" and isinstance(h.cls, ClassInfo):
                gs = it.find_method(h.cls, "__getstate__")
                if gs is not None:
                    memo[a.oid] = V(a)
                    state = it.call(V(BM(FnA(gs), a)), [], {}, node)
                    name = it.new_id(node, "pk:" + str(a.oid))
                    if name in it.st.heap:
                        it._age(name)
                    it.st.heap[name] = HObj("inst", h.cls, {})
                    memo[a.oid] = V(Ref(name))
                    st2 = pickle_clone(it, state, node, memo)
                    ss = it.find_method(h.cls, "__setstate__")
                    if ss is not None:
                        it.call(V(BM(FnA(ss), Ref(name))), [st2], {}, node)
                    else:
                        inst_dict(it, Ref(name), "update", [st2], {}, node)
                    out = join_v(out, V(Ref(name)))
                    continue
            if h is None:
                out = join_v(out, V(a))
                continue
            name = it.new_id(node, "pk:" + str(a.oid))
            if name in it.st.heap:
                it._age(name)
            memo[a.oid] = V(Ref(name))
            it.st.heap[name] = HObj(h.kind, h.cls)
            h2 = h.copy()
            h2.fields = {n: (pickle_clone(it, x, node, memo) if isinstance(x, frozenset) and n[:1] != "$" else x) for n, x in h.fields.items()}
            if h.items is not None:
                if isinstance(h.items, dict):
                    h2.items = {q: pickle_clone(it, x, node, memo) for q, x in h.items.items()}
                else:
                    h2.items = tuple(pickle_clone(it, x, node, memo) for x in h.items)
            h2.elem = pickle_clone(it, h.elem, node, memo)
            it.st.heap[name] = h2
            out = join_v(out, V(Ref(name)))
        elif isinstance(a, Abs) and a.stors:
            out = join_v(out, V(Abs(a.kind, frozenset(clone_stor(it, s, node, memo) for s in a.stors), a.ro, a.view)))
        else:
            out = join_v(out, V(a))
    return out


def f_chain(it, args, kwargs, node):
    items = []
    for a in args:
        ex = it.exact_items(a)
        if ex is None:
            e = E
            for b in args:
                e = join_v(e, it.iter_elem(b, node))
            return it.mk_smash(node, "list", e, tag="chain")
        items += ex
    return it.mk_list(node, items, tag="chain")


def f_chained(it, args, kwargs, node):
    ex = it.exact_items(args[0])
    return f_chain(it, ex if ex is not None else [it.iter_elem(args[0], node) or ANY], {}, node)


def f_accumulate(it, args, kwargs, node):
    ex = it.exact_items(args[0])
    if ex is None or len(args) > 1 and args[1] != NONE or kwargs:
        return it.mk_smash(node, "list", ANY if len(args) > 1 or kwargs else it.iter_elem(args[0], node), tag="accu")
    out = ex[:1]
    for x in ex[1:]:
        out.append(it.binop("add", operator.add, out[-1], x, node))
    return it.mk_list(node, out, tag="accu")


def f_repeat(it, args, kwargs, node):
    n = next(iter(args[1])) if len(args) > 1 and len(args[1]) == 1 else None
    if isinstance(n, K) and isinstance(n.v, int) and n.v <= 48:
        return it.mk_list(node, [args[0]] * n.v, tag="repeat")
    return it.mk_smash(node, "list", args[0], tag="repeat", ne=True)


def f_product(it, args, kwargs, node):
    exs = [it.exact_items(a) for a in args]
    if None not in exs and not kwargs:
        rows = [[]]
        for ex in exs:
            rows = [r + [x] for r in rows for x in ex]
        if len(rows) <= 48:
            return it.mk_list(node, [it.mk_tuple(node, r, tag=f"prod{i}") for i, r in enumerate(rows)], tag="product")
    return it.mk_smash(node, "list", it.mk_tuple(node, [it.iter_elem(a, node) or ANY for a in args], tag="prod"), tag="product", ne=True)


def f_reduce(it, args, kwargs, node):
    e = it.iter_elem(args[1], node) or ANY
    acc = args[2] if len(args) > 2 else e
    r = it.call(args[0], [acc, e], {}, node)
    return join_v(r, acc)


def f_const(v):
    def f(it, args, kwargs, node):
        return v

    return f


def f_simplens(it, args, kwargs, node):
    return absv("obj")


def f_functional_call(it, args, kwargs, node):
    """A network of a harness says itself what it does with the parameters it is given."""
    r = E
    for a in args[0] if args else ():
        h = it.st.heap.get(a.oid) if isinstance(a, Ref) else None
        m = it.find_method(h.cls, "called_with") if h is not None and h.kind == "inst" and h.cls else None
        r = join_v(r, it.call(V(BM(FnA(m), a)), args[1:], kwargs, node) if m else ANY)
    return r or ANY


def f_parameters_to_vector(it, args, kwargs, node):
    ps = it.exact_items(args[0]) if args else None
    if ps is None:
        return torch_function(it, "torch.nn.utils.parameters_to_vector", args, kwargs, node)
    outer, vs = it.fr.iters, []
    for j, p in enumerate(ps):
        it.fr.iters = outer + (j,)
        vs.append(it.call(it.getattr(p, "reshape", node), [V(K(-1, "int"))], {}, node))
    it.fr.iters = outer
    return torch_function(it, "torch.cat", [it.mk_list(node, vs)], {}, node)


def f_vector_to_parameters(it, args, kwargs, node):
    dom = next((d for d in it.domains if hasattr(d, "dims")), None)
    ps = it.exact_items(args[1]) if len(args) > 1 and dom is not None else None
    ds = [dom.dims(it, p) for p in ps or ()]
    if ps is None or any(d is None or None in d for d in ds):
        return torch_function(it, "torch.nn.utils.vector_to_parameters", args, kwargs, node)
    outer, at = it.fr.iters, 0
    for j, (p, d) in enumerate(zip(ps, ds)):
        it.fr.iters = outer + (j,)
        n = 1
        for m in d:
            n *= m
        x = it.getitem(args[0], bi_slice(it, [V(K(at, "int")), V(K(at + n, "int"))], {}, node), node)
        at += n
        x = it.call(it.getattr(x, "reshape", node), [V(K(m, "int")) for m in d], {}, node)
        it.call(it.getattr(p, "copy_", node), [x], {}, node)
    it.fr.iters = outer
    return NONE


FUNCS = {
    "torch.nn.utils.parameters_to_vector": f_parameters_to_vector,
    "torch.nn.utils.vector_to_parameters": f_vector_to_parameters,
    "torch.nn.utils.convert_parameters.parameters_to_vector": f_parameters_to_vector,
    "torch.nn.utils.convert_parameters.vector_to_parameters": f_vector_to_parameters,
    "torch.func.functional_call": f_functional_call,
    "torch.nn.utils.stateless.functional_call": f_functional_call,
    "copy.deepcopy": f_deepcopy,
    "copy.copy": f_copy,
    "functools.partial": f_partial,
    "functools.wraps": lambda it, a, kw, n: V(Ext("sa_ident")),
    "sa_ident": f_ident0,
    "functools.reduce": f_reduce,
    "torch.func.vmap": f_vmap,
    "torch.vmap": f_vmap,
    "functorch.vmap": f_vmap,
    "torch.jit.script": f_ident0,
    "collections.OrderedDict": f_ordereddict,
    "collections.defaultdict": f_defaultdict,
    "collections.deque": f_deque,
    "collections.namedtuple": f_namedtuple,
    "typing.NamedTuple": f_namedtuple,
    "itertools.chain": f_chain,
    "itertools.chain.from_iterable": f_chained,
    "itertools.accumulate": f_accumulate,
    "itertools.repeat": f_repeat,
    "itertools.product": f_product,
    "itertools.count": lambda it, a, kw, n: it.mk_smash(n, "list", INT, tag="count", ne=True),
    "pickle.dumps": f_pickle_dumps,
    "pickle.loads": f_pickle_loads,
    "os.getenv": f_const(STR | NONE),
    "os.path.join": f_const(STR),
    "os.path.exists": f_const(BOOL),
    "os.getpid": f_const(INT),
    "os.cpu_count": f_const(INT),
    "time.time": f_const(NUM),
    "inspect.signature": f_const(ANY),
    "warnings.warn": f_const(NONE),
    "typing.cast": lambda it, a, kw, n: a[1],
    "operator.index": f_ident0,
}


# ------------------------------------------------------------ ray: actors are local objects, calls are direct
def ray_call(it, t, q, args, kwargs, node):
    h = it.intr.get("@ray")
    if h is not None:
        r = h(it, t, q, args, kwargs, node)
        if r is not None:
            return r
    return ANY
