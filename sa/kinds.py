"""Abstract domain: the data type and the device of each tensor.

Facts: "imp" whether the numbers went through the default data type on the way,
"dty" data type ("float64", ...), "dvc" device ("cpu": where tensors are made by default, "given": the one of the harness).
They follow torch's rules: makers without `dtype` or `device` use the defaults, operations promote data types by category and
number of dimensions, in-place operations keep both.
"""
import struct

from .base import kconst
from .events import INTR as EVENTS
from .events import found
from .shapes import Shapes
from .vals import E, NONE, Abs, Ext, K, Ref, V, absv

SHAPES = Shapes()
DEFAULT = "float32"
ALIAS = {"float": "float32", "double": "float64", "half": "float16", "long": "int64", "int": "int32", "short": "int16", "complex": "complex64"}
CATEGORY = {"bool": 0, "uint8": 1, "int8": 1, "int16": 1, "int32": 1, "int64": 1, "float16": 2, "bfloat16": 2, "float32": 2, "float64": 2}
WIDTH = {"bool": 0, "uint8": 1, "int8": 1, "int16": 2, "int32": 3, "int64": 4, "float16": 5, "bfloat16": 5, "float32": 6, "float64": 7}
MAKE = {"zeros", "ones", "empty", "rand", "randn", "eye", "linspace", "logspace"}
MAKE_INT = {"randint", "randperm", "tril_indices", "triu_indices"}
LIKE = {"zeros_like", "ones_like", "empty_like", "full_like", "rand_like", "randn_like", "randint_like", "new_zeros", "new_ones", "new_empty", "new_full"}
CAST = {"float": "float32", "double": "float64", "half": "float16", "long": "int64", "int": "int32", "bool": "bool", "short": "int16", "byte": "uint8"}
TRUTH = {"eq", "ne", "lt", "le", "gt", "ge", "isnan", "isinf", "isfinite", "any", "all", "logical_and", "logical_or", "logical_not", "logical_xor", "isin", "signbit", "equal"}
INDEX = {"argsort", "argmax", "argmin", "nonzero", "argwhere", "multinomial", "count_nonzero", "searchsorted", "bucketize", "bincount"}
SAME = {
    "getitem", "iter", "clone", "detach", "reshape", "view", "expand", "expand_as", "view_as", "reshape_as", "unsqueeze", "squeeze", "flatten", "ravel", "contiguous", "requires_grad_", "as_subclass", "_make_subclass", "data", "T", "mT", "H",
    "t", "transpose", "permute", "movedim", "swapaxes", "flip", "roll", "repeat", "repeat_interleave", "tile", "broadcast_to", "split", "chunk", "unbind", "narrow", "select", "index_select", "gather", "take", "take_along_dim", "masked_select",
    "sort.values", "sort", "topk", "max", "min", "amax", "amin", "median", "kthvalue", "cummax", "cummin", "abs", "neg", "negative", "positive", "sign", "round", "floor", "ceil", "trunc", "relu", "diag", "diagonal", "diag_embed", "tril", "triu", "fliplr", "flipud", "rot90",
    "nan_to_num", "square", "copy", "deepcopy", "cholesky", "inverse", "pinverse", "inv", "eigh", "matrix_exp", "alias", "cumsum", "cumprod", "prod", "unique", "masked_fill", "index_fill", "index_copy", "index_add", "scatter", "index_put", "fill", "unfold", "share_memory_",
    "clamp", "clip", "maximum.scalar", "atleast_1d", "atleast_2d", "real", "vander", "stretch", "batched", "item_of", "nanmedian", "quantile", "nanquantile", "logdet", "det", "lerp", "bernoulli",
}
FLOAT = {"exp", "log", "log2", "log10", "log1p", "expm1", "sqrt", "rsqrt", "mean", "std", "var", "norm", "sigmoid", "tanh", "sin", "cos", "tan", "softmax", "log_softmax", "nanmean", "reciprocal", "erf", "erfinv", "lgamma", "logsumexp", "vector_norm", "exp2", "matrix_norm", "softplus", "normalize"}
SUM = {"sum", "nansum"}
PROMOTE = {"add", "sub", "subtract", "mul", "multiply", "pow", "maximum", "minimum", "matmul", "mm", "mv", "bmm", "dot", "outer", "inner", "vdot", "einsum", "remainder", "mod", "fmod", "floordiv", "floor_divide", "rsub", "addcmul", "addcdiv", "hypot", "ger", "tensordot", "cdist", "dist", "and", "or", "xor", "bitwise_and", "bitwise_or", "bitwise_xor", "fmax", "fmin", "radd", "rmul", "rpow"}
DIVIDE = {"truediv", "div", "divide", "true_divide", "rtruediv", "atan2"}
JOIN = {"cat", "concatenate", "concat", "hstack", "vstack", "stack", "dstack", "column_stack"}
NOT_HERE = {"attr.shape", "attr.ndim"}


def name_of(v):
    """The data type a value stands for: a name, "" for None, None when unknown."""
    if v is None:
        return ""
    out = set()
    for a in v:
        if isinstance(a, K):
            out.add("" if a.v is None else ALIAS.get(a.v.split(".")[-1], a.v.split(".")[-1]) if isinstance(a.v, str) else None)
        elif isinstance(a, Ext):
            q = a.q.split(".")
            if q[0] == "builtins":
                out.add({"float": DEFAULT, "int": "int64", "bool": "bool"}.get(q[-1]))
            else:
                out.add(ALIAS.get(q[-1], q[-1]))
        else:
            out.add(None)
    r = next(iter(out)) if len(out) == 1 else None
    return r if r == "" or r in CATEGORY else None


def place_of(it, v):
    """The device a value stands for: "cpu", "given", "" for None, None when unknown."""
    if v is None:
        return ""
    out = set()
    for a in v:
        if isinstance(a, K):
            out.add("" if a.v is None else a.v if isinstance(a.v, str) else None)
        elif isinstance(a, Abs) and a.kind in ("device", "any"):
            out.add(dict(a.view).get("dvc"))
        else:
            out.add(None)
    return next(iter(out)) if len(out) == 1 else None


class Kinds:
    name = "kinds"

    def one(self, it, v, key):
        """The fact of a value which is a tensor on every path."""
        out = set()
        for a in v or ():
            if isinstance(a, Abs) and a.kind in ("tensor", "any"):
                f = it.facts(a).get(key)
                if not f:
                    return None
                out |= f
            else:
                return None
        r = next(iter(out)) if len(out) == 1 else None
        return None if r == "?" else r

    def ndim(self, it, v):
        d = Shapes.dims(SHAPES, it, v)
        return None if d is None else len(d)

    def is_tensor(self, v):
        return bool(v) and all(isinstance(a, Abs) and a.kind in ("tensor", "any") for a in v)

    def operand(self, it, v):
        """(data type, rank: 0 number, 1 tensor without dimensions, 2 tensor with dimensions) of an operand; None: unknown; (): not an operand."""
        out = set()
        for a in v:
            if isinstance(a, K):
                t = {bool: "bool", int: "int64", float: DEFAULT}.get(type(a.v))
                out.add((t, 0) if t else ())
            elif isinstance(a, Abs) and a.kind in ("num", "int", "bool"):
                out.add(({"num": None, "int": "int64", "bool": "bool"}[a.kind], 0))
            elif isinstance(a, Abs) and a.kind in ("tensor", "any"):
                t, n = self.one(it, V(a), "dty"), self.ndim(it, V(a))
                out.add((t, None if n is None else 2 if n else 1))
            elif isinstance(a, Ref):
                return ()
            else:
                out.add(None)
        return next(iter(out)) if len(out) == 1 else None

    def promote(self, it, vs, wide=False):
        """The data type of the result of an operation on several operands."""
        ops = []
        for v in vs:
            o = self.operand(it, v)
            if o is None:
                return None
            if o:
                # joined tensors have the same number of dimensions
                ops.append((o[0], 2) if wide and o[1] is None else o)
        if not any(r != 0 for _, r in ops):
            return None
        if any(t is None and r != 0 for t, r in ops):
            return None
        # numbers of unknown kind matter only when no tensor is of a floating data type
        fl = [o for o in ops if o[1] != 0 and CATEGORY[o[0]] == 2]
        if any(t is None for t, r in ops):
            if not fl:
                return None
            ops = [o for o in ops if o[0] is not None]
        top = max(CATEGORY[t] for t, r in ops)
        cand = [(t, r) for t, r in ops if CATEGORY[t] == top]
        # the highest rank among those of the highest category decides, unless a lower category has dimensions: category wins
        if any(r is None for t, r in cand) and len({t for t, r in cand if r != 0}) > 1:
            return None
        rank = max((2 if r is None else r) for t, r in cand)
        ts = {t for t, r in cand if (2 if r is None else r) == rank}
        if rank == 0:
            return DEFAULT if top == 2 else ({t for t, r in ops if r} and None)
        if len(ts) == 1:
            return next(iter(ts))
        if len({WIDTH[t] for t in ts}) == len(ts):
            return max(ts, key=WIDTH.get)
        return None

    def members(self, it, v):
        """The members of a sequence, or of a sequence of unknown length one value for all of them."""
        xs = it.exact_items(v)
        if xs is not None:
            return xs
        out = []
        for a in v:
            h = it.st.heap.get(a.oid) if isinstance(a, Ref) else None
            el = h.all_elems() if h is not None and h.kind in ("list", "tuple") else None
            if not el:
                return None
            out += [V(x) for x in el]
        return out

    def place(self, it, name, vs, node):
        """The device of the result of an operation on several operands."""
        ds, big = set(), set()
        for v in vs:
            if not self.is_tensor(v):
                continue
            d = self.one(it, v, "dvc")
            n = self.ndim(it, v)
            if d is None:
                return None
            ds.add(d)
            if n:
                big.add(d)
        if len(big) > 1:
            found(it, "mixed-devices", name, "an operation on tensors with dimensions, one on the device asked for and one on the default device")
            return None
        if len(ds) == 1:
            return next(iter(ds))
        return next(iter(big)) if len(big) == 1 and len(ds) == 2 else None

    # ------------------------------------------------------------------
    def op(self, it, name, args, kwargs, node):
        if name == "attr.dtype":
            d = self.one(it, args[0], "dty")
            return {}, ({"atom": Ext("torch." + d)} if d else {})
        if name == "attr.device":
            d = self.one(it, args[0], "dvc")
            return {}, ({"dvc": d} if d else {})
        if name == "torch.device":
            d = place_of(it, args[0]) if args else None
            return {}, ({"dvc": d} if d else {})
        if name.startswith("attr.") or name in NOT_HERE:
            return {}, {}
        if name == "setitem" or it.inplace:
            ss = {s for a in args[0] if isinstance(a, Abs) for s in a.stors} if args else ()
            f = (it.st.content.get(next(iter(ss))) or {}) if len(ss) == 1 else {}
            c = {q: f[q] for q in ("dty", "dvc") if q in f}
            c["imp"] = self.any_rounded(it, args[:1] + args[-1:])
            if c.get("dty") == frozenset([DEFAULT]) and (name == "setitem" or name.rstrip("_") in ("copy", "add", "sub", "mul", "div", "iadd")) and self.operand(it, args[-1]) == ("float64", 2):
                c["imp"] = frozenset("y")
            if name == "setitem" and len(args) > 2 and self.chosen(it, args[1]):
                self.place(it, "setitem", [args[0], args[2]], node)
            return c, None
        t, d = self.dtype(it, name, args, kwargs), self.device(it, name, args, kwargs, node)
        c = {"imp": self.rounded(it, name, args, kwargs, t)}
        if t:
            c["dty"] = frozenset([t])
        if d:
            c["dvc"] = frozenset([d])
        return c, {"dty": t or "?", "dvc": d or "?"} if self.viewing(name) else {}

    def chosen(self, it, v):
        """Whether an index picks elements by a tensor of positions or a mask."""
        xs = it.exact_items(v) if all(isinstance(a, Ref) for a in v) else None
        return any(isinstance(a, Abs) and a.kind == "tensor" for x in (xs or [v]) for a in x)

    def any_rounded(self, it, vs):
        out = frozenset("n")
        for v in vs:
            for a in v:
                if isinstance(a, Abs) and a.kind == "tensor" and "y" in (it.facts(a).get("imp") or ()):
                    out = frozenset("y")
                elif isinstance(a, Ref):
                    xs = it.exact_items(V(a))
                    if xs and it.st.heap[a.oid].kind in ("list", "tuple") and self.any_rounded(it, xs) == frozenset("y"):
                        out = frozenset("y")
        return out

    def rounded(self, it, name, args, kwargs, t):
        """"y": the numbers were rounded to the default data type, although none of the operands is of it."""
        if t is None or CATEGORY[t] != 2 or name in LIKE:
            return frozenset("n")
        if t == DEFAULT and not kwargs.get("dtype") and (name in ("linspace", "logspace") or (name in FLOAT or name in DIVIDE) and not self.floating(it, args)):
            return frozenset("y")
        if t == DEFAULT and not kwargs.get("dtype") and name in ("tensor", "as_tensor", "asarray", "scalar_tensor", "full") and self.inexact(it, args[1:] if name == "full" else args[:1]):
            return frozenset("y")
        return self.any_rounded(it, args[1:3] if name == "where" else args)

    def inexact(self, it, vs):
        """Whether these numbers include one which the default data type does not represent."""
        for v in vs:
            for a in v:
                if isinstance(a, K) and isinstance(a.v, float) and abs(a.v) < 1e30 and struct.unpack("f", struct.pack("f", a.v))[0] != a.v:
                    return True
                if isinstance(a, Ref) and it.st.heap[a.oid].kind in ("list", "tuple") and self.inexact(it, it.exact_items(V(a)) or ()):
                    return True
        return False

    def floating(self, it, vs):
        return any(o is None or o and (o[1] != 0 or self.is_tensor(v)) and (o[0] is None or CATEGORY[o[0]] == 2) for v, o in ((v, self.operand(it, v)) for v in vs))

    def viewing(self, name):
        return name in ("to", "type", "type_as", "cpu", "cuda", "as_tensor", "asarray", "tensor") or name in CAST or name in SAME

    def dtype(self, it, name, args, kwargs):
        t = self.dtype_(it, name, args, kwargs)
        return None if t in ("?", "") else t

    def dtype_(self, it, name, args, kwargs):
        given = name_of(kwargs["dtype"]) if "dtype" in kwargs else ""
        if given != "":
            return given
        if "out" in kwargs and self.is_tensor(kwargs["out"]):
            return self.one(it, kwargs["out"], "dty")
        if name in MAKE:
            return DEFAULT
        if name in MAKE_INT:
            return "int64"
        if name in ("full", "arange"):
            xs = args[1:2] or [kwargs.get("fill_value", E)] if name == "full" else args
            os = [self.operand(it, x) for x in xs]
            if any(not o or o[0] is None for o in os):
                return None
            return DEFAULT if any(CATEGORY[o[0]] == 2 for o in os) else "bool" if name == "full" and os[0][0] == "bool" else "int64"
        if name in ("tensor", "as_tensor", "asarray", "scalar_tensor"):
            return self.of_data(it, args[0]) if args else None
        if name in LIKE:
            return self.one(it, args[0], "dty") if args else None
        if name == "to":
            for x in args[1:]:
                if self.is_tensor(x) and any(a.kind == "tensor" for a in x):
                    return self.one(it, x, "dty")
                n = name_of(x)
                if n and n in CATEGORY and not all(isinstance(a, K) for a in x):
                    return n
                if all(isinstance(a, Abs) and a.kind == "dtype" for a in x) or any(isinstance(a, Abs) and a.kind == "any" for a in x):
                    return None
            return self.one(it, args[0], "dty") if args else None
        if name == "type_as":
            return self.one(it, args[1], "dty") if len(args) > 1 else None
        if name in CAST and len(args) == 1:
            return CAST[name]
        if name in ("cpu", "cuda", "pin_memory"):
            return self.one(it, args[0], "dty")
        if name in TRUTH:
            return "bool"
        if name in INDEX:
            return "int64"
        if name in DIVIDE:
            t = self.promote(it, args)
            return t if t is None or CATEGORY[t] == 2 else DEFAULT
        if name in ("max", "min") and len(args) > 1 and self.is_tensor(args[1]) or name in PROMOTE:
            return self.promote(it, args)
        if name in ("clamp", "clip"):
            return self.promote(it, args + [v for kx, v in kwargs.items() if kx in ("min", "max")])
        if name == "where" and len(args) > 2:
            return self.promote(it, args[1:3])
        if name in ("normal",):
            # the result is like the mean
            return next((self.one(it, x, "dty") for x in args[:2] if self.is_tensor(x)), DEFAULT)
        if name in JOIN:
            xs = self.members(it, args[0]) if args else None
            return None if xs is None else self.promote(it, xs, True)
        if name in ("invert", "bitwise_not", "logical_not"):
            return self.one(it, args[0], "dty")
        if name in FLOAT or name in SUM:
            t = self.one(it, args[0], "dty") if args else None
            if t in (None, "?"):
                return None
            return t if CATEGORY[t] == 2 else DEFAULT if name in FLOAT else "int64"
        if name in SAME:
            return self.one(it, args[0], "dty") if args else None
        return None

    def of_data(self, it, v):
        out = set()
        for a in v:
            if isinstance(a, Ref):
                xs = it.exact_items(V(a))
                ts = {self.of_data(it, x) for x in xs} if xs else {None}
                out |= {next(iter(ts)) if len(ts) == 1 else DEFAULT if ts <= {DEFAULT, "int64"} else None}
            elif isinstance(a, Abs) and a.kind == "tensor":
                out.add(self.one(it, V(a), "dty"))
            else:
                o = self.operand(it, V(a))
                out.add(o[0] if o else None)
        return next(iter(out)) if len(out) == 1 else None

    def device(self, it, name, args, kwargs, node):
        d = self.device_(it, name, args, kwargs, node)
        return None if d in ("?", "") else d

    def device_(self, it, name, args, kwargs, node):
        given = place_of(it, kwargs["device"]) if "device" in kwargs else ""
        if given != "":
            return given
        if "out" in kwargs and self.is_tensor(kwargs["out"]):
            return self.one(it, kwargs["out"], "dvc")
        if name in MAKE or name in MAKE_INT or name in ("full", "arange"):
            return "cpu"
        if name in ("tensor", "as_tensor", "asarray", "scalar_tensor"):
            if not args:
                return None
            ds = set()
            for a in args[0]:
                if isinstance(a, Abs) and a.kind == "tensor":
                    ds.add(self.one(it, V(a), "dvc") if name != "scalar_tensor" else "cpu")
                elif isinstance(a, K) or isinstance(a, Abs) and a.kind in ("num", "int", "bool"):
                    ds.add("cpu")
                elif isinstance(a, Ref) and it.exact_items(V(a)):
                    ds.add("cpu")
                else:
                    return None
            return next(iter(ds)) if len(ds) == 1 else None
        if name == "to":
            for x in args[1:]:
                if self.is_tensor(x) and any(a.kind == "tensor" for a in x):
                    return self.one(it, x, "dvc")
                if all(isinstance(a, K) and isinstance(a.v, str) or isinstance(a, Abs) and a.kind == "device" for a in x):
                    return place_of(it, x)
                if any(isinstance(a, Abs) and a.kind == "any" for a in x):
                    return None
            return self.one(it, args[0], "dvc") if args else None
        if name == "cpu":
            return "cpu"
        if name == "cuda":
            return None
        if name in JOIN:
            xs = self.members(it, args[0]) if args else None
            return None if xs is None else self.place(it, name, xs, node)
        if name == "type_as":
            return self.one(it, args[1], "dvc") if len(args) > 1 else None
        if name in ("getitem", "index_select", "gather", "take", "expand_as", "view_as", "reshape_as") or name in LIKE:
            return self.one(it, args[0], "dvc") if args else None
        if name in ("einsum",):
            return self.place(it, name, args[1:], node)
        return self.place(it, name, args + [v for kx, v in kwargs.items() if kx in ("min", "max", "other", "mean", "std")], node)


# ------------------------------------------------------------------ intrinsics of the harnesses
def domain(it):
    return next(d for d in it.domains if d.name == "kinds")


def i_tensor(it, a, kw, n):
    """_tensor(name, dtype, on, *sizes): a tensor of the caller's; `on` says whether it is on the device "given"."""
    c = [kconst(x) for x in a]
    nm = "in:" + c[0]
    if it.st.content.get(nm) is None:
        it.st.content[nm] = {"dims": frozenset([tuple(c[3:])]), "dty": frozenset([c[1]]), "dvc": frozenset(["given" if c[2] else "cpu"])}
    return absv("tensor", [nm])


def i_device(it, a, kw, n):
    return absv("device", E, False, {("dvc", "given")})


def i_kind(it, a, kw, n):
    """_kind(label, value, dtype, on): every floating-point tensor of `value` is of this data type and on this device."""
    label, want, on = kconst(a[0]), kconst(a[2]), "given" if kconst(a[3]) else "cpu"
    d = domain(it)
    seen, todo, tensors = set(), list(a[1]), []
    if not a[1]:
        it.obs.count("undecided")
    while todo:
        x = todo.pop()
        if isinstance(x, Abs):
            if x.kind in ("tensor", "any"):
                tensors.append(x)
        elif isinstance(x, Ref) and x.oid not in seen:
            seen.add(x.oid)
            h = it.st.heap.get(x.oid)
            if h is None:
                continue
            for v in list(h.fields.values()):
                todo.extend(v)
            for v in h.items.values() if isinstance(h.items, dict) else h.items or ():
                todo.extend(v)
            todo.extend(h.elem or ())
    for x in tensors:
        for key, due, rule in (("dty", want, "data-type"), ("dvc", on, "device")):
            f = it.facts(x).get(key)
            if not f or "?" in f:
                it.obs.count("undecided")
                it.obs.lost = getattr(it.obs, "lost", []) + [(label, key)]
                continue
            it.obs.count("decided")
            bad = {y for y in f if y != due and not (key == "dty" and CATEGORY.get(y) != 2 and CATEGORY.get(due) == 2)}
            if bad:
                found(it, rule, label, f"{label}: {sorted(bad)[0]} instead of {due}")
            elif key == "dty" and due == "float64" and f == {due} and "y" in (it.facts(x).get("imp") or ()):
                found(it, "precision", label, f"{label}: numbers computed in the default data type {DEFAULT} are stored as {due}")
    return NONE


INTR = dict(EVENTS, _tensor=i_tensor, _device=i_device, _kind=i_kind)
