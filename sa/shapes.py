"""Abstract domain: shapes. Fact `dims` (content for fresh tensors, view fact for views): tuple of sizes; a size is an int, or None when unknown."""
from .vals import Abs, Ext, K, Ref, V

KEEP = {
    "clone", "copy", "detach", "to", "contiguous", "cpu", "cuda", "numpy", "from_numpy", "float", "double", "half", "long", "int", "bool", "type", "type_as", "data", "abs", "neg", "exp", "log", "sqrt", "tanh", "sigmoid",
    "relu", "clamp", "clip", "isnan", "isinf", "isfinite", "logical_not", "sign", "round", "floor", "ceil", "astype", "deepcopy", "as_subclass", "requires_grad_", "cumsum", "softmax", "zeros_like", "ones_like", "empty_like", "full_like",
    "rand_like", "randn_like", "randint_like", "nan_to_num", "flip", "sort.values", "sort.indices", "argsort", "square", "sin", "cos", "positive", "invert", "not", "pow", "alias", "detach_", "roll", "erf", "erfinv", "log_softmax", "reciprocal",
    "asarray", "as_tensor", "ascontiguousarray", "normal_", "uniform_", "share_memory_", "__array__", "iterdata", "unflip",
}
ELEMENTWISE = {"add", "sub", "mul", "div", "truediv", "floordiv", "mod", "pow", "eq", "ne", "lt", "le", "gt", "ge", "and", "or", "xor", "logical_and", "logical_or", "logical_xor", "where", "minimum", "maximum", "max2", "min2", "fmod", "remainder", "rsub", "radd", "atan2", "lerp", "clamp", "bitwise_and", "bitwise_or"}
REDUCE = {"sum", "mean", "prod", "std", "var", "norm", "any", "all", "argmin", "argmax", "max.values", "max.indices", "min.values", "min.indices", "amin", "amax", "nansum", "nanmean", "median.values", "min", "max", "logsumexp", "nanmin", "nanmax"}
MAKE = {"empty", "zeros", "ones", "full", "rand", "randn", "new_empty", "new_zeros", "new_ones", "new_full"}
INTEGER = {"argsort", "sort.indices", "topk.indices", "randperm", "randint", "arange", "argmin", "argmax", "max.indices", "min.indices", "nonzero", "long", "multinomial"}
BOOLEAN = {"eq", "ne", "lt", "le", "gt", "ge", "logical_and", "logical_or", "logical_not", "logical_xor", "isnan", "isinf", "isfinite", "bool", "any", "all", "not"}


def broadcast(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for j in range(1, n + 1):
        ds = [s[-j] for s in shapes if len(s) >= j]
        big = {d for d in ds if d != 1}
        if None in big or len(big) > 1:
            out.append(next(iter(big - {None})) if len(big - {None}) == 1 else None)
        else:
            out.append(next(iter(big)) if big else 1)
    return tuple(reversed(out))


class Shapes:
    name = "dims"

    def const(self, it, v):
        if v is not None and len(v) == 1:
            a = next(iter(v))
            if isinstance(a, K):
                return a
        return None

    def size(self, it, v):
        c = self.const(it, v)
        return c.v if c is not None and isinstance(c.v, int) and not isinstance(c.v, bool) else None

    def items(self, it, v):
        return it.exact_items(v)

    def sizes(self, it, vs):
        if len(vs) == 1:
            ex = self.items(it, vs[0])
            if ex is not None:
                vs = ex
            elif not all(isinstance(a, (K, Abs)) and (isinstance(a, K) or a.kind in ("int", "num")) for a in vs[0]):
                return None
        return tuple(self.size(it, v) for v in vs)

    def dims(self, it, v):
        out = set()
        for a in v:
            if isinstance(a, K):
                out.add(())
            elif isinstance(a, Abs):
                if a.kind in ("num", "int", "bool"):
                    out.add(())
                    continue
                d = it.facts(a).get("dims")
                if isinstance(d, frozenset):
                    d = next(iter(d)) if len(d) == 1 else None
                if not isinstance(d, tuple):
                    return None
                out.add(d)
            elif isinstance(a, Ref):
                ex = self.items(it, V(a))
                if ex is None:
                    return None
                ds = [self.dims(it, x) for x in ex]
                if not ds or None in ds or any(x != ds[0] for x in ds):
                    return None
                out.add((len(ex),) + ds[0])
            else:
                return None
        if len(out) == 1:
            return next(iter(out))
        if out and len({len(d) for d in out}) == 1:
            return tuple(c[0] if len(set(c)) == 1 else None for c in zip(*out))
        return None

    def op(self, it, name, args, kwargs, node):
        if name == "setitem" or it.inplace:
            ss = {s for a in args[0] if isinstance(a, Abs) for s in a.stors}
            f = (it.st.content.get(next(iter(ss))) or {}) if len(ss) == 1 else {}
            return {q: f[q] for q in ("dims", "ik") if q in f}, None
        if name == "attr.shape":
            d = self.dims(it, args[0])
            return {}, ({"dims": d} if d is not None else None)
        if name in ("attr.ndim", "dim", "ndimension"):
            d = self.dims(it, args[0])
            return {}, ({"const": len(d)} if d is not None else None)
        if name == "len":
            d = self.dims(it, args[0])
            return {}, ({"const": d[0]} if d and d[0] is not None else None)
        if name in ("numel", "nelement"):
            d = self.dims(it, args[0])
            if d is None or None in d:
                return {}, None
            n = 1
            for x in d:
                n *= x
            return {}, {"const": n}
        if name == "size" and len(args) == 2:
            d, i = self.dims(it, args[0]), self.size(it, args[1])
            return {}, ({"const": d[i]} if d is not None and i is not None and -len(d) <= i < len(d) and d[i] is not None else None)
        d = self.result(it, name, args, kwargs)
        c, w = ({"dims": frozenset([d])}, {"dims": d}) if d is not None else ({}, {"dims": None})
        ik = "int" if name in INTEGER else "bool" if name in BOOLEAN else self.index_kind(it, args[0]) if args and name in KEEP | {"getitem", "reshape", "view", "unsqueeze", "squeeze", "expand", "flatten", "tensor"} else None
        if name in MAKE or name in ("to", "tensor", "as_tensor", "empty_like", "zeros_like"):
            q = {a.q.rsplit(".", 1)[-1] if isinstance(a, Ext) else None for v in [kwargs.get("dtype", ())] + ([args[1]] if name == "to" and len(args) > 1 else []) for a in v}
            ik = "int" if q and q <= {"int64", "long", "int32", "int", "int16", "int8"} else "bool" if q == {"bool"} else ik if not q or q == {None} else None
        elif name in ("mod", "add", "sub", "mul", "remainder", "floordiv", "where", "cat", "stack"):
            ks = {self.index_kind(it, a) for a in (args[1:] if name == "where" else args)}
            ik = "int" if ks == {"int"} else None
        if ik:
            c["ik"] = frozenset([ik])
        w["ik"] = ik
        return c, w

    def index_kind(self, it, v):
        out = set()
        for a in v:
            if isinstance(a, K):
                out.add("bool" if isinstance(a.v, bool) else "int" if isinstance(a.v, int) else None)
            elif isinstance(a, Abs):
                if a.kind in ("int", "bool"):
                    out.add(a.kind)
                    continue
                f = it.facts(a).get("ik")
                out |= f if isinstance(f, frozenset) else {f}
            elif isinstance(a, Ref):
                for x in self.items(it, V(a)) or [()]:
                    out.add(self.index_kind(it, x))
            else:
                return None
        return next(iter(out)) if len(out) == 1 else None

    def arg(self, it, args, kwargs, i, *names):
        for n in names:
            if n in kwargs:
                return kwargs[n]
        return args[i] if len(args) > i else None

    def result(self, it, name, args, kwargs):
        a0 = args[0] if args else None
        if name in MAKE:
            if "size" in kwargs:
                return self.sizes(it, [kwargs["size"]])
            vs = list(args)
            if name.startswith("new_"):
                vs = vs[1:]
            if name in ("full", "new_full"):
                vs = vs[:1]
            return self.sizes(it, vs) if vs else None
        if name == "randperm":
            return (self.size(it, a0),)
        if name == "arange":
            vs = [self.const(it, v) for v in args]
            if all(v is not None and isinstance(v.v, int) for v in vs) and not (set(kwargs) & {"start", "end", "step"}):
                return (len(range(*[v.v for v in vs])),)
            return (None,)
        if name == "linspace":
            v = self.arg(it, args, kwargs, 2, "steps")
            return (self.size(it, v),) if v is not None else None
        if name == "randint":
            v = kwargs.get("size") or (args[-1] if args else None)
            ex = self.items(it, v) if v is not None else None
            return tuple(self.size(it, x) for x in ex) if ex is not None else None
        if a0 is None:
            return None
        if name == "normal":
            v = kwargs.get("size") or (args[2] if len(args) > 2 else None)
            ds = [self.dims(it, a) for a in args] if v is None else None
            return self.sizes(it, [v]) if v is not None else broadcast(ds) if None not in ds else None
        d0 = self.dims(it, a0)
        if name in ("tensor", "array"):
            return d0
        if name in ELEMENTWISE or name in ("max", "min") and len(args) == 2 and not kwargs and args[1] and all(isinstance(a, Abs) and a.kind == "tensor" for a in args[1]):
            ds = [self.dims(it, a) for a in args]
            return broadcast(ds) if None not in ds else None
        if name in KEEP:
            return d0
        if name in ("cat", "concat", "concatenate", "hstack", "vstack", "stack"):
            ex = self.items(it, a0)
            if ex is None:
                return None
            ds = [self.dims(it, x) for x in ex]
            if not ds or None in ds or len({len(d) for d in ds}) != 1:
                return None
            v = self.arg(it, args, kwargs, 1, "dim", "axis")
            dim = {"hstack": 1 if len(ds[0]) > 1 else 0, "vstack": 0}.get(name, 0 if v is None else self.size(it, v))
            if dim is None:
                return None
            if name == "stack":
                if dim < 0:
                    dim += len(ds[0]) + 1
                return ds[0][:dim] + (len(ex),) + ds[0][dim:]
            n = len(ds[0])
            if not -n <= dim < n:
                return None
            dim %= n
            tot = None if any(d[dim] is None for d in ds) else sum(d[dim] for d in ds)
            return tuple(tot if j == dim else ds[0][j] for j in range(n))
        if d0 is None:
            return None
        if name == "getitem":
            return self.indexed(it, d0, args[1])
        if name == "iter":
            return d0[1:] if d0 else None
        if name in ("T", "mT", "t"):
            return tuple(reversed(d0)) if len(d0) <= 2 else None
        if name == "diag":
            return d0 * 2 if len(d0) == 1 else None
        if name == "unsqueeze":
            i = self.size(it, self.arg(it, args, kwargs, 1, "dim"))
            if i is None:
                return None
            i = i + len(d0) + 1 if i < 0 else i
            return d0[:i] + (1,) + d0[i:]
        if name == "squeeze" and len(args) == 1 and not kwargs:
            return tuple(x for x in d0 if x != 1) if None not in d0 else None
        if name in ("reshape", "view", "expand"):
            s = self.sizes(it, args[1:]) if len(args) > 1 else None
            if s is None:
                return None
            if name == "expand":
                return tuple((d0[j - len(s)] if x == -1 else x) if -(j - len(s)) <= len(d0) else x for j, x in enumerate(s))
            if -1 in s and None not in s and None not in d0:
                n = m = 1
                for x in d0:
                    n *= x
                for x in s:
                    m *= x if x != -1 else 1
                return tuple(n // m if x == -1 and m else x for x in s)
            return s if -1 not in s else tuple(None if x == -1 else x for x in s)
        if name in ("repeat", "tile") and len(args) > 1:
            s = self.sizes(it, args[1:])
            if s is None or len(s) < len(d0):
                return None
            return tuple(None if x is None or y is None else x * y for x, y in zip((1,) * (len(s) - len(d0)) + d0, s))
        if name in ("flatten", "ravel") and len(args) == 1 and not kwargs:
            n = 1
            for x in d0:
                n = None if x is None or n is None else n * x
            return (n,)
        if name == "index_select":
            i, di = self.size(it, self.arg(it, args, kwargs, 1, "dim")), self.dims(it, self.arg(it, args, kwargs, 2, "index"))
            return d0[:i] + di[:1] + d0[i + 1:] if i is not None and di else None
        if name == "gather":
            return self.dims(it, args[2]) if len(args) > 2 else None
        if name in ("topk.values", "topk.indices"):
            n = self.size(it, self.arg(it, args, kwargs, 1, "k"))
            return d0[:-1] + (n,) if d0 else None
        if name in REDUCE:
            v = self.arg(it, args, kwargs, 1, "dim", "axis")
            if v is None:
                return ()
            i = self.size(it, v)
            if i is None or not -len(d0) <= i < len(d0):
                return None
            i %= len(d0)
            keep = self.const(it, self.arg(it, args, kwargs, 2, "keepdim", "keepdims"))
            return d0[:i] + ((1,) if keep is not None and keep.v else ()) + d0[i + 1:]
        if name in ("matmul", "mm", "mv"):
            d1 = self.dims(it, args[1])
            if d1 is not None and len(d0) == 2 and len(d1) in (1, 2):
                return d0[:1] + d1[1:]
            return None
        return None

    def extent(self, it, bounds, n):
        """Number of items of a slice whose bounds are not constants."""
        return None

    def indexed(self, it, d, idx):
        if len(idx) != 1:
            return None
        a = next(iter(idx))
        parts = None
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is not None and h.kind == "tuple" and h.items is not None:
                parts = list(h.items)
        if parts is None:
            parts = [idx]
        cons = sum(1 for p in parts if not (self.const(it, p) is not None and self.const(it, p).v in (None, Ellipsis)))
        out, j, fancy = [], 0, None
        for p in parts:
            c = self.const(it, p)
            if c is not None and c.v is None:
                out.append(1)
                continue
            if c is not None and c.v is Ellipsis:
                n = len(d) - cons
                out += d[j:j + n]
                j += n
                continue
            if j >= len(d):
                return None
            if len(p) != 1:
                return None
            x = next(iter(p))
            if isinstance(x, K):
                if isinstance(x.v, int) and not isinstance(x.v, bool):
                    j += 1
                    continue
                return None
            if isinstance(x, Abs) and x.kind in ("int", "num"):
                j += 1
                continue
            if isinstance(x, Ref) and it.st.heap.get(x.oid) is not None and it.st.heap[x.oid].kind == "slice":
                b = [self.const(it, y) for y in it.st.heap[x.oid].items]
                if all(y is not None and (y.v is None or isinstance(y.v, int)) for y in b) and d[j] is not None:
                    out.append(len(range(*slice(*[y.v for y in b]).indices(d[j]))))
                elif all(y is not None and y.v is None for y in b):
                    out.append(d[j])
                else:
                    out.append(self.extent(it, it.st.heap[x.oid].items, d[j]))
                j += 1
                continue
            di = self.dims(it, p)
            if di is None:
                return None
            ik = self.index_kind(it, p)
            if fancy is not None and (ik != "int" or fancy[2] != len(out) or fancy[1] is None) or not di and ik != "int" or ik is None and len(di) > 1:
                return None
            if ik == "int":
                if fancy is not None:
                    di = broadcast([fancy[1], di])
                    del out[fancy[0]:]
                fancy = (len(out), di, len(out) + len(di))
                out += di
                j += 1
            else:
                fancy = (len(out), None, None)
                out.append(None)
                j += len(di)
        return tuple(out) + tuple(d[j:])
