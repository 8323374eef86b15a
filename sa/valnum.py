"""Abstract domain: value numbers. Each known value is a term over the inputs; equal terms are equal values.

Facts:
  vn   content fact {number}; view fact (number, number of the storage's content when the view was made, storages)

Terms (interned; numbers index `TERMS`):
  ("in", name) · ("k", constant) · ("l", items...) list · ("t", items...) tuple · ("s", begin, end, step) · (operation, operands...)
  ("getitem", x, index) · ("put", x, index, value): x after x[index] = value · ("eval", x): evaluation results of the solutions x · ("nan", shape) · ("zeros", shape) · ("stretch", x, shape): x repeated
"""
from .shapes import Shapes
from .vals import Abs, K, Ref

TERMS = []
IDS = {}
DIMS = {}  # number -> shape
DRAWS = {}  # number of a random draw -> what it is drawn from
INDEX = {}  # number -> kind of index
SAME = {
    "view_as", "detach", "as_subclass", "to", "contiguous", "as_tensor", "asarray", "data", "cpu", "cuda", "type", "type_as", "numpy", "from_numpy", "float", "double", "half", "requires_grad_",
    "positive", "detach_", "alias", "ascontiguousarray", "asanyarray", "__array__", "_make_subclass", "clone", "copy", "deepcopy", "astype", "tensor", "array", "long", "int", "clone_", "share_memory_", "iterdata",
}
RANDOM = {"rand", "randn", "randint", "randperm", "normal", "multinomial", "bernoulli", "rand_like", "randn_like", "randint_like", "uniform", "random", "normal_", "uniform_", "random_", "bernoulli_", "exponential_", "cauchy_"}
DROP = {"dtype", "device", "generator", "out", "copy", "requires_grad", "memory_format", "non_blocking"}
POSITIONS = {"argmin", "argmax", "argsort", "randperm", "sort.indices", "topk.indices", "min.indices", "max.indices", "nonzero", "arange"}
NANS = {"full", "full_like", "fill", "fill_", "empty", "empty_like", "new_empty", "new_full"}
VIEWS = {"reshape", "view", "unsqueeze", "squeeze", "expand", "flatten", "ravel", "T", "mT", "t", "transpose", "permute", "movedim", "diagonal", "narrow", "iter"}
TAGS = {"in", "k", "l", "t", "s", "put", "eval", "random", "made", "stretch"}
RESHAPED = {"reshape", "view", "unsqueeze", "squeeze", "flatten", "ravel"}


def clear():
    """Forget the values of another harness."""
    for x in (TERMS, IDS, DIMS, DRAWS, INDEX):
        x.clear()


def intern(t):
    key = t + (type(t[1]).__name__,) if t[0] == "k" else t
    i = IDS.get(key)
    if i is None:
        i = IDS[key] = len(TERMS)
        TERMS.append(t)
    return i


def show(i, depth=0):
    t = TERMS[i]
    if depth > 6:
        return "…"
    if t[0] == "k":
        return repr(t[1])
    if t[0] == "in":
        return str(t[1])
    if t[0] == "getitem":
        return f"{show(t[1], depth + 1)}[{show(t[2], depth + 1)}]"
    if t[0] == "s":
        return ":".join("" if x is None or TERMS[x] == ("k", None) else show(x, depth + 1) for x in t[1:])
    if t[0] in ("random", "made"):
        return f"{t[1]}()"
    return f"{t[0]}({', '.join(show(x, depth + 1) if isinstance(x, int) else str(x) for x in t[1:])})"


def const(what, dims):
    i = intern((what, dims))
    if dims is not None:
        DIMS[i] = dims
    return i


def shaped(i, dims):
    """Record the shape of a value."""
    if dims is None:
        return i
    t = TERMS[i]
    if t[0] in ("nan", "zeros"):
        return const(t[0], dims)
    if t[0] not in ("k", "s", "l", "t"):
        DIMS.setdefault(i, dims)
    return i


def stretched(v, dims):
    """The value `v` written to all of a tensor of the given shape."""
    t = TERMS[v]
    if dims is None or DIMS.get(v, ()) == dims:
        return v
    return const(t[0], dims) if t[0] in ("nan", "zeros") else shaped(intern(("stretch", v, dims)), dims)


def is_full(i):
    if i is None:
        return False
    t = TERMS[i]
    return t[0] == "k" and t[1] is Ellipsis or t[0] == "s" and all(TERMS[x] in (("k", None),) for x in t[1:]) or t[0] == "t" and len(t) > 1 and all(is_full(x) for x in t[1:])


def canon_index(i, dims=None):
    """Canonical form of an index into a value of the given shape; None for an index that selects nothing."""
    t = TERMS[i]
    n = intern(("k", None))
    if t[0] == "s":
        b, e, s = t[1:]
        b, s = n if TERMS[b] == ("k", 0) else b, n if TERMS[s] == ("k", 1) else s
        w = dims[0] if dims else None
        if w is not None and all(TERMS[x][0] == "k" and isinstance(TERMS[x][1], (int, type(None))) for x in (b, e, s)):
            r = range(*slice(*[TERMS[x][1] for x in (b, e, s)]).indices(w))
            if not r:
                return None
            if len(r) == w and r.step == 1:
                return intern(("s", n, n, n))
            if r.step == 1:
                return intern(("s", intern(("k", r.start)) if r.start else n, intern(("k", r.stop)), n))
        return intern(("s", b, e, s))
    if t[0] == "k" and isinstance(t[1], int) and not isinstance(t[1], bool) and t[1] < 0 and dims and dims[0]:
        return intern(("k", t[1] + dims[0]))
    if t[0] == "t" and len(t) > 1:
        xs = []
        for j, x in enumerate(t[1:]):
            simple = dims is not None and not any(TERMS[y] in (("k", None), ("k", Ellipsis)) or y in DIMS for y in t[1:])
            xs.append(canon_index(x, dims[j:] if simple else None))
            if xs[-1] is None:
                return None
        while len(xs) > 1 and is_full(xs[-1]):
            xs.pop()
        return xs[0] if len(xs) == 1 else intern(("t",) + tuple(xs))
    return i


def getitem(x, i):
    i = canon_index(i, DIMS.get(x))
    if i is None:
        return const("nan", None)
    if is_full(i):
        return x
    t = TERMS[x]
    if t[0] == "put" and t[2] == i:
        return t[3]
    if t[0] == "put" and apart(t[2], i):
        return getitem(t[1], i)
    if t[0] in ("zeros", "nan"):
        return const(t[0], None)
    if t[0] == "getitem":
        b, c = TERMS[t[2]], TERMS[i]
        if b[0] == "s" and TERMS[b[3]] == ("k", None) and start(b) is not None:
            # rows of a range of rows
            if c[0] == "k" and isinstance(c[1], int) and c[1] >= 0:
                return getitem(t[1], intern(("k", start(b) + c[1])))
            if c[0] == "s" and TERMS[c[3]] == ("k", None) and start(c) is not None and isinstance(TERMS[c[2]][1], int):
                return getitem(t[1], intern(("s", intern(("k", start(b) + start(c))), intern(("k", start(b) + TERMS[c[2]][1])), c[3])))
    return intern(("getitem", x, i))


def start(s):
    t = TERMS[s[1]]
    return 0 if t == ("k", None) else t[1] if t[0] == "k" and isinstance(t[1], int) and t[1] >= 0 else None


def span(i):
    """(first, last + 1) of the rows meant by an index."""
    t = TERMS[i]
    if t[0] == "t":
        t = TERMS[t[1]]
    if t[0] == "k" and isinstance(t[1], int) and not isinstance(t[1], bool) and t[1] >= 0:
        return t[1], t[1] + 1
    if t[0] == "s" and TERMS[t[3]] == ("k", None) and start(t) is not None and TERMS[t[2]][0] == "k" and isinstance(TERMS[t[2]][1], int) and TERMS[t[2]][1] >= 0:
        return start(t), TERMS[t[2]][1]
    return None


def apart(i, j):
    a, b = span(i), span(j)
    return a is not None and b is not None and (a[1] <= b[0] or b[1] <= a[0])


def put(x, i, v):
    i = canon_index(i, DIMS.get(x))
    if i is None:
        return x
    if is_full(i):
        return stretched(v, DIMS.get(x))
    if getitem(x, i) == v:
        return x
    t = TERMS[x]
    if t[0] == "put" and t[2] == i:
        return put(t[1], i, v)
    n = intern(("put", x, i, v))
    if x in DIMS:
        DIMS.setdefault(n, DIMS[x])
    return n


def follow(x, path):
    """The view `path` of the value `x`."""
    for p in path:
        if x is None:
            return None
        x = getitem(x, p[1]) if p[0] == "getitem" else intern((p[0], x) + p[1:-1])
        if x is not None:
            x = shaped(x, p[-1])
    return x


def write(x, path, v):
    """The value `x` after its view `path` became `v`."""
    if not path:
        return v
    p = path[0]
    if p[0] != "getitem" and (p[0] not in RESHAPED or x not in DIMS or None in DIMS[x]):
        return None
    y = follow(x, path[:1])
    y = write(y, path[1:], v) if y is not None else None
    if p[0] == "getitem" or y is None:
        return None if y is None else put(x, p[1], y)
    return shaped(intern(("reshape", y, intern(("t",) + tuple(intern(("k", n)) for n in DIMS[x])))), DIMS[x])


class ValueNumbers(Shapes):
    """Value numbers together with shapes."""

    name = "vn"

    def __init__(self):
        for t in (TERMS, IDS, DIMS, INDEX):
            t.clear()

    # -------------------------------------------------------------- reading
    def content(self, it, stors):
        out = set()
        for s in stors:
            f = (it.st.content.get(s) or {}).get("vn")
            if not f:
                return None
            out |= f
        if len(out) == 1:
            return next(iter(out))
        ds = {DIMS.get(x) for x in out}
        return shaped(intern(("any",) + tuple(sorted(out))), next(iter(ds)) if len(ds) == 1 else None) if len(out) <= 8 else None

    def atom(self, it, a):
        if isinstance(a, K):
            if isinstance(a.v, float) and a.v != a.v:
                return const("nan", ())
            try:
                hash(a.v)
            except TypeError:
                return None
            return intern(("k", a.v))
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is None:
                return None
            if h.kind == "slice" and h.items is not None:
                ps = [self.of(it, x) for x in h.items]
                return None if None in ps else intern(("s",) + tuple(ps))
            if h.kind in ("list", "tuple") and h.items is not None:
                ps = [self.of(it, x) for x in h.items]
                return None if None in ps else intern(("t" if h.kind == "tuple" else "l",) + tuple(ps))
            return None
        if isinstance(a, Abs):
            if not a.stors:
                return dict(a.view).get("vn")
            cur, path = self.content(it, a.stors), self.path(a)
            return None if cur is None or path is None else follow(cur, path)
        return None

    def path(self, a):
        d = dict(a.view)
        return d.get("@vn") if "@vn" in d else None if d.get("part") else ()

    def of(self, it, v):
        out = {self.atom(it, a) for a in v}
        return next(iter(out)) if len(out) == 1 else None

    # -------------------------------------------------------------- operations
    def op(self, it, name, args, kwargs, node):
        c, w = Shapes.op(self, it, name, args, kwargs, node) or ({}, None)
        if name == "setitem" or it.inplace:
            x, at = None, args[0]
            if name != "setitem":
                x = self.term(it, name, args, kwargs, node)
                if x is None:
                    x = intern(("made", name) + self.here(it, node))
                x = shaped(x, self.dims(it, at))
            elif len(args) >= 3:
                t, i, v = self.of(it, at), self.of(it, args[1]), self.of(it, args[2])
                if None not in (t, i) and canon_index(i, DIMS.get(t)) is None:
                    x = t
                elif None not in (t, i):
                    x = put(t, i, v if v is not None else shaped(intern(("made", name) + self.here(it, node)), self.indexed(it, self.dims(it, at), args[1]) if self.dims(it, at) else None))
                elif i is not None and is_full(canon_index(i, self.dims(it, at))):
                    x = stretched(v, self.dims(it, at)) if v is not None else shaped(intern(("made", name) + self.here(it, node)), self.dims(it, at))
            x = self.overwritten(it, at, x)
            return (c, w) if x is None else (dict(c, vn=frozenset([x]), **{"$full": True}), w)
        w = dict(w or {})
        if name in ("lt", "ge") and len(args) == 2 and self.size(it, args[1]) == 0 and self.counted(self.of(it, args[0])):
            return c, {"const": name == "ge"}
        x = self.term(it, name, args, kwargs, node)
        if x is None and isinstance(w.get("dims"), tuple) and w["dims"] and name != "getitem" and name not in VIEWS and name not in SAME:
            x = intern(("made", name) + self.here(it, node))
        if x is not None:
            if isinstance(w.get("dims"), tuple):
                x = shaped(x, w["dims"])
                if w.get("ik"):
                    INDEX.setdefault(x, w["ik"])
            c = dict(c, vn=frozenset([x]))
        w["@vn"] = self.extend(it, name, args, kwargs, w.get("dims"))
        return c, w

    def extent(self, it, bounds, n):
        b, e, s = (self.of(it, x) for x in bounds)
        if b is None or e is None or s is None or TERMS[s] not in (("k", None), ("k", 1)) or not self.counted(b):
            return None
        t = TERMS[e]
        k = [TERMS[x] for x in t[1:] if x != b] if t[0] == "add" and len(t) == 3 and b in t[1:] else []
        return 1 if k == [("k", 1)] else None

    def counted(self, i):
        """Whether a value is a position counted from 0."""
        t = TERMS[i] if i is not None else ("",)
        return t[0] in POSITIONS or t[0] in ("getitem", "item") and self.counted(t[1])

    def extend(self, it, name, args, kwargs, dims):
        at = [a for a in args[0] if isinstance(a, Abs) and a.stors] if args else []
        if len(at) != 1:
            return None
        p = self.path(at[0])
        if p is None or name in TAGS and name != "t":
            return None
        name = "T" if name == "t" else name
        if name in SAME:
            d = self.reshaping(it, name, args)
            return p if d is None else p + (("reshape",) + d,)
        if name == "getitem" or name in VIEWS:
            ps = [self.of(it, x) for x in args[1:]] + [(q, self.of(it, x)) for q, x in sorted(kwargs.items())]
            if None not in ps and all(not isinstance(q, tuple) or q[1] is not None for q in ps):
                return p + ((name,) + tuple(ps) + (dims,),)
        return None

    def reshaping(self, it, name, args):
        """The new shape, if `x.view_as(y)` changes the shape."""
        if name != "view_as" or len(args) < 2:
            return None
        a, b = self.dims(it, args[0]), self.dims(it, args[1])
        if a is None or b is None or None in b or a == b:
            return None
        return intern(("t",) + tuple(intern(("k", n)) for n in b)), b

    def overwritten(self, it, v, x):
        at = [a for a in v if isinstance(a, Abs) and a.stors]
        if len(at) != 1 or len(v) != 1 or x is None:
            return None
        p = self.path(at[0])
        if p == ():
            return x
        cur = self.content(it, at[0].stors)
        return None if p is None or cur is None else write(cur, p, x)

    def here(self, it, node):
        return (str(getattr(node, "_sid", 0)), str(it.fr.ctx), str(it.fr.iters))

    def drawn(self, it, name, args, kwargs, node):
        """(operands, options, what identifies the draw, whether batched calls allow it)"""
        items = getattr(it, "items_of_calls", ())
        mode = "error" if any(m == "error" for m, _, _ in items) else ""
        n = getattr(it, "draws", 0)
        it.draws = n + 1
        which = (str(getattr(node, "_sid", 0)), n, tuple("same" if m == "same" else (m, j) for m, j, _ in items)) if any(m == "same" for m, _, _ in items) else (str(getattr(node, "_sid", 0)), str(it.fr.ctx), str(it.fr.iters))
        sizes = name in ("rand", "randn", "randint", "randperm")
        inner = args[1:] if it.inplace or name.endswith("_") or name.endswith("_like") else args
        return () if sizes else tuple(self.of(it, x) for x in inner), tuple((q, self.of(it, x)) for q, x in sorted(kwargs.items()) if q not in DROP), which, mode

    def term(self, it, name, args, kwargs, node):
        if name in RANDOM:
            i = intern(("random", name) + self.here(it, node))
            d = self.drawn(it, name, args, kwargs, node)
            o = DRAWS.setdefault(i, d)
            if o is None or o[:2] != d[:2]:
                DRAWS[i] = None
            return i
        base = name.rstrip("_") if it.inplace else name
        if base in TAGS:
            # not to be confused with the tags of terms
            if base != "t":
                return None
            base = "T"
        if base == "copy" and it.inplace and len(args) > 1:
            return self.of(it, args[1])
        if base == "zero":
            return intern(("zeros", None))
        if base in ("zeros", "zeros_like", "new_zeros"):
            return intern(("zeros", None))
        if base in NANS:
            v = args[-1] if args else None
            if base.startswith("empty") or base == "new_empty":
                return intern(("nan", None))
            vn = [a.v for a in v if isinstance(a, K)] if v else []
            vn += [a.v for a in kwargs.get("fill_value", ()) if isinstance(a, K)]
            if vn and isinstance(vn[-1], float):
                return intern(("nan", None)) if vn[-1] != vn[-1] else intern(("fill", vn[-1]))
            return None
        if not args:
            return None
        if base in SAME:
            d = self.reshaping(it, base, args)
            x = self.of(it, args[0])
            return x if d is None or x is None else shaped(intern(("reshape", x, d[0])), d[1])
        vs = [self.of(it, a) for a in args]
        kw = tuple((n, self.of(it, kwargs[n])) for n in sorted(kwargs) if n not in DROP)
        if None in vs or any(x is None for _, x in kw):
            return None
        if base == "getitem" and len(vs) == 2:
            return getitem(vs[0], vs[1])
        if base == "index_select":
            d = dict(kw)
            dim = vs[1] if len(vs) > 1 else d.get("dim")
            ix = vs[2] if len(vs) > 2 else d.get("index")
            if dim is not None and ix is not None and TERMS[dim] == ("k", 0):
                return getitem(vs[0], ix)
        if base in ("cat", "concat", "concatenate", "vstack"):
            d = dict(kw)
            dim = vs[1] if len(vs) > 1 else d.get("dim", d.get("axis"))
            dv = 0 if dim is None or base == "vstack" else TERMS[dim][1] if TERMS[dim][0] == "k" else None
            if TERMS[vs[0]][0] in ("l", "t") and dv == 0:
                return intern(("cat",) + TERMS[vs[0]][1:])
        return intern((base,) + tuple(vs) + kw)


# ------------------------------------------------------------------ rows
class Rows:
    """Which solution each row of a value belongs to. A value is ("rows", r0, r1, ...) or ("one", r); None when not understood.

    A row is (leaf, number), ("nan",), ("pick", rows, index term, j) or a mix of others.
    """

    def __init__(self):
        self.memo = {}

    def of(self, i):
        if i not in self.memo:
            self.memo[i] = None
            self.memo[i] = self.compute(i)
        return self.memo[i]

    def compute(self, i):
        t = TERMS[i]
        d = DIMS.get(i)
        if t[0] == "in":
            return ("rows",) + tuple((t[1], j) for j in range(d[0])) if d and d[0] is not None else None
        if t[0] in ("random",):
            return ("rows",) + tuple(("sampled", i, j) for j in range(d[0])) if d and d[0] is not None and len(d) > 1 else None
        if t[0] == "nan":
            return ("nan",)
        if t[0] == "stretch":
            b = self.of(t[1])
            if b is not None:
                return ("rows",) + b[1:] * d[0] if b[0] in ("rows", "one") and len(b) == 2 and d[0] is not None else b if b == ("nan",) else None
        if t[0] == "eval":
            return self.of(t[1])
        if t[0] in ("reshape", "view", "unsqueeze", "expand", "squeeze", "flatten"):
            b, d0 = self.of(t[1]), DIMS.get(t[1])
            if b is None or b[0] == "nan":
                return b
            if b[0] == "rows":
                return b if d and d[0] == len(b) - 1 else ("one", b[1]) if len(b) == 2 and d is not None else None
            return b if d0 is not None and d == d0 else ("rows", b[1]) if d and d[0] == 1 else b if d == () else None
        if t[0] in ("cat", "hstack", "column_stack"):
            ps = [self.of(x) for x in t[1:] if isinstance(x, int)]
            if t[0] != "cat":
                ps = [self.of(x) for x in TERMS[t[1]][1:]] if TERMS[t[1]][0] in ("l", "t") else [None]
                if None in ps:
                    return None
                ps = [p for p in ps if p != ("nan",)]
                return ps[0] if ps and all(p == ps[0] for p in ps) else self.mixed(ps)
            if None in ps or any(p[0] != "rows" for p in ps):
                return None
            return ("rows",) + tuple(r for p in ps for r in p[1:])
        if t[0] == "stack" and len(t) == 2 and TERMS[t[1]][0] in ("l", "t"):
            ps = [self.of(x) for x in TERMS[t[1]][1:]]
            return ("rows",) + tuple(p[1] for p in ps) if ps and all(p is not None and p[0] == "one" for p in ps) else None
        if t[0] in ("flip", "flipud", "roll"):
            return self.moved(t, d)
        if t[0] == "getitem":
            return self.pick(self.of(t[1]), t[2], DIMS.get(t[1]))
        if t[0] == "put":
            r = self.put(t, d or DIMS.get(t[1]))
            if r is not None or self.of(t[3]) is not None:
                return r
        if t[0] == "where" and len(t) == 4:
            a, b, m = self.of(t[2]), self.of(t[3]), mask(t[1])
            if a is None or b is None or m is None:
                return None
            if a == b:
                return a
            if a[0] == "nan" or b[0] == "nan":
                return None
            if a[0] == "rows" and b[0] == "rows" and len(a) == len(b):
                return ("rows",) + tuple(x if x == y else ("where", m, j, x, y) for j, (x, y) in enumerate(zip(a[1:], b[1:])))
        if d and len(d) > 1 and d[0] is not None and t[0] not in ("zeros", "fill"):
            return ("rows",) + tuple(("made" if ("eval", i) in IDS and t[0] != "any" else "opaque", i, j) for j in range(d[0]))
        return None

    def moved(self, t, d):
        """Rows in the reverse order, or shifted."""
        b = self.of(t[1])
        ks = [plain(x[1] if isinstance(x, tuple) else x) for x in t[2:]]
        if b is None or b[0] == "nan" or not d or "?" in ks:
            return b if b == ("nan",) else None
        if t[0] == "flip":
            dims = {x % len(d) for k in ks for x in (k if isinstance(k, tuple) else (k,))}
            if 0 not in dims:
                return b
        if t[0] == "roll":
            if len(ks) != 2 or not isinstance(ks[0], int) or ks[1] not in (0, (0,)):
                return None
            if b[0] == "rows" and len(b) > 1:
                k = ks[0] % (len(b) - 1)
                return ("rows",) + b[len(b) - k:] + b[1:len(b) - k] if k else b
        return ("rows",) + tuple(reversed(b[1:])) if b[0] == "rows" and t[0] != "roll" else None

    def mixed(self, ps):
        if ps and all(p[0] == "rows" and len(p) == len(ps[0]) for p in ps):
            return ("rows",) + tuple(r[0] if len(set(r)) == 1 else ("mix",) + tuple(r) for r in zip(*[p[1:] for p in ps]))
        return None

    def index(self, i):
        """(row index, whether all columns are meant)"""
        t = TERMS[i]
        if t[0] == "t" and len(t) > 1:
            return t[1], False, t[2:]
        return i, True, ()

    def positions(self, r, n):
        """Rows meant by a constant index: (list of positions, whether a single row) or None."""
        t = TERMS[r]
        if t[0] == "k" and isinstance(t[1], int) and not isinstance(t[1], bool):
            return ([t[1] % n], True) if n and -n <= t[1] < n else None
        if t[0] == "k" and t[1] is Ellipsis:
            return list(range(n)), False
        if t[0] == "s":
            c = [TERMS[x] for x in t[1:]]
            if all(x[0] == "k" and (x[1] is None or isinstance(x[1], int)) for x in c):
                return list(range(*slice(*[x[1] for x in c]).indices(n))), False
        if t[0] == "l":
            c = [TERMS[x] for x in t[1:]]
            if all(x[0] == "k" and isinstance(x[1], int) and not isinstance(x[1], bool) and -n <= x[1] < n for x in c):
                return [x[1] % n for x in c], False
        if t[0] == "arange" and len(t) == 2 and TERMS[t[1]][0] == "k":
            return list(range(TERMS[t[1]][1])), False
        return None

    def pick(self, b, idx, dims):
        if b is None or b[0] == "nan":
            return b
        r, _, _ = self.index(idx)
        if b[0] == "one":
            return b
        n = len(b) - 1
        p = self.positions(r, n)
        if p is not None:
            if any(j >= n for j in p[0]):
                return None
            return ("one", b[1 + p[0][0]]) if p[1] else ("rows",) + tuple(b[1 + j] for j in p[0])
        d = DIMS.get(r)
        if d is not None and INDEX.get(r) == "int" and len(d) == 1 and d[0] is not None:
            return ("rows",) + tuple(("pick", b, r, j) for j in range(d[0]))
        if d == () and INDEX.get(r) == "int":
            return ("one", ("pick", b, r, 0))
        return ("rows", ("pick", b, r, None))

    def put(self, t, dims):
        b, v = self.of(t[1]), self.of(t[3])
        r, allc, cols = self.index(t[2])
        if v is None:
            return None
        if dims is None or not dims or dims[0] is None:
            return None
        n = dims[0]
        if b is None:
            if not (allc or self.all_columns(cols, dims)):
                return None
            b = ("rows",) + (("?",),) * n
        if b[0] == "nan":
            b = ("rows",) + (("nan",),) * n
        if b[0] != "rows":
            return None
        if not allc:
            k = self.all_columns(cols, dims)
            if k == "none":
                return b
            allc = bool(k)
        old = list(b[1:])
        p = self.positions(r, n)
        if p is None:
            new = self.pick(b, t[2], dims)
            if v == new:
                return b
            d = DIMS.get(r)
            if v[0] == "nan":
                return ("rows",) + tuple(("put", x, r, j, ("nan",)) for j, x in enumerate(old))
            return ("rows",) + tuple(("put", x, r, j, v) for j, x in enumerate(old))
        pos = p[0]
        if v[0] == "rows" and len(v) == 2 and len(pos) > 1:
            v = ("one", v[1])
        if v[0] == "rows" and len(v) - 1 != len(pos):
            return None
        for x, j in enumerate(pos):
            nv = v if v[0] == "nan" else v[1] if v[0] == "one" else v[1 + x]
            if allc or old[j] == ("nan",):
                old[j] = nv
            elif nv != ("nan",) and nv != old[j]:
                old[j] = ("mix", old[j], nv)
        return ("rows",) + tuple(old)

    def all_columns(self, cols, dims):
        """True: all columns, "none": no column, False: some."""
        out = True
        for c, w in zip(cols, dims[1:]):
            t = TERMS[c]
            if is_full(c):
                continue
            if w is None:
                return False
            if t[0] == "s":
                k = [TERMS[x] for x in t[1:]]
                if all(x[0] == "k" for x in k):
                    m = len(range(*slice(*[x[1] for x in k]).indices(w)))
                    if m == w:
                        continue
                    if m == 0:
                        return "none"
            if t[0] == "k" and w == 1:
                continue
            out = False
        return out


class Columns:
    """Which result each column of evaluation results holds: a tuple of numbers, "-" for unevaluated and "mix"; None when not understood."""

    def of(self, i):
        t = TERMS[i]
        d = DIMS.get(i)
        if t[0] == "eval":
            m, off = (t[2:] + (None, 0))[:2] if len(t) < 4 else t[2:4]
            return tuple(range(off or 0, (off or 0) + (m or 1)))
        if t[0] == "nan":
            return ("-",) * d[-1] if d and d[-1] is not None else None
        if t[0] in ("reshape", "view", "unsqueeze", "squeeze", "flatten", "flip", "flipud", "roll"):
            b = self.of(t[1])
            return b if b is not None and (len(b) == 1 or d and d[-1] == len(b) and t[0] in ("reshape", "view", "unsqueeze", "flipud")) else None
        if t[0] in ("hstack", "column_stack"):
            ps = [self.of(x) for x in TERMS[t[1]][1:]] if TERMS[t[1]][0] in ("l", "t") else [None]
            return None if None in ps else sum(ps, ())
        if t[0] == "cat":
            ps = {self.of(x) for x in t[1:] if isinstance(x, int)}
            return next(iter(ps)) if len(ps) == 1 else None
        if t[0] == "getitem":
            return self.chosen(self.of(t[1]), t[2], DIMS.get(t[1]))
        if t[0] == "put":
            return self.put(t, d or DIMS.get(t[1]))
        return None

    def places(self, i, dims, w):
        """Numbers of the columns meant by an index."""
        t = TERMS[i]
        if t[0] != "t":
            return list(range(w)) if dims is not None and len(dims) == 2 else None
        if dims is None or len(dims) != 2 or len(t) != 3:
            return None
        p = Rows().positions(t[2], w)
        return None if p is None else p[0]

    def chosen(self, b, i, dims):
        if b is None:
            return None
        if dims is not None and len(dims) == 1:
            return b if len(b) == 1 else None
        p = self.places(i, dims, len(b))
        return None if p is None else tuple(b[j] for j in p)

    def put(self, t, dims):
        b, v = self.of(t[1]), self.of(t[3])
        if b is None and dims is not None and len(dims) == 2 and dims[1] is not None:
            b = ("?",) * dims[1]
        if b is None or dims is None or len(dims) != 2:
            return None
        p = self.places(t[2], dims, len(b))
        if p is None:
            return None
        if v is None and TERMS[t[3]][0] == "nan":
            v = ("-",)
        if v is not None and len(v) == 1:
            v = v * len(p)
        if v is None or len(v) != len(p):
            return None
        out = list(b)
        for x, j in zip(v, p):
            if x != "-":
                out[j] = x if out[j] in ("-", "?", x) else "mix"
        return tuple(out)


def plain(i):
    """The constant meant by a term, "?" when it is none."""
    t = TERMS[i]
    if t[0] == "k":
        return t[1]
    if t[0] in ("l", "t"):
        r = tuple(plain(x) for x in t[1:])
        return "?" if "?" in r else r
    return "?"


def mask(i):
    t = TERMS[i]
    while t[0] in ("unsqueeze", "expand", "reshape", "view", "expand_as", "broadcast_to", "getitem") and (t[0] != "getitem" or has_none(t[2])):
        i = t[1]
        t = TERMS[i]
    return i


def has_none(i):
    t = TERMS[i]
    return t == ("k", None) or t[0] in ("l", "t") and any(TERMS[x] == ("k", None) for x in t[1:])


def agree(a, b):
    """True / False / None (not known): whether row `a` (of values) and row `b` (of evaluation results) belong to the same solution; unevaluated rows agree with everything."""
    if b == ("nan",) or a == b:
        return True
    if ("?",) in (a, b):
        return None
    if a[0] == b[0] == "where" and a[1:3] == b[1:3]:
        rs = [agree(x, y) for x, y in zip(a[3:], b[3:])]
        return False if False in rs else None if None in rs else True
    if a[0] == b[0] == "put" and a[2:4] == b[2:4]:
        if b[4] == ("nan",):
            return agree(a[1], b[1])
        if a[4][0] == "rows" and b[4][0] == "rows" and len(a[4]) == len(b[4]):
            rs = [agree(a[1], b[1])] + [agree(x, y) for x, y in zip(a[4][1:], b[4][1:])]
            return False if False in rs else None if None in rs else True
        if a[4][0] == b[4][0] == "one":
            rs = [agree(a[1], b[1]), agree(a[4][1], b[4][1])]
            return False if False in rs else None if None in rs else True
    if b[0] == "put" and b[4] == ("nan",) or b[0] == "where" and ("nan",) in b[3:]:
        return None
    if a[0] == b[0] == "pick" and a[2:] == b[2:] and len(a[1]) == len(b[1]):
        rs = [agree(x, y) for x, y in zip(a[1][1:], b[1][1:])]
        return True if all(r is True for r in rs) else None if False not in rs else False
    x, y = opaque(a), opaque(b)
    return False if "?" not in x | y and (x <= y or y <= x) and (x and y or not x and not y) else None


def opaque(r):
    """The values of unknown origin that a row may belong to."""
    if r[:1] in (("opaque",), ("?",)):
        return {r[1] if len(r) > 1 else "?"}
    return {y for x in r if isinstance(x, tuple) and x for y in opaque(x)}


def tell(r):
    if not isinstance(r, tuple):
        return str(r)
    if r == ("nan",):
        return "unevaluated"
    if r[0] == "pick":
        return f"solution {'' if r[3] is None else str(r[3]) + ' '}picked by {show(r[2])[:60]}"
    if r[0] == "where":
        return f"either {tell(r[3])} or {tell(r[4])}"
    if r[0] == "put":
        return f"{tell(r[1])} overwritten at {show(r[2])[:60]}"
    if r[0] in ("sampled", "made", "opaque"):
        return f"solution {r[2]} of {show(r[1])[:80]}"
    if r[0] == "mix":
        return "mix of " + " and ".join(tell(x) for x in r[1:])
    return f"solution {r[1]} of {r[0]}"
