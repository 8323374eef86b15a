"""Batch items: what each element of a result is computed from, as an expression over the elements of the inputs.

An element is a number of `NODES`: ("el", input, position) · ("k", constant) · ("draw", operation, which, position, operands...) · (operation, options, operands...)
"""
from math import prod

from .base import kconst
from .events import found
from .flat import Flat, strides
from .pairing import INTR as PAIRING
from .pairing import domain
from .shapes import broadcast
from .valnum import DRAWS, IDS, INDEX, TERMS
from .vals import NONE

NODES, NUMBERS = [], {}
EACH = {
    "add", "sub", "rsub", "radd", "mul", "truediv", "div", "true_divide", "divide", "multiply", "subtract", "floordiv", "floor_divide", "mod", "remainder", "fmod", "pow", "neg", "abs", "absolute", "exp", "exp2", "expm1", "log", "log1p", "log2",
    "log10", "sqrt", "rsqrt", "square", "sign", "sin", "cos", "tan", "tanh", "sigmoid", "relu", "clamp", "clip", "clamp_min", "clamp_max", "maximum", "minimum", "max2", "min2", "where", "eq", "ne", "lt", "le", "gt", "ge", "and", "or", "xor", "not",
    "invert", "logical_and", "logical_or", "logical_not", "logical_xor", "bitwise_and", "bitwise_or", "bitwise_not", "isnan", "isfinite", "isinf", "nan_to_num", "reciprocal", "round", "floor", "ceil", "trunc", "erf", "erfinv", "lerp", "addcmul", "addcdiv",
    "bool", "long", "int", "float", "double", "half", "softplus", "atan2", "hypot", "negative", "positive", "item", "power", "fmax", "fmin", "masked_fill", "nan_to_num",
}
ALONG = {"sum", "mean", "prod", "amax", "amin", "max", "min", "any", "all", "norm", "vector_norm", "std", "var", "argmin", "argmax", "logsumexp", "median", "nansum", "nanmean", "max.values", "max.indices", "min.values", "min.indices", "count_nonzero", "median.values", "median.indices"}
WITHIN = {"sort.values", "sort.indices", "argsort", "cumsum", "cumprod", "softmax", "log_softmax", "cummax.values", "cummin.values", "msort"}
ALONE = {"unbiased", "correction", "descending", "stable", "largest", "sorted", "keepdim", "keepdims", "dim", "axis", "p", "ord", "k", "rounding_mode", "nan", "posinf", "neginf", "min", "max", "a_min", "a_max", "value", "alpha", "weight"}
OPERANDS = {"min", "max", "a_min", "a_max", "value", "other", "input", "weight", "end", "exponent"}


def node(*t):
    i = NUMBERS.get(t)
    if i is None:
        i = NUMBERS[t] = len(NODES)
        NODES.append(t)
    return i


def plain(i):
    """The constant (or tuple of constants) of a term; raises KeyError when it is none."""
    t = TERMS[i]
    if t[0] == "k":
        return t[1]
    if t[0] in ("t", "l"):
        return tuple(plain(x) for x in t[1:])
    raise KeyError


def whole(i):
    """Whether a term is a tensor of positions."""
    t = TERMS[i]
    return INDEX.get(i) == "int" or t[0] == "arange" or t[0] == "put" and TERMS[t[1]][0] in ("nan", "zeros", "made") and whole(t[3])


class Items(Flat):
    def compute(self, t, d):
        n = t[0]
        d = None if d is not None and None in d else d
        if d is not None and prod(d) > 4096:
            return None
        try:
            if n == "in":
                return None if d is None else (d, tuple(node("el", t[1], j) for j in range(prod(d))))
            if n == "k":
                return ((), (node("k", t[1]),)) if isinstance(t[1], (int, float)) else None
            if n in ("zeros", "ones", "fill", "nan"):
                return None if d is None else (d, (node("k", {"zeros": 0, "ones": 1, "nan": "nan"}.get(n, t[1])),) * prod(d))
            if n == "random":
                return self.drawn(t, d)
            if n == "arange" and d is not None and all(isinstance(x, int) for x in t[1:]):
                r = range(*[int(plain(x)) for x in t[1:]])
                return (d, tuple(node("k", x) for x in r)) if len(r) == prod(d) else None
            if n in ("linspace", "eye", "logspace", "ones_like", "full", "full_like") and d is not None:
                ks = tuple(plain(x) for x in (t[2:] if n.endswith("_like") else t[1:]) if isinstance(x, int))
                return d, tuple(node(n, ks, j if n in ("linspace", "eye", "logspace") else 0) for j in range(prod(d)))
            b = Flat.compute(self, t, d)
            if b is not None:
                return b
            ps = [x for x in t[1:] if isinstance(x, int)]
            kw = {x[0]: x[1] for x in t[1:] if isinstance(x, tuple)}
            if n in ("max", "min") and len(ps) == 2 and not kw and TERMS[ps[1]][0] != "k":
                n = n + "imum"
            if n in EACH:
                return self.each(n, ps, kw)
            if n in ALONG:
                return self.along(n, ps, kw)
            if n in WITHIN:
                return self.within(n, ps, kw)
            if n in ("topk.values", "topk.indices"):
                return self.top(n, ps, kw)
            if n in ("matmul", "mm", "mv", "dot", "inner", "bmm", "vdot"):
                return self.product(ps) if not kw else None
            if n == "getitem":
                return self.picked(ps)
            if n == "put":
                return self.written(ps)
            if n in ("gather", "take_along_dim", "index_select"):
                return self.gathered(n, ps, kw)
            if n in ("repeat", "tile"):
                return self.repeated(ps) if not kw else None
            if n == "stack":
                return self.stack(ps, kw)
        except KeyError:
            pass
        return None

    def drawn(self, t, d):
        r = DRAWS.get(IDS.get(t))
        if d is None or r is None:
            return None
        args, kw, which, mode = r
        more = [()] * prod(d)
        for x in [x for x in args] + [x[1] for x in kw if x[0] not in ("size", "dtype", "device", "generator")]:
            if x is None:
                return None
            try:
                plain(x)
                continue
            except KeyError:
                pass
            b = self.of(x)
            b = self.broadcast(b, d) if b is not None else None
            if b is None:
                return None
            more = [m + (y,) for m, y in zip(more, b[1])]
        return d, tuple(node("draw", t[1] if mode != "error" else "!" + t[1], which, j) if not m else node("from", node("draw", t[1], which, j), *m) for j, m in enumerate(more))

    def each(self, n, ps, kw):
        opts = tuple(sorted((q, plain(x)) for q, x in kw.items() if q not in OPERANDS))
        names = tuple(sorted(q for q in kw if q in OPERANDS))
        none = tuple(j for j, x in enumerate(ps) if TERMS[x] == ("k", None))
        bs = [self.of(x) for x in ps if TERMS[x] != ("k", None)] + [self.of(kw[q]) for q in names]
        if None in bs or not bs:
            return None
        d = broadcast([b[0] for b in bs])
        bs = [self.broadcast(b, d) for b in bs]
        if None in bs:
            return None
        return d, tuple(node(n, (opts, names, none), *xs) for xs in zip(*[b[1] for b in bs]))

    def axis(self, x, nd, default=None):
        v = default if x is None else plain(x)
        if v is None:
            return None
        v = (v,) if isinstance(v, int) else v
        if any(type(y) is not int or not -nd <= y < nd for y in v):
            raise KeyError
        return tuple(y % nd for y in v)

    def along(self, n, ps, kw):
        b = self.of(ps[0])
        if b is None:
            return None
        at = 2 if n in ("norm", "vector_norm") else 1
        kw = dict(kw)
        rest = list(ps[1:])
        dim = kw.pop("dim", kw.pop("axis", None))
        keep = kw.pop("keepdim", kw.pop("keepdims", None))
        if dim is None and len(rest) >= at and not (n in ("std", "var") and TERMS[rest[at - 1]] in (("k", True), ("k", False))):
            dim = rest.pop(at - 1)
            if keep is None and len(rest) >= at:
                keep = rest.pop(at - 1)
        opts = tuple(plain(x) for x in rest) + tuple(sorted((q, plain(x)) for q, x in kw.items()))
        ax = self.axis(dim, len(b[0])) or tuple(range(len(b[0])))
        keep = keep is not None and plain(keep)
        st = strides(b[0])
        groups = [0]
        for j in ax:
            groups = [p + x * st[j] for p in groups for x in range(b[0][j])]
        pos, shape = [0], []
        for j, m in enumerate(b[0]):
            if j in ax:
                shape += [1] if keep else []
                continue
            shape.append(m)
            pos = [p + x * st[j] for p in pos for x in range(m)]
        return tuple(shape), tuple(node(n, opts, *[b[1][p + g] for g in groups]) for p in pos)

    def lines(self, b, j):
        """For each element, the elements along dimension `j`, and its place in it."""
        st = strides(b[0])
        for p in range(len(b[1])):
            x = p // st[j] % b[0][j]
            yield x, tuple(b[1][p + (y - x) * st[j]] for y in range(b[0][j]))

    def within(self, n, ps, kw):
        b = self.of(ps[0])
        if b is None or not b[0]:
            return None
        kw = dict(kw)
        dim = kw.pop("dim", kw.pop("axis", None))
        rest = list(ps[1:])
        if dim is None and rest:
            dim = rest.pop(0)
        ax = self.axis(dim, len(b[0]), 0 if n == "msort" else -1)
        if len(ax) != 1:
            return None
        opts = tuple(plain(x) for x in rest) + tuple(sorted((q, plain(x)) for q, x in kw.items()))
        return b[0], tuple(node(n, opts + (x,), *(l[:x + 1] if n.startswith("cum") else l)) for x, l in self.lines(b, ax[0]))

    def top(self, n, ps, kw):
        b = self.of(ps[0])
        k = plain(kw["k"] if "k" in kw else ps[1]) if "k" in kw or len(ps) > 1 else None
        if b is None or not b[0] or type(k) is not int:
            return None
        dim = self.axis(kw.get("dim", ps[2] if len(ps) > 2 else None), len(b[0]), -1)[0]
        opts = tuple(plain(x) for x in ps[3:]) + tuple(sorted((q, plain(x)) for q, x in kw.items() if q not in ("k", "dim")))
        shape = b[0][:dim] + (k,) + b[0][dim + 1:]
        s, t = strides(b[0]), strides(shape)
        out = []
        for p in range(prod(shape)):
            at = [p // t[j] % shape[j] for j in range(len(shape))]
            base = sum(0 if j == dim else at[j] * s[j] for j in range(len(shape)))
            out.append(node(n, opts + (at[dim],), *[b[1][base + y * s[dim]] for y in range(b[0][dim])]))
        return shape, tuple(out)

    def product(self, ps):
        a, b = self.of(ps[0]), self.of(ps[1])
        if a is None or b is None or not a[0] or not b[0]:
            return None
        one, two = len(a[0]) == 1, len(b[0]) == 1
        sa, sb = ((1,) + a[0]) if one else a[0], (b[0] + (1,)) if two else b[0]
        if sa[-1] != sb[-2]:
            return None
        lead = broadcast([sa[:-2], sb[:-2]]) if sa[:-2] or sb[:-2] else ()
        a, b = self.broadcast((sa, a[1]), lead + sa[-2:]), self.broadcast((sb, b[1]), lead + sb[-2:])
        if a is None or b is None:
            return None
        m, k, n = sa[-2], sa[-1], sb[-1]
        out = []
        for l in range(prod(lead)):
            for x in range(m):
                for y in range(n):
                    out.append(node("dot", (), *[z for w in range(k) for z in (a[1][(l * m + x) * k + w], b[1][(l * k + w) * n + y])]))
        return lead + (() if one else (m,)) + (() if two else (n,)), tuple(out)

    def parts(self, idx, nd):
        """An index with one part that depends on data: (dimension, index); None when it is another kind of index."""
        ps = list(TERMS[idx][1:]) if TERMS[idx][0] == "t" else [idx]
        dots = [j for j, x in enumerate(ps) if TERMS[x] == ("k", Ellipsis)]
        if len(dots) > 1 or any(TERMS[x] == ("k", None) for x in ps):
            return None
        if dots:
            ps[dots[0]:dots[0] + 1] = [None] * (nd - len(ps) + 1)
        at = [j for j, x in enumerate(ps) if x is not None and not (TERMS[x][0] == "s" and all(TERMS[y] == ("k", None) for y in TERMS[x][1:]))]
        if len(at) != 1 or len(ps) > nd:
            return None
        return at[0], ps[at[0]]

    def picked(self, ps):
        b = self.of(ps[0])
        if b is None:
            return None
        # new dimensions
        parts = list(TERMS[ps[1]][1:]) if TERMS[ps[1]][0] == "t" else [ps[1]]
        if any(TERMS[x] == ("k", None) for x in parts):
            if any(TERMS[x] != ("k", Ellipsis) and TERMS[x] != ("k", None) and not (TERMS[x][0] == "s" and all(TERMS[y] == ("k", None) for y in TERMS[x][1:])) for x in parts):
                return None
            dots = sum(TERMS[x] == ("k", Ellipsis) for x in parts)
            if dots > 1:
                return None
            real = sum(TERMS[x][0] == "s" for x in parts)
            shape, j = [], 0
            for x in parts + ([] if dots else [None]):
                if x is None or TERMS[x] == ("k", Ellipsis):
                    m = len(b[0]) - real
                    shape += b[0][j:j + m]
                    j += m
                elif TERMS[x] == ("k", None):
                    shape.append(1)
                else:
                    shape.append(b[0][j])
                    j += 1
            return tuple(shape), b[1]
        p = self.parts(ps[1], len(b[0]))
        i = self.of(p[1]) if p is not None else None
        if i is None or not whole(p[1]):
            return None
        dim = p[0]
        return self.select(b, dim, i)

    def select(self, b, dim, i):
        st = strides(b[0])
        pos = [(0, None)]
        for j, m in enumerate(b[0]):
            pos = [(q, e) for q, _ in pos for e in i[1]] if j == dim else [(q + x * st[j], e) for q, e in pos for x in range(m)]
        shape = b[0][:dim] + i[0] + b[0][dim + 1:]
        return shape, tuple(node("pick", (), e, *[b[1][q + y * st[dim]] for y in range(b[0][dim])]) for q, e in pos)

    def written(self, ps):
        b, v = self.of(ps[0]), self.of(ps[2])
        p = self.parts(ps[1], len(b[0])) if b is not None and v is not None else None
        i = self.of(p[1]) if p is not None else None
        if i is None or p[0] != 0 or not whole(p[1]):
            return None
        w = self.broadcast(v, i[0] + b[0][1:])
        if w is None:
            return None
        n = prod(b[0][1:])
        return b[0], tuple(node("put", (j // n,), e, *(i[1] + tuple(w[1][j % n::n]))) for j, e in enumerate(b[1]))

    def gathered(self, n, ps, kw):
        b = self.of(ps[0])
        if n == "take_along_dim":
            ix, dim = kw.get("indices", ps[1] if len(ps) > 1 else None), kw.get("dim", ps[2] if len(ps) > 2 else None)
        else:
            dim, ix = kw.get("dim", ps[1] if len(ps) > 1 else None), kw.get("index", ps[-1] if len(ps) + len(kw) > 2 else None)
        i = self.of(ix) if ix is not None else None
        if b is None or i is None or dim is None:
            return None
        dim = self.axis(dim, len(b[0]))[0]
        if n == "index_select":
            return self.select(b, dim, i)
        if len(i[0]) != len(b[0]) or any(x != y and j != dim for j, (x, y) in enumerate(zip(i[0], b[0]))):
            return None
        s, t = strides(b[0]), strides(i[0])
        out = []
        for p in range(prod(i[0])):
            base = sum(0 if j == dim else p // t[j] % i[0][j] * s[j] for j in range(len(s)))
            out.append(node("pick", (), i[1][p], *[b[1][base + y * s[dim]] for y in range(b[0][dim])]))
        return i[0], tuple(out)

    def repeated(self, ps):
        b = self.of(ps[0])
        if b is None:
            return None
        r = tuple(plain(x) for x in ps[1:])
        r = r[0] if len(r) == 1 and isinstance(r[0], tuple) else r
        s = (1,) * (len(r) - len(b[0])) + b[0]
        if len(s) != len(r):
            return None
        pos = [0]
        for m, k, st in zip(s, r, strides(s)):
            pos = [p + x % m * st for p in pos for x in range(m * k)]
        return tuple(m * k for m, k in zip(s, r)), tuple(b[1][p] for p in pos)

    def stack(self, ps, kw):
        if TERMS[ps[0]][0] not in ("t", "l"):
            return None
        b = self.of(ps[0])
        dim = kw.get("dim", kw.get("axis", ps[1] if len(ps) > 1 else None))
        if b is None or dim is None:
            return b
        dim = self.axis(dim, len(b[0]))[0]
        shape = b[0][1:dim + 1] + b[0][:1] + b[0][dim + 1:]
        st = strides(b[0])
        order = list(range(1, dim + 1)) + [0] + list(range(dim + 1, len(b[0])))
        pos = [0]
        for j in order:
            pos = [p + x * st[j] for p in pos for x in range(b[0][j])]
        return shape, tuple(b[1][p] for p in pos)


class Reader:
    """What the expressions of one batch item say about the inputs."""

    def __init__(self, batched, item, sizes, blank=False):
        self.batched, self.item, self.sizes, self.blank, self.memo = batched, item, sizes, blank, {}

    def foreign(self, name, j):
        """(the position within the item, whether it belongs to this item)"""
        if name not in self.batched:
            return j, True
        lead, rest = self.batched[name]
        own, n = 0, 0
        at = self.item[len(self.item) - len(lead):]
        for x, m in zip(at, lead):
            own = own * m + x
        return j % rest, j // rest == own

    def tokens(self, i):
        """(foreign elements of inputs, draws, draws that are not allowed)"""
        if i not in self.memo:
            t = NODES[i]
            if t[0] == "el":
                r = (frozenset() if self.foreign(t[1], t[2])[1] else frozenset([t[1:]]), frozenset())
            elif t[0] == "draw":
                r = (frozenset(), frozenset([t]))
            elif t[0] == "k":
                r = (frozenset(), frozenset())
            else:
                f, d = set(), set()
                for x in self.operands(t):
                    a, b = self.tokens(x)
                    f |= a
                    d |= b
                r = (frozenset(f), frozenset(d))
            self.memo[i] = r
        return self.memo[i]

    @staticmethod
    def operands(t):
        return [] if t[0] in ("el", "k", "draw", "linspace", "eye", "logspace", "ones_like", "full", "full_like") else t[1:] if t[0] == "from" else t[2:]

    def form(self, i, memo):
        """The expression with the item's own names (constants left out when `blank`)."""
        if i not in memo:
            t = NODES[i]
            if t[0] == "el":
                r = node("el", t[1].rstrip("'"), self.foreign(t[1], t[2])[0])
            elif t[0] == "k":
                r = node("k", "?") if self.blank else i
            elif t[0] == "draw":
                r = node("draw", t[1], "", 0)
            elif not self.operands(t):
                r = node(t[0]) if self.blank else i
            else:
                xs = tuple(self.form(x, memo) for x in self.operands(t))
                r = node(t[0], *xs) if t[0] == "from" else node(t[0], "?" if self.blank else t[1], *xs)
            memo[i] = r
        return memo[i]


def i_batched(it, a, kw, n):
    """_batched(name, [batch sizes], [sizes]): an input with batch dimensions."""
    name, lead, rest = kconst(a[0]), [kconst(x) for x in it.exact_items(a[1])], it.exact_items(a[2])
    it.batched = dict(getattr(it, "batched", {}))
    it.batched[name] = (tuple(lead), prod([kconst(x) for x in rest]))
    return PAIRING["_vals"](it, [a[0]] + list(it.exact_items(a[1])) + list(rest), {}, n)


def i_single(it, a, kw, n):
    """_single(name, [sizes]): one item of such an input."""
    from .vals import K

    return PAIRING["_vals"](it, [frozenset([K(kconst(a[0]) + "'", "str")])] + list(it.exact_items(a[1])), {}, n)


def i_items(it, a, kw, n):
    """_items(label, value, [batch sizes], single value): each batch item of the value is what it would be alone."""
    label, d = kconst(a[0]), domain(it)
    lead = tuple(kconst(x) for x in it.exact_items(a[2]))
    ev = getattr(it, "item_values", None)
    if ev is None:
        ev = it.item_values = Items()
    x, one = ev.of(d.of(it, a[1])), ev.of(d.of(it, a[3])) if len(a) > 3 else None
    if x is None:
        it.obs.count("results_undecided")
        it.obs.count("undecided: " + label)
        return NONE
    it.obs.count("results_decided")
    if x[0][:len(lead)] != lead:
        if one is not None and x[0][len(x[0]) - len(one[0]):] == one[0] and len(x[0]) >= len(one[0]) or one is None:
            found(it, "batch", label, f"the result has the shape {x[0]}, without the batch dimensions {lead}")
        return NONE
    rest = len(x[1]) // prod(lead)
    draws = {}
    same = one is not None and one[0] == x[0][len(lead):]
    if one is not None and not same:
        found(it, "batch", label, f"each item's result has the shape {x[0][len(lead):]}; alone, {one[0]}")
    alone = Reader({}, (), ())
    for b in range(prod(lead)):
        item, q = [], b
        for m in reversed(lead):
            item.insert(0, q % m)
            q //= m
        r = Reader(getattr(it, "batched", {}), tuple(item), lead)
        v = Reader(r.batched, r.item, lead, True)
        memo, memo1, blank, blank1 = {}, {}, {}, {}
        for j in range(rest):
            e = x[1][b * rest + j]
            f, dr = r.tokens(e)
            it.obs.count("elements_decided")
            if f:
                name, at = min(f)
                return found(it, "influence", label, f"element {j} of batch item {tuple(item)} depends on {name}[{at}], which belongs to another batch item") or NONE
            for t in dr:
                if t[1].startswith("!"):
                    return found(it, "draw", label, "a random draw within a batched call that does not allow it") or NONE
                if draws.setdefault(t, b) != b:
                    return found(it, "draw", label, f"batch items {tuple(item)} and number {draws[t]} share a random draw") or NONE
            if same:
                if r.form(e, memo) == alone.form(one[1][j], memo1):
                    it.obs.count("elements_as_alone")
                elif v.form(e, blank) == Reader({}, (), (), True).form(one[1][j], blank1):
                    return found(it, "alone", label, f"element {j} of batch item {tuple(item)} is computed with other constants than for this item alone") or NONE
                else:
                    it.obs.count("elements_in_other_form")
    return NONE


INTR = dict(_batched=i_batched, _single=i_single, _items=i_items)
