"""Tensors of constant shape as lists of their elements: which element of which input is where."""
from math import prod

from .base import kconst
from .events import found
from .pairing import INTR as PAIRING
from .pairing import domain
from .valnum import DIMS, TERMS, intern
from .vals import NONE, K, Ref

SAME = {"clone", "to", "as_tensor", "detach", "contiguous", "cpu", "float", "double", "copy", "tensor", "numpy", "array", "asarray", "data", "type", "type_as", "requires_grad_", "alias"}
SHAPE = {"reshape", "view", "flatten", "ravel", "unsqueeze", "squeeze", "view_as", "reshape_as", "unflatten"}
MOST = 4096


def strides(shape):
    out, n = [], 1
    for x in reversed(shape):
        out.append(n)
        n *= x
    return out[::-1]


def listed(t):
    """A list of constants behind copies and sorts."""
    while t[0] in SAME and len(t) > 1 and isinstance(t[1], int):
        t = TERMS[t[1]]
    if t[0] in ("sort.values", "msort", "unique", "sorted", "flip") and (len(t) == 2 or t[0] == "flip"):
        u = listed(TERMS[t[1]])
        ks = [TERMS[x] for x in u[1:] if isinstance(x, int)]
        if u[0] in ("l", "t") and ks and all(x[0] == "k" and type(x[1]) is int for x in ks):
            vs = [x[1] for x in ks]
            vs = vs[::-1] if t[0] == "flip" else sorted(set(vs)) if t[0] == "unique" else sorted(vs)
            return ("l",) + tuple(intern(("k", x)) for x in vs)
    return t


def places(shape, idx):
    """(positions, shape of the result) of the elements meant by an index made of constants; None when not understood"""
    parts = list(TERMS[idx][1:]) if TERMS[idx][0] == "t" else [idx]
    dots = [j for j, x in enumerate(parts) if TERMS[x] == ("k", Ellipsis)]
    if len(dots) > 1:
        return None
    if dots:
        j = dots[0]
        parts[j:j + 1] = [None] * (len(shape) - len(parts) + 1)
    parts += [None] * (len(shape) - len(parts))
    if len(parts) != len(shape):
        return None
    lists, keep = [], []
    for x, n in zip(parts, shape):
        t = ("s",) if x is None else TERMS[x]
        t = listed(t)
        if t[0] in ("l", "t") and len(t) - 1 == n and all(TERMS[y][0] == "k" and type(TERMS[y][1]) is bool for y in t[1:]):
            t = ("l",) + tuple(intern(("k", j)) for j, y in enumerate(t[1:]) if TERMS[y][1])
        if t[0] == "s" and all(TERMS[y][0] == "k" for y in t[1:]):
            lists.append(list(range(*slice(*([TERMS[y][1] for y in t[1:]] or [None])).indices(n))))
            keep.append(len(lists[-1]))
        elif t[0] == "k" and type(t[1]) is int and -n <= t[1] < n:
            lists.append([t[1] % n])
        elif t[0] in ("l", "t") and all(TERMS[y][0] == "k" and type(TERMS[y][1]) is int and -n <= TERMS[y][1] < n for y in t[1:]) and len(parts) - parts.count(None) == 1:
            lists.append([TERMS[y][1] % n for y in t[1:]])
            keep.append(len(lists[-1]))
        else:
            return None
    out = [0]
    for l, s in zip(lists, strides(shape)):
        out = [o + x * s for o in out for x in l]
    return out, tuple(keep)


class Flat:
    def __init__(self):
        self.memo = {}

    def of(self, i):
        """(shape, elements) of a term; None when not understood"""
        if i is None:
            return None
        if i not in self.memo:
            self.memo[i] = None
            r = self.compute(TERMS[i], DIMS.get(i))
            self.memo[i] = r if r is None or len(r[1]) == prod(r[0]) else None
        return self.memo[i]

    def compute(self, t, d):
        if d is not None and (None in d or prod(d) > MOST):
            return None
        n = t[0]
        if n == "in" and d is not None:
            return d, tuple(("el", t[1], j) for j in range(prod(d)))
        if n == "k" and isinstance(t[1], (int, float)):
            return (), (t,)
        if n in ("zeros", "ones", "fill", "nan") and d is not None:
            return d, (("k", {"zeros": 0, "ones": 1, "nan": "nan"}.get(n, t[1])),) * prod(d)
        if n in SAME or n in SHAPE:
            b = self.of(t[1])
            if b is None:
                return None
            if n in SAME:
                return b
            return None if d is None or prod(d) != len(b[1]) else (d, b[1])
        if n in ("expand", "stretch", "expand_as", "broadcast_to") and d is not None:
            b = self.of(t[1])
            return None if b is None else self.broadcast(b, d)
        if n in ("t", "l"):
            bs = [self.of(x) for x in t[1:]]
            if None in bs or len({b[0] for b in bs}) != 1:
                return None
            return (len(bs),) + bs[0][0], sum((b[1] for b in bs), ())
        if n in ("cat", "concatenate", "concat", "hstack") and len(t) > 1:
            kw = {x[0]: TERMS[x[1]] for x in t[2:] if isinstance(x, tuple)}
            one = TERMS[t[1]][0] in ("t", "l")
            at = [TERMS[x] for x in t[2:] if isinstance(x, int) and one] + [kw.get("dim", kw.get("axis", ("k", 0)))]
            bs = [self.of(x) for x in (TERMS[t[1]][1:] if one else t[1:]) if isinstance(x, int)]
            if None in bs or not bs or at[0] != ("k", 0) and not all(len(b[0]) == 1 for b in bs) or any(b[0][1:] != bs[0][0][1:] or not b[0] for b in bs):
                return None
            return (sum(b[0][0] for b in bs),) + bs[0][0][1:], sum((b[1] for b in bs), ())
        if n == "stack" and len(t) == 2:
            return self.of(t[1])
        if n == "getitem":
            b = self.of(t[1])
            p = places(b[0], t[2]) if b is not None else None
            return None if p is None else (p[1], tuple(b[1][j] for j in p[0]))
        if n == "put":
            b, v = self.of(t[1]), self.of(t[3])
            p = places(b[0], t[2]) if b is not None and v is not None else None
            v = self.broadcast(v, p[1]) if p is not None else None
            if v is None:
                return None
            out = list(b[1])
            for j, x in zip(p[0], v[1]):
                out[j] = x
            return b[0], tuple(out)
        if n in ("transpose", "permute", "T", "swapaxes"):
            b = self.of(t[1])
            return self.turned(n, t, b) if b is not None else None
        if n in ("flip", "flipud", "fliplr"):
            b = self.of(t[1])
            if b is None or not b[0]:
                return None
            ks = [TERMS[x] for x in t[2:] if isinstance(x, int)] + [TERMS[x[1]] for x in t[2:] if isinstance(x, tuple)]
            ks = [TERMS[y] for x in ks for y in x[1:]] if ks and ks[0][0] in ("t", "l") else ks
            ax = {"flipud": 0, "fliplr": 1}.get(n, ks[0][1] if len(ks) == 1 and ks[0][0] == "k" else None)
            if not isinstance(ax, int) or not -len(b[0]) <= ax < len(b[0]):
                return None
            ax %= len(b[0])
            pos = [0]
            for j, (m, st) in enumerate(zip(b[0], strides(b[0]))):
                pos = [p + (m - 1 - x if j == ax else x) * st for p in pos for x in range(m)]
            return b[0], tuple(b[1][p] for p in pos)
        return None

    def broadcast(self, b, d):
        """Repeat a value to a shape."""
        s = (1,) * (len(d) - len(b[0])) + b[0]
        if len(s) != len(d) or any(x not in (1, y) for x, y in zip(s, d)):
            return None
        pos = [0]
        for x, y, st in zip(s, d, strides(s)):
            pos = [p + (j if x != 1 else 0) * st for p in pos for j in range(y)]
        return d, tuple(b[1][p] for p in pos)

    def turned(self, n, t, b):
        nd = len(b[0])
        ks = [TERMS[x] for x in t[2:] if isinstance(x, int)]
        ks = [TERMS[y] for x in ks for y in x[1:]] if len(ks) == 1 and ks[0][0] in ("t", "l") else ks
        if any(isinstance(x, tuple) for x in t[2:]) or any(x[0] != "k" or type(x[1]) is not int or not -nd <= x[1] < nd for x in ks):
            return None
        ks = [x[1] % nd for x in ks]
        if n == "T":
            order = list(range(nd))[::-1]
        elif n in ("transpose", "swapaxes") and len(ks) == 2:
            order = list(range(nd))
            order[ks[0]], order[ks[1]] = ks[1], ks[0]
        elif n in ("permute", "transpose") and sorted(ks) == list(range(nd)):
            order = ks
        else:
            return None
        pos, st = [0], strides(b[0])
        for d in order:
            pos = [p + x * st[d] for p in pos for x in range(b[0][d])]
        return tuple(b[0][d] for d in order), tuple(b[1][p] for p in pos)


def i_elements(it, a, kw, n):
    """_elements(label, value, name, first or list[, shape]): the value's elements are those of the input from the given one on (or those listed), in order."""
    d = domain(it)
    label, name, first = kconst(a[0]), kconst(a[2]), kconst(a[3])
    if first is None:
        first = [kconst(x) for x in it.exact_items(a[3])]
    shape = tuple(kconst(x) for x in it.exact_items(a[4])) if len(a) > 4 else None
    x = Flat().of(d.of(it, a[1]))
    if x is None:
        it.obs.count("elements_undecided")
        it.obs.count("undecided: " + label)
        return NONE
    it.obs.count("elements_decided")
    dims = d.dims(it, a[1])
    if dims is not None and None not in dims and prod(dims) == len(x[1]):
        x = (tuple(dims), x[1])
    if isinstance(first, list):
        want = tuple(("el", name, j) for j in first)
    else:
        want = tuple(("el", name, first + j) for j in range(len(x[1])))
    if x[1] != want or shape is not None and x[0] != shape:
        bad = next((j for j, (p, q) in enumerate(zip(x[1], want)) if p != q), None)
        found(it, "element", label, f"{len(x[1])} elements instead of {len(want)}" if len(x[1]) != len(want) else f"shape {x[0]} instead of {shape}" if bad is None else f"element {bad} is {show(x[1][bad])} instead of {show(want[bad])}")
    return NONE


def i_parameter(it, a, kw, n):
    """_parameter(name, trainable, sizes...): a network's parameter."""
    it.trainable["in:" + kconst(a[0])] = kconst(a[1])
    return PAIRING["_vals"](it, [a[0]] + a[2:], {}, n)


def i_shape(it, a, kw, n):
    """_shape(label, value, list): the value's shape."""
    got, want = domain(it).dims(it, a[1]), tuple(kconst(x) for x in it.exact_items(a[2]))
    if got is None or None in got:
        it.obs.count("shapes_undecided")
        it.obs.count("undecided: " + kconst(a[0]))
        return NONE
    it.obs.count("shapes_decided")
    if tuple(got) != want:
        found(it, "shape", kconst(a[0]), f"shape {tuple(got)} instead of {want}")
    return NONE


def show(e):
    return f"{e[1]}[{e[2]}]" if e[0] == "el" else str(e[1])


def v_mapped(it, h, args, kwargs, node):
    """vmap over a leading dimension of constant length: one call for each item, the results stacked."""
    d = domain(it)
    dims = h.fields["in_dims"]
    ex = it.exact_items(dims) if any(isinstance(x, Ref) for x in dims) else [dims] * len(args)
    ins = [kconst(x) for x in ex or ()]
    if kwargs or len(ins) != len(args) or kconst(h.fields["out_dims"]) != 0 or any(x not in (0, None) for x in ins):
        return None

    def leaves(v):
        h = it.st.heap.get(next(iter(v)).oid) if len(v) == 1 and isinstance(next(iter(v)), Ref) else None
        return [y for x in h.items for y in leaves(x)] if h is not None and h.kind in ("list", "tuple") and h.items is not None else [v]

    def item(v, j):
        h = it.st.heap.get(next(iter(v)).oid) if len(v) == 1 and isinstance(next(iter(v)), Ref) else None
        if h is None or h.kind not in ("list", "tuple") or h.items is None:
            return it.getitem(v, frozenset([K(j, "int")]), node)
        outer, vs = it.fr.iters, []
        for q, x in enumerate(h.items):
            it.fr.iters = outer + (q,)
            vs.append(item(x, j))
        it.fr.iters = outer
        return it.mk_list(node, vs) if h.kind == "list" else it.mk_tuple(node, vs)

    sizes = {(d.dims(it, y) or (None,))[0] for v, x in zip(args, ins) if x == 0 for y in leaves(v)}
    n = next(iter(sizes)) if len(sizes) == 1 else None
    if not isinstance(n, int) or not 0 < n < 6:
        return None
    outs = []
    outer, calls, mode = it.fr.iters, getattr(it, "items_of_calls", ()), kconst(h.fields["randomness"]) if "randomness" in h.fields else "error"
    draws = getattr(it, "draws", 0)
    try:
        for j in range(n):
            it.fr.iters = outer + (f"item {j}",)
            it.items_of_calls = calls + ((mode, j, n),)
            if mode == "same":
                it.draws = draws
            r = it.call(h.fields["$f"], [item(v, j) if x == 0 else v for v, x in zip(args, ins)], {}, node)
            outs.append(taken(it, r))
    finally:
        it.items_of_calls, it.fr.iters = calls, outer
    it.fr.iters = outer + ("items",)
    r = stacked(it, outs, node)
    it.fr.iters = outer
    return r


def taken(it, v):
    """The values within a result, read before the next call."""
    if len(v) == 1 and isinstance(next(iter(v)), Ref):
        h = it.st.heap[next(iter(v)).oid]
        if h.kind in ("tuple", "list") and h.items is not None:
            return [taken(it, x) for x in h.items]
        if h.kind == "dict" and h.items is not None and not h.elem:
            return {key: taken(it, x) for key, x in h.items.items()}
    return v


def stacked(it, outs, node):
    from .ext import torch_function

    if any(isinstance(o, dict) for o in outs):
        if not all(isinstance(o, dict) and list(o) == list(outs[0]) for o in outs):
            return None
        outer, vs = it.fr.iters, {}
        for j, key in enumerate(outs[0]):
            it.fr.iters = outer + (j,)
            vs[key] = stacked(it, [o[key] for o in outs], node)
        it.fr.iters = outer
        if None in vs.values():
            return None
        return it.mk_dict(node, vs)
    if any(isinstance(o, list) for o in outs):
        if not all(isinstance(o, list) and len(o) == len(outs[0]) for o in outs):
            return None
        outer, vs = it.fr.iters, []
        for j in range(len(outs[0])):
            it.fr.iters = outer + (j,)
            vs.append(stacked(it, [o[j] for o in outs], node))
        it.fr.iters = outer
        return None if None in vs else it.mk_tuple(node, vs)
    if all(x == NONE for x in outs):
        return NONE
    return torch_function(it, "torch.stack", [it.mk_list(node, outs)], {}, node)


INTR = dict(PAIRING, _elements=i_elements, _shape=i_shape, _parameter=i_parameter)
INTR["@vmap"] = v_mapped
