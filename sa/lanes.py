"""One batch item of a masked operation: values as terms, read for an item which the mask selects, or leaves out."""
import ast

from .base import kconst
from .events import found
from .pairing import INTR as PAIRING
from .pairing import domain
from .shapes import MAKE
from .valnum import SAME, TERMS, ValueNumbers, is_full
from .vals import NONE, Abs, Ext


class Typed(ValueNumbers):
    """Value numbers together with the data types given where tensors are made."""

    def op(self, it, name, args, kwargs, node):
        if name == "attr.dtype":
            d = self.dtype(it, args[0])
            return {}, ({"atom": d} if d is not None else {})
        c, w = ValueNumbers.op(self, it, name, args, kwargs, node) or ({}, None)
        d = None
        if name == "setitem" or it.inplace or (name in SAME or name in ("getitem", "expand", "reshape", "view", "zeros_like", "empty_like")) and "dtype" not in kwargs:
            d = self.dtype(it, args[0]) if args else None
        elif name in MAKE or name in ("tensor", "as_tensor", "to", "zeros_like", "empty_like", "full_like"):
            v = kwargs.get("dtype") or ()
            d = next(iter(v)) if len(v) == 1 else None
        if d is None and name in ("tensor", "as_tensor") and "dtype" not in kwargs and args:
            d = of_constants(self.of(it, args[0]))
        if isinstance(d, Ext):
            c = dict(c, dt=frozenset([d]))
        return c, w

    def dtype(self, it, v):
        out = set()
        for a in v:
            f = it.facts(a).get("dt") if isinstance(a, Abs) else None
            if not isinstance(f, frozenset):
                return None
            out |= f
        return next(iter(out)) if len(out) == 1 else None


def of_constants(i):
    """The data type of a tensor made of integers or truth values."""
    t = TERMS[i] if i is not None else ("?",)
    if t[0] == "k" and type(t[1]) in (bool, int):
        return Ext("torch.bool" if type(t[1]) is bool else "torch.int64")
    if t[0] in ("l", "t") and len(t) > 1:
        ds = {of_constants(x) for x in t[1:]}
        return next(iter(ds)) if len(ds) == 1 else None
    return None


# ------------------------------------------------------------------ one item
KEEP = {"stretch", "expand", "reshape", "view", "unsqueeze", "squeeze", "flatten", "expand_as", "broadcast_to", "view_as", "contiguous", "bool", "int", "long", "float", "double", "item"}
COMPARE = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}
FOLD = {
    "eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "ge": lambda a, b: a >= b, "gt": lambda a, b: a > b, "le": lambda a, b: a <= b,
    "mod": lambda a, b: a % b if b else None, "remainder": lambda a, b: a % b if b else None, "floordiv": lambda a, b: a // b if b else None, "truediv": lambda a, b: a / b if b else None, "pow": lambda a, b: a**b if abs(a) < 100 and 0 <= b < 10 else None,
}
ALIAS = {"div": "truediv", "divide": "truediv", "remainder": "mod", "logical_and": "and", "bitwise_and": "and", "logical_or": "or", "bitwise_or": "or", "logical_not": "not", "invert": "not", "bitwise_not": "not", "multiply": "mul", "subtract": "sub", "logical_xor": "xor", "bitwise_xor": "xor", "negative": "neg"}
UNKNOWN = ("?",)
CROSSED = ("crossed",)


def known(x):
    return isinstance(x, tuple) and x != UNKNOWN and all(known(y) for y in x if isinstance(y, tuple))


def crossed(x):
    return isinstance(x, tuple) and (x == CROSSED or any(crossed(y) for y in x if isinstance(y, tuple)))


def poly(x):
    """{monomial: coefficient}"""
    if x[0] == "poly":
        return dict(x[1])
    if x[0] == "k" and isinstance(x[1], (int, float)):
        return {(): x[1] + 0} if x[1] else {}
    return {(x,): 1}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ("k", 0)
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return ("k", c)
        if c == 1 and len(m) == 1:
            return m[0]
    return ("poly", tuple(sorted(p.items(), key=repr)))


def constant(x):
    return x[0] == "k"


class Lane:
    """Normal form of a value for one batch item; the mask has the given value there."""

    def __init__(self, selected, nbatch, dims):
        self.selected, self.nbatch, self.dims = selected, nbatch, dims
        self.memo = {}
        self.masks = {}

    def of(self, i):
        if i is None:
            return UNKNOWN
        if i not in self.memo:
            self.memo[i] = UNKNOWN
            self.memo[i] = self.compute(TERMS[i], i)
        return self.memo[i]

    def compute(self, t, i):
        n = ALIAS.get(t[0], t[0])
        if n == "in":
            return ("k", self.selected) if t[1] == "mask" else t
        if n == "k":
            return t
        if n == "zeros":
            return ("k", 0)
        if n == "ones":
            return ("k", 1)
        if n == "nan":
            return ("nan",)
        if n == "fill":
            return ("k", t[1])
        if n in KEEP:
            return self.of(t[1])
        if n in ("l", "t"):
            xs = [self.of(x) for x in t[1:]]
            return ("row",) + tuple(xs) if UNKNOWN not in xs else UNKNOWN
        if n == "getitem":
            return self.at(self.of(t[1]), t[2], t[1])
        if n == "put":
            return self.put(self.of(t[1]), t[2], self.of(t[3]), t[1])
        xs = [self.of(x) for x in t[1:] if isinstance(x, int)]
        if len(xs) != len(t) - 1:
            return UNKNOWN
        if self.misplaced(t, i):
            return CROSSED
        if n == "where" and len(xs) == 3:
            return self.where(*xs)
        if n == "masked_fill" and len(xs) == 3:
            return self.where(xs[1], xs[2], xs[0])
        return self.apply(n, xs)

    def misplaced(self, t, i):
        """Whether an operand computed from the mask does not have the batch items where the result has them."""
        r = self.dims(i)
        if r is None or None in r or len(r) < self.nbatch:
            return False
        for x in t[1:]:
            d = self.dims(x) if isinstance(x, int) and self.from_mask(x) else None
            if d and None not in d and any(y != 1 for y in d) and len(d) <= len(r) and ((1,) * (len(r) - len(d)) + d)[:self.nbatch] != r[:self.nbatch]:
                return True
        return False

    def from_mask(self, i):
        if i not in self.masks:
            self.masks[i] = False
            t = TERMS[i]
            self.masks[i] = t[0] == "in" and t[1] == "mask" or t[0] != "getitem" and any(self.from_mask(x) for x in t[1:] if isinstance(x, int) and t[0] not in ("k", "s", "in"))
        return self.masks[i]

    def apply(self, n, xs):
        if UNKNOWN in xs and not (n in ("and", "or", "mul") and any(constant(x) for x in xs)):
            return UNKNOWN
        if n in ("add", "sub", "neg", "mul") and len(xs) in (1, 2):
            if n == "mul" and any(x in (("k", 0), ("k", False)) for x in xs):
                return ("k", 0)
            if UNKNOWN in xs:
                return UNKNOWN
            return self.arithmetic(n, xs)
        if n == "truediv" and len(xs) == 2:
            d = xs[1]
            return self.arithmetic("mul", [xs[0], ("k", 1 / d[1]) if constant(d) and isinstance(d[1], (int, float)) and d[1] else ("inverse", d)])
        if n in ("abs", "absolute") and len(xs) == 1 and constant(xs[0]):
            return ("k", abs(xs[0][1]))
        if n == "not" and len(xs) == 1:
            return self.negated(xs[0])
        if n in ("and", "or") and len(xs) == 2:
            stop = n == "or"
            parts = []
            for x in xs:
                for y in x[1] if x[0] == n else (x,):
                    if constant(y) and isinstance(y[1], (bool, int)):
                        if bool(y[1]) == stop:
                            return ("k", stop)
                    elif y not in parts:
                        parts.append(y)
            if any(self.negated(y) in parts for y in parts if y != UNKNOWN):
                return ("k", stop)
            if UNKNOWN in parts:
                return UNKNOWN
            return ("k", not stop) if not parts else parts[0] if len(parts) == 1 else (n, tuple(sorted(parts, key=repr)))
        if n == "xor" and len(xs) == 2:
            for a, b in (xs, xs[::-1]):
                if constant(a):
                    return self.negated(b) if a[1] else b
        if n in FOLD and len(xs) == 2:
            if all(constant(x) and isinstance(x[1], (int, float)) for x in xs):
                r = FOLD[n](xs[0][1], xs[1][1])
                return UNKNOWN if r is None else ("k", r)
            if n in ("gt", "le"):
                return ({"gt": "lt", "le": "ge"}[n], xs[1], xs[0])
            if n in ("eq", "ne"):
                return (n,) + tuple(sorted(xs, key=repr))
            return (n,) + tuple(xs)
        if n in ("minimum", "maximum") and len(xs) == 2:
            return xs[0] if xs[0] == xs[1] else (n,) + tuple(sorted(xs, key=repr))
        return UNKNOWN

    def arithmetic(self, n, xs):
        ps = [poly(x) for x in xs]
        if n == "neg":
            return from_poly({m: -c for m, c in ps[0].items()})
        if len(ps) != 2:
            return UNKNOWN
        a, b = ps
        out = {}
        if n == "mul":
            if len(a) * len(b) > 64:
                return UNKNOWN
            for m, c in a.items():
                for q, e in b.items():
                    z = tuple(sorted(m + q, key=repr))
                    out[z] = out.get(z, 0) + c * e
        else:
            out = dict(a)
            for m, c in b.items():
                out[m] = out.get(m, 0) + (c if n == "add" else -c)
        return from_poly(out)

    def negated(self, x):
        if constant(x):
            return ("k", not x[1])
        if x[0] == "not":
            return x[1]
        if x[0] in COMPARE:
            return (COMPARE[x[0]],) + x[1:]
        if x[0] in ("and", "or"):
            r = ("k", x[0] == "and" and False)
            for j, y in enumerate(x[1]):
                r = self.negated(y) if j == 0 else self.apply("or" if x[0] == "and" else "and", [r, self.negated(y)])
            return r
        return UNKNOWN if x == UNKNOWN else ("not", x)

    def where(self, c, a, b):
        if constant(c):
            return a if c[1] else b
        if a == b:
            return a
        if UNKNOWN in (c, a, b):
            return UNKNOWN
        if c[0] == "not":
            c, a, b = c[1], b, a
        if a[0] == "where" and a[1] == c:
            a = a[2]
        if b[0] == "where" and b[1] == c:
            b = b[3]
        return a if a == b else ("where", c, a, b)

    # -- indices
    def keys(self, idx, base):
        """("mask", condition) · ("keys", ...): which entry of the item is meant · None"""
        t = TERMS[idx]
        if is_full(idx):
            return ("keys",)
        d = self.dims(base)
        parts = list(t[1:]) if t[0] == "t" else [idx]
        if len(parts) == 1 and self.truth(parts[0]):
            return ("mask", self.of(parts[0]))
        if d is None:
            return None
        if parts and TERMS[parts[0]] == ("k", Ellipsis):
            return ("part",) + tuple(self.of(x) for x in parts[1:]) if all(TERMS[x][0] == "k" for x in parts[1:]) else None
        if len(parts) < self.nbatch:
            return None
        for j in range(self.nbatch):
            b = self.bare(parts[j])
            if is_full(parts[j]):
                continue
            if TERMS[b][0] != "arange" or len(TERMS[b]) != 2 or TERMS[TERMS[b][1]] != ("k", d[j]):
                return None
            e = self.dims(parts[j])
            if e is None:
                return None
            if e != (d[j],) + (1,) * (self.nbatch - j - 1):
                return CROSSED
        ks = tuple(self.of(x) for x in parts[self.nbatch:] if not is_full(x))
        return None if UNKNOWN in ks else ("keys",) + ks

    def bare(self, i):
        while TERMS[i][0] in ("reshape", "view", "unsqueeze", "getitem"):
            i = TERMS[i][1]
        return i

    def truth(self, i):
        t = TERMS[i]
        n = ALIAS.get(t[0], t[0])
        return n in COMPARE or n in ("not", "isnan") or n in ("and", "or", "xor") and all(self.truth(x) for x in t[1:] if isinstance(x, int)) or n in KEEP and self.truth(t[1]) or n == "in" and t[1] in ("mask", "hist") or n == "k" and isinstance(t[1], bool)

    def at(self, x, idx, base):
        k = self.keys(idx, base)
        if k is None or x == UNKNOWN:
            return UNKNOWN
        if k == CROSSED:
            return CROSSED
        if k[0] == "mask" or k == ("keys",):
            return x
        if constant(x) or x == ("nan",):
            return x
        if k[0] == "part":
            if x[0] == "row" and len(k) == 2 and isinstance(k[1][1], int) and k[1][1] < len(x) - 1:
                return x[1 + k[1][1]]
            return ("part", x) + k[1:]
        return self.entry(x, k)

    def entry(self, x, k):
        if x[0] == "put" and x[2] == k:
            return x[3]
        if x[0] == "where":
            return self.where(x[1], self.entry(x[2], k), self.entry(x[3], k))
        if constant(x) or x == ("nan",):
            return x
        if x[0] == "put" and all(constant(y) or y[0] == "range" for y in k[1:] + x[2][1:]):
            if not any(y[0] == "range" for y in k[1:] + x[2][1:]):
                return self.entry(x[1], k)
            if not any(y[0] == "range" for y in k[1:]):
                # the key of an entry may be followed by the dimensions of its value
                inside = [y[1] in z[1] for y, z in zip(k[1:], x[2][1:])] if len(k) <= len(x[2]) else [None]
                if False in inside:
                    return self.entry(x[1], k)
                if None not in inside and len(k) == len(x[2]):
                    return x[3]
            return UNKNOWN
        return ("at", x, k)

    def span(self, i, n):
        """("range", positions) of a slice with constant ends of a dimension of length n"""
        t = TERMS[i]
        if t[0] != "s" or not all(TERMS[x][0] == "k" for x in t[1:]) or n is None:
            return None
        return ("range", tuple(range(*slice(*[TERMS[x][1] for x in t[1:]]).indices(n))))

    def part_of(self, idx, base):
        """Keys of a write to a slice of the entries of every item."""
        d = self.dims(base)
        t = TERMS[idx]
        parts = list(t[1:]) if t[0] == "t" else [idx]
        if d is None:
            return None
        dots = [j for j, x in enumerate(parts) if TERMS[x] == ("k", Ellipsis)]
        if len(dots) == 1:
            j = dots[0]
            parts[j:j + 1] = [None] * (len(d) - len(parts) + 1)
        parts += [None] * (len(d) - len(parts))
        if len(parts) != len(d) or not all(x is None or is_full(x) for x in parts[:self.nbatch]):
            return None
        ks = tuple(("range", tuple(range(n))) if x is None or is_full(x) else self.span(x, n) for x, n in zip(parts[self.nbatch:], d[self.nbatch:]) if n is not None)
        return None if None in ks or None in d else ("keys",) + ks

    def put(self, x, idx, v, base):
        k = self.keys(idx, base) or self.part_of(idx, base)
        if k == CROSSED:
            return CROSSED
        if k is None:
            return UNKNOWN
        if k[0] == "mask":
            return self.where(k[1], v, x)
        if k == ("keys",):
            return v
        if UNKNOWN in (x, v) or k[0] == "part":
            return UNKNOWN
        if self.entry(x, k) == v:
            return x
        if x[0] == "put" and x[2] == k:
            return self.put_entry(x[1], k, v)
        return ("put", x, k, v)

    def put_entry(self, x, k, v):
        return x if self.entry(x, k) == v else ("put", x, k, v)


def both(it, d, vs, nb, selected):
    from .valnum import DIMS

    lane = Lane(selected, nb, DIMS.get)
    return [lane.of(d.of(it, v)) for v in vs]


def i_masked(it, a, kw, n):
    """_masked(label, number of batch dimensions, before, after with the mask, after without a mask)"""
    d = domain(it)
    label, nb = kconst(a[0]), kconst(a[1])
    b0, m0, u0 = both(it, d, a[2:5], nb, False)
    b1, m1, u1 = both(it, d, a[2:5], nb, True)
    if any(crossed(x) for x in (b0, m0, u0, b1, m1, u1)):
        it.obs.count("items_decided")
        return found(it, "crossed", label, "the positions of the batch items are not spread over the dimensions of the batch") or NONE
    for what, x, y, same in (("an item which the mask leaves out is changed", b0, m0, True), ("an item which the mask selects is treated differently from one without a mask", u1, m1, True), ("an item is not affected without a mask", b1, u1, False)):
        if x == y and known(x):
            it.obs.count("items_decided")
            if not same:
                found(it, "item", label, what)
        elif known(x) and known(y):
            it.obs.count("items_decided")
            if same:
                found(it, "item", label, what)
        else:
            it.obs.count("items_undecided")
            it.obs.count("undecided: " + label)
    return NONE


INTR = dict(PAIRING, _masked=i_masked)


def i_equal(it, a, kw, n):
    """_equal(label, number of batch dimensions, value, expected value)"""
    d = domain(it)
    label, nb = kconst(a[0]), kconst(a[1])
    x, y = both(it, d, a[2:4], nb, True)
    if crossed(x):
        it.obs.count("values_decided")
        found(it, "crossed", label, "the positions of the batch items are not spread over the dimensions of the batch")
    elif known(x) and known(y) and (x == y or not pending(x) and not pending(y)):
        it.obs.count("values_decided")
        if x != y:
            found(it, "stored-value", label, f"got {brief(x)} instead of {brief(y)}")
    else:
        it.obs.count("values_undecided")
        it.obs.count("undecided: " + label)
    return NONE


def pending(x):
    """Is this read from a memory after a write whose position may or may not be the same?"""
    return isinstance(x, tuple) and (x[:1] == ("at",) and x[1][:1] == ("put",) or any(pending(y) for y in x if isinstance(y, tuple)))


def brief(x, depth=0):
    if not isinstance(x, tuple):
        return str(x)
    if x[0] in ("k", "in"):
        return str(x[1])
    if x == ("nan",):
        return "a value never stored"
    if depth > 3:
        return "…"
    if x[0] == "poly":
        return " + ".join("·".join(([str(c)] if c != 1 or not m else []) + [brief(y, depth + 1) for y in m]) for m, c in x[1])
    return f"{x[0]}({', '.join(brief(y, depth + 1) for y in x[1:])})"


def i_trying(it, a, kw, n):
    domain(it).splits = 0
    return NONE


def i_accepted(it, a, kw, n):
    """_accepted(label): reached when an operation which must be refused is not refused, on every path unless there were undecided conditions"""
    if domain(it).splits == 0:
        it.obs.count("refusals_decided")
        found(it, "refusal", kconst(a[0]), "accepted although it is invalid")
    return NONE


def i_refused(it, a, kw, n):
    """_refused(label, was it refused?)"""
    it.obs.count("refusals_undecided" if it.truth_set(a[1])[1] else "refusals_decided")
    return NONE


class Folding(Typed):
    """In addition, tests over all items of constant tensors are decided."""

    splits = 0
    known = {}

    def branch(self, it, e, v, t, f):
        fn = it.fr.fi.node if it.fr.fi else None
        if fn is None or id(e) in self.tests(fn):
            self.splits += 1

    def tests(self, fn):
        """Nodes of the function which are part of a condition deciding about the flow (not of a compared value)."""
        if id(fn) not in self.known:
            self.known[id(fn)] = {id(y) for x in ast.walk(fn) if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)) for y in ast.walk(x.test)} | {id(y) for x in ast.walk(fn) if isinstance(x, ast.BoolOp) for y in ast.walk(x)}
        return self.known[id(fn)]

    def op(self, it, name, args, kwargs, node):
        r = Typed.op(self, it, name, args, kwargs, node)
        if name in ("any", "all") and len(args) == 1 and not kwargs:
            from .valnum import DIMS

            i = self.of(it, args[0])
            d = DIMS.get(i)
            x = Lane(True, len(d), DIMS.get).of(i) if d is not None else UNKNOWN
            if constant(x):
                r = (r[0], dict(r[1] or {}, truth=bool(x[1])))
        return r


INTR = dict(INTR, _equal=i_equal, _trying=i_trying, _accepted=i_accepted, _refused=i_refused)
