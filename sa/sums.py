"""Sums over the rows of tensors as polynomials in the rows: values as terms, brought into a normal form."""
from .base import kconst
from .events import found
from .lanes import ALIAS, KEEP, UNKNOWN, brief, constant, from_poly, known, poly
from .pairing import INTR as PAIRING
from .pairing import domain
from .valnum import DIMS, TERMS, is_full
from .vals import NONE

THROUGH = KEEP | {"clone", "to", "as_tensor", "detach", "numpy", "array", "asarray", "cpu", "copy", "int", "float", "float32", "float64"}


class Sums:
    """Normal form of a value, element for element; row(i, j): of row j of it."""

    def __init__(self):
        self.memo = {}

    def of(self, i):
        return self.form(i, None)

    def row(self, i, j):
        return self.form(i, j)

    def form(self, i, j):
        if i is None:
            return UNKNOWN
        if (i, j) not in self.memo:
            self.memo[i, j] = UNKNOWN
            self.memo[i, j] = self.compute(TERMS[i], i, j)
        return self.memo[i, j]

    def operand(self, x, i, j):
        """Form of an operand of an elementwise operation, for row j of its result."""
        if j is None:
            return self.of(x)
        d, r = DIMS.get(x), DIMS.get(i)
        if TERMS[x][0] == "k" or d == ():
            return self.of(x)
        if d is None or r is None:
            return UNKNOWN
        if len(d) < len(r):
            return self.of(x)
        return self.row(x, j if d[0] != 1 else 0)

    def compute(self, t, i, j):
        n = ALIAS.get(t[0], t[0])
        d = DIMS.get(i)
        if n == "k":
            return ("k", int(t[1])) if isinstance(t[1], bool) else t
        if n == "in":
            return t if j is None else ("row", t[1], j)
        if n in ("zeros", "ones"):
            return ("k", 0 if n == "zeros" else 1)
        if n in ("l", "t"):
            return self.of(t[1 + j]) if j is not None and j < len(t) - 1 else UNKNOWN
        if n in THROUGH:
            if j is None:
                return self.of(t[1])
            e = DIMS.get(t[1])
            if e is None and TERMS[t[1]][0] in ("l", "t"):
                e = (len(TERMS[t[1]]) - 1,)
            if not d or not e:
                return UNKNOWN
            return self.row(t[1], j) if e[0] == d[0] else self.of(t[1]) if len(e) < len(d) else UNKNOWN
        if n == "getitem":
            k, e = TERMS[t[2]], DIMS.get(t[1])
            if is_full(t[2]):
                return self.form(t[1], j)
            if k[0] == "k" and type(k[1]) is int and e and j is None:
                return self.row(t[1], k[1] % e[0])
            if k[0] == "s" and e and all(TERMS[x][0] == "k" for x in k[1:]) and j is not None:
                r = range(*slice(*[TERMS[x][1] for x in k[1:]]).indices(e[0]))
                return self.row(t[1], r[j]) if j < len(r) else UNKNOWN
            return UNKNOWN
        if n in ("cat", "concatenate", "vstack") and j is not None and TERMS[t[1]][0] in ("l", "t"):
            for x in TERMS[t[1]][1:]:
                e = DIMS.get(x)
                if not e:
                    return UNKNOWN
                if j < e[0]:
                    return self.row(x, j)
                j -= e[0]
            return UNKNOWN
        if n == "stack" and j is not None and TERMS[t[1]][0] in ("l", "t") and j < len(TERMS[t[1]]) - 1:
            return self.of(TERMS[t[1]][1 + j])
        if n in ("sum", "mean", "count_nonzero") and j is None:
            return self.total(n, t)
        if n in ("matmul", "mv") and j is None and len(t) == 3:
            a, b = DIMS.get(t[1]), DIMS.get(t[2])
            if a and b and len(a) == 1:
                return self.added([self.product([self.row(t[1], q), self.row(t[2], q)]) for q in range(a[0])])
            return UNKNOWN
        if n == "put":
            return UNKNOWN
        kw = [x for x in t[1:] if not isinstance(x, int)]
        xs = [self.operand(x, i, j) for x in t[1:] if isinstance(x, int)]
        if kw or UNKNOWN in xs and n != "mul":
            return UNKNOWN
        return self.apply(n, xs)

    def apply(self, n, xs):
        if n == "square" and len(xs) == 1:
            return self.product([xs[0], xs[0]])
        if n == "pow" and len(xs) == 2 and xs[1] == ("k", 2):
            return self.product([xs[0], xs[0]])
        if n == "neg" and len(xs) == 1:
            return self.product([("k", -1), xs[0]])
        if len(xs) == 2 and n in ("mul", "and"):
            return self.product(xs)
        if len(xs) == 2 and n in ("add", "sub"):
            return self.added([xs[0], xs[1] if n == "add" else self.product([("k", -1), xs[1]])])
        if len(xs) == 2 and n == "truediv":
            c = xs[1]
            return self.product([xs[0], ("k", 1 / c[1]) if constant(c) and c[1] else ("inverse", c)])
        if n == "not" and len(xs) == 1:
            return self.added([("k", 1), self.product([("k", -1), xs[0]])])
        if n == "where" and len(xs) == 3:
            return self.added([self.product([xs[0], xs[1]]), self.product([self.apply("not", [xs[0]]), xs[2]])])
        return UNKNOWN

    def product(self, xs):
        if any(x == ("k", 0) for x in xs):
            return ("k", 0)
        if UNKNOWN in xs:
            return UNKNOWN
        out = poly(xs[0])
        for x in xs[1:]:
            new = {}
            for m, c in out.items():
                for q, e in poly(x).items():
                    z = tuple(sorted(m + q, key=repr))
                    z = tuple(y for h, y in enumerate(z) if not (h and y == z[h - 1] and y[0] == "row" and y[1].startswith("mask")))
                    new[z] = new.get(z, 0) + c * e
            out = new
            if len(out) > 400:
                return UNKNOWN
        return from_poly(out)

    def added(self, xs):
        if UNKNOWN in xs:
            return UNKNOWN
        out = {}
        for x in xs:
            for m, c in poly(x).items():
                out[m] = out.get(m, 0) + c
        return from_poly(out)

    def total(self, n, t):
        kw = {x[0]: x[1] for x in t[2:] if isinstance(x, tuple)}
        rest = [x for x in t[2:] if isinstance(x, int)]
        at = TERMS[kw["dim"]] if "dim" in kw else TERMS[kw["axis"]] if "axis" in kw else TERMS[rest[0]] if rest else None
        x = t[1]
        if TERMS[x][0] == "getitem" and TERMS[x][2:] and n == "sum":
            # rows selected by a mask
            m = TERMS[x][2]
            e = DIMS.get(TERMS[x][1])
            k = DIMS.get(m)
            if e and k and len(k) == 1 and k[0] == e[0] and known(self.row(m, 0)) and self.is_mask(m):
                return self.added([self.product([self.row(m, j), self.row(TERMS[x][1], j)]) for j in range(e[0])])
        d = DIMS.get(x)
        if d is None and TERMS[x][0] in ("l", "t"):
            d = (len(TERMS[x]) - 1,)
        if not d or None in d or set(kw) - {"dim", "axis", "dtype"}:
            return UNKNOWN
        if at is None and len(d) != 1 or at is not None and at not in (("k", 0), ("k", -len(d)), ("t", kw.get("dim"))):
            return UNKNOWN
        s = self.added([self.row(x, j) for j in range(d[0])])
        return s if n != "mean" else self.product([s, ("k", 1 / d[0])])

    def is_mask(self, i):
        t = TERMS[i]
        while t[0] in THROUGH:
            t = TERMS[t[1]]
        return t[0] == "in" and t[1].startswith("mask") or t[0] in ("l", "t") and all(TERMS[x][0] == "k" and isinstance(TERMS[x][1], bool) for x in t[1:])


def expected(spec, power):
    """Polynomial of the sum of powers of the observations: (name, number of rows or None for one observation, None · name of a mask · numbers of the rows which count)"""
    out = {}
    for name, rows, mask in spec:
        for j in [None] if rows is None else range(rows):
            if isinstance(mask, tuple) and j not in mask:
                continue
            m = ((("in", name) if j is None else ("row", name, j)),) * power + ((("row", mask, j),) if isinstance(mask, str) else ())
            m = tuple(sorted(m, key=repr))
            out[m] = out.get(m, 0) + 1
    return from_poly(out)


def i_folded(it, a, kw, n):
    """_folded(label, value, power, observations): the value is the sum of these powers of the observations."""
    d = domain(it)
    label, power, spec = kconst(a[0]), kconst(a[2]), kconst(a[3])
    x, y = Sums().of(d.of(it, a[1])), expected(eval(spec, {"__builtins__": {}}), power)
    if not known(x):
        it.obs.count("sums_undecided")
        it.obs.count("undecided: " + label)
    else:
        it.obs.count("sums_decided")
        if x != y:
            found(it, "sum", label, f"got {brief(x)[:300]} instead of {brief(y)[:300]}")
    return NONE


def i_intact(it, a, kw, n):
    """_intact(label, tensor, name): the tensor still has its initial value."""
    d = domain(it)
    i = d.of(it, a[1])
    it.obs.count("inputs_decided")
    if i is None or TERMS[i] != ("in", kconst(a[2])):
        found(it, "input", kconst(a[0]), "a tensor given by the caller is changed")
    return NONE


INTR = dict(PAIRING, _folded=i_folded, _intact=i_intact)
