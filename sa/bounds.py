"""Abstract domain: which numbers certainly lie within given bounds.

Fact "inb": a set of letters, one for each bound which certainly holds for all numbers of the value. For the bounds of a problem, "lu" (>= lower and <= upper bound), "l", "u" or "" (may lie outside
both). A value without the fact is not judged. Fact "sel" of a comparison result: the operator, the letters a number gets where the comparison does not hold, and the storage compared.

`Limits` does the same for the four limits of a standard deviation.
"""
from .domains import FULL, ROWWISE_COPY, ROWWISE_VIEW, tok
from .polarity import known
from .vals import Abs, K

COPIES = {
    "getitem", "iter", "enumerate", "gather", "index_select", "take", "take_along_dim", "roll", "flip", "flipud", "fliplr", "sort.values", "select", "narrow", "chunk", "split", "tensor_split",
    "unbind", "repeat", "repeat_interleave", "tile", "expand_as", "broadcast_to", "transpose", "t", "T", "mT", "permute", "swapaxes", "movedim", "tensor", "array", "item", "tolist", "masked_select",
    "atleast_1d", "atleast_2d", "topk.values", "unfold", "diagonal", "rot90", "share_memory_", "sort", "requires_grad",
    "cat", "stack", "vstack", "hstack", "concatenate", "concat", "dstack", "column_stack", "empty_like.copy", "squeeze_", "unsqueeze_", "nan_to_num",
}
COMPARES = {"lt": "<", "le": "<", "less": "<", "less_equal": "<", "gt": ">", "ge": ">", "greater": ">", "greater_equal": ">"}
NOT_DATA = {"len", "size", "numel", "nelement", "size.getitem", "empty_like", "zeros_like", "ones_like", "shape", "isnan", "isfinite", "isinf", "all", "any", "range", "arange"}
MOVES = {"gather": 1, "sort.values": 1, "sort": 1, "roll": 2, "flip": 1, "take_along_dim": 2, "topk.values": 2}
REFLECT = {"<": ">", ">": "<"}


def both(a, b):
    return "".join(sorted(set(a) & set(b)))


def union(a, b):
    return "".join(sorted(set(a) | set(b)))


class Bounds:
    name = "bounds"
    LOW = "l"
    UP = "u"

    def get(self, it, v):
        return known(it, v, "inb")

    def op(self, it, name, args, kwargs, node):
        r, sel = self.facts(it, name, args, kwargs, node)
        c = {"inb": frozenset(r)} if r else {}
        if name == "setitem":
            col = known(it, args[2], "col")
            if r and col and col != {self.column(it, args[1])}:
                # numbers of some decision variables are put into others
                return {"inb": frozenset([""])}, None
            s = known(it, args[1], "sel")
            if r and s and len(s) == 1 and self.get(it, args[0]):
                # x[x < lb] = lb
                o, side, stors = next(iter(s)).split("|")
                if stors == self.same(args[0]):
                    return {"inb": frozenset(both(union(p, side), q) for p in self.get(it, args[0]) for q in r), "$full": True}, None
            if r and all(tok(it, p) == FULL for p in self.parts(it, args[1])):
                c["$full"] = True
            return c, None
        if it.inplace:
            if c:
                c["$full"] = True
            return c, None
        w = {"sel": sel} if sel else {}
        if name == "getitem":
            col = self.column(it, args[1])
            if col:
                w["col"] = col
        if name in ("where", "masked_fill") and len(args) > 2:
            # the numbers of one operand, except where replaced by numbers within the bounds
            for p, q in ((args[-2], args[-1]), (args[-1], args[-2])) if name == "where" else ((args[2], args[0]),):
                if self.get(it, p) == {self.LOW + self.UP} and self.same(q):
                    w["like"] = (known(it, q, "like") or {self.same(q)}).copy().pop()
        return c, w

    def column(self, it, idx):
        ps = self.parts(it, idx)
        return self.same(ps[1]) if len(ps) == 2 else ""

    @staticmethod
    def same(v):
        return " ".join(sorted(next(iter(v)).stors)) if len(v) == 1 and isinstance(next(iter(v)), Abs) else ""

    @staticmethod
    def parts(it, idx):
        from .polarity import Polarity

        return Polarity().parts(it, idx)[0]

    def arg(self, args, kwargs, i, *names):
        for n in names:
            if n in kwargs:
                return kwargs[n]
        return args[i] if len(args) > i else None

    def facts(self, it, name, args, kwargs, node):
        if not args or name.startswith("attr.") or name in NOT_DATA:
            return None, None
        x = args[0]
        a = self.get(it, x)
        if name in COMPARES and len(args) > 1:
            # remember "x < bound" for a later selection
            for p, q, o in ((args[0], args[1], COMPARES[name]), (args[1], args[0], REFLECT[COMPARES[name]])):
                b = self.get(it, q)
                side = both(next(iter(b)), self.LOW if o == "<" else self.UP) if b and len(b) == 1 else ""
                if side and len(p) == 1 and isinstance(next(iter(p)), Abs):
                    return None, f"{o}|{side}|{' '.join(sorted(next(iter(p)).stors))}"
            return None, None
        if name in ("max", "maximum", "fmax", "min", "minimum", "fmin") and len(args) > 1:
            b = self.get(it, args[1])
            if a is None and b is None:
                return None, None
            up = name in ("max", "maximum", "fmax")
            return {self.extreme(p, q, up) for p in a or {""} for q in b or {""}}, None
        if name in ("clamp", "clip", "clamp_", "clip_"):
            lo, hi = self.arg(args, kwargs, 1, "min", "a_min"), self.arg(args, kwargs, 2, "max", "a_max")
            r = a
            for v, up in ((lo, True), (hi, False)):
                if v is None or all(isinstance(z, K) and z.v is None for z in v):
                    continue
                b = self.get(it, v)
                if r is not None or b is not None:
                    r = {self.extreme(p, q, up) for p in r or {""} for q in b or {""}}
            return r, None
        if name in ("clamp_min", "clamp_max", "clamp_min_", "clamp_max_"):
            b = self.get(it, args[1]) if len(args) > 1 else None
            if a is None and b is None:
                return None, None
            return {self.extreme(p, q, "min" in name) for p in a or {""} for q in b or {""}}, None
        if name == "where" and len(args) > 2:
            cnd, x, y = args[0], args[1], args[2]
        elif name == "masked_fill" and len(args) > 2:
            cnd, x, y = args[1], args[2], args[0]
        else:
            cnd = None
        if cnd is not None:
            p, q = self.get(it, x), self.get(it, y)
            if p is None or q is None:
                return ({""} if p or q else None), None
            s = known(it, cnd, "sel")
            return {self.choose(it, s, u, v, x, y) for u in p for v in q}, None
        if name in ("scatter", "index_copy", "index_put", "masked_scatter", "lerp", "setitem"):
            v = args[-1]
            b = self.get(it, v)
            if name == "setitem":
                return (b if b is not None else ({""} if self.get(it, x) else None)), None
            if a is None or b is None or name == "lerp":
                return ({""} if a or b else None), None
            return a | b, None
        if name in ("copy_", "set_") and len(args) > 1:
            return self.get(it, args[1]), None
        if name in MOVES:
            # moving numbers between decision variables mixes up their bounds
            d = self.arg(args, kwargs, MOVES[name], "dim", "axis", "dims")
            if a and d is not None and any(isinstance(z, K) and z.v in (-1, 1) for z in d):
                return {""}, None
        if name in COPIES or name in ROWWISE_VIEW or name in ROWWISE_COPY:
            return a, None
        # arithmetic: may leave the bounds
        if a is not None or any(self.get(it, v) for v in args[1:]):
            return {""}, None
        return None, None

    def extreme(self, p, q, up):
        low, high = both(p, self.LOW), both(p, self.UP)
        low2, high2 = both(q, self.LOW), both(q, self.UP)
        return union(union(low, low2), both(high, high2)) if up else union(both(low, low2), union(high, high2))

    def choose(self, it, s, u, v, x, y):
        """where(s, x, y) of values with facts u and v."""
        if s and len(s) == 1:
            for o, side, stors in [z.split("|") for z in s]:
                # the kept value is not beyond the bound it was compared with
                if stors and stors in {self.same(y)} | (known(it, y, "like") or set()):
                    return both(union(v, side), u)
        return both(u, v)


class Limits(Bounds):
    """Letters: a (>= configured minimum), b (<= configured maximum), c and d (at least / at most the old value changed by the allowed ratio).

    Every lower limit is taken to be at most every upper one, and the old value to respect all. Fact "chg": "old", "ratio" (the allowed ratio of change), "amount" (old times ratio), "1-", "1+" (one
    minus / plus the ratio). For a covariance (sigma times the square root of its diagonal is the standard
    deviation): fact "pow", a product of powers of a limited deviation and of a step size; fact "sid", the storage a value was copied from; fact "frompow", some numbers come from such a product.
    """

    name = "limits"
    LOW = "ac"
    UP = "bd"

    def get(self, it, v):
        r = super().get(it, v)
        if r is None and v and all(isinstance(z, K) and type(z.v) in (int, float) for z in v):
            # no standard deviation is negative
            return {"bd" if z.v <= 0 else "ac" if z.v == float("inf") else "" for z in v}
        return r

    def one(self, it, v, key):
        r = known(it, v, key) if v else None
        return next(iter(r)) if r and len(r) == 1 else None

    @staticmethod
    def number(v):
        return next(iter(v)).v if v and len(v) == 1 and isinstance(next(iter(v)), K) else None

    def op(self, it, name, args, kwargs, node):
        c, w = super().op(it, name, args, kwargs, node)
        if not args:
            return c, w
        x, y = args[0], args[1] if len(args) > 1 else None
        p, q = self.one(it, x, "chg"), self.one(it, y, "chg")
        name = name.rstrip("_") if name.startswith(("add", "sub", "mul", "div", "pow")) else name
        new, inb = None, None
        if name in ("full_like", "full", "scalar_tensor", "tensor", "as_tensor"):
            v = kwargs.get("fill_value") or (y if name.startswith("full") else x)
            r = self.get(it, v) if v else None
            if r:
                c["inb"] = frozenset(r)
        if name in ("zeros", "zeros_like"):
            c["inb"] = frozenset(["bd"])
        if name in COPIES or name in ROWWISE_VIEW or name in ROWWISE_COPY or name in ("abs", "absolute", "neg.abs"):
            new = p
            if name in ("abs", "absolute") and p == "old":
                inb = "abcd"
        elif name in ("mul", "multiply"):
            pair = {p, q}
            if pair == {"old", "ratio"}:
                new = "amount"
            elif pair == {"old", "1-"}:
                inb = "bcd"
            elif pair == {"old", "1+"}:
                inb = "acd"
        elif name in ("add", "sub", "subtract", "rsub"):
            if name == "rsub":
                x, y, p, q = y, x, q, p
            sub = name != "add"
            if p == "old" and q == "amount":
                inb = "bcd" if sub else "acd"
            elif not sub and {p, q} == {"old", "amount"}:
                inb = "acd"
            elif q == "ratio" and self.number(x) == 1:
                new = "1-" if sub else "1+"
            elif not sub and p == "ratio" and self.number(y) == 1:
                new = "1+"
        if new:
            c["chg"] = frozenset([new])
        if inb:
            c["inb"] = frozenset([inb])
        if p == "old" and q is None and inb is None and name not in COPIES and name not in ROWWISE_VIEW and name not in ROWWISE_COPY:
            c.pop("chg", None)
        self.covariance(it, name, args, kwargs, c)
        return c, w

    def power(self, it, v):
        """(letters, exponent of a limited deviation, exponent of a step size, that step size) of a product, or None."""
        r = self.one(it, v, "pow")
        if r:
            letters, e, f, sid = r.split("|")
            return letters, float(e), float(f), sid
        n = self.number(v)
        if n is not None and type(n) in (int, float) and n == 1:
            return "", 0.0, 0.0, ""
        return None

    def base(self, it, v):
        r = self.power(it, v)
        if r:
            return r
        letters = self.one(it, v, "inb")
        if letters and letters not in ("bd", "ac"):  # zero, infinity
            return letters, 1.0, 0.0, ""
        sid = self.one(it, v, "sid") or self.same(v or frozenset())
        return ("", 0.0, 1.0, sid) if sid else None

    def covariance(self, it, name, args, kwargs, c):
        x, y = args[0], args[1] if len(args) > 1 else None
        p, q, n = self.base(it, x), self.base(it, y) if y else None, self.number(y) if y else None
        r = None
        if name in ("truediv", "div", "divide", "true_divide", "mul", "multiply") and p and q:
            sign = 1 if name.startswith("mul") else -1
            if not (p[3] and q[3] and p[3] != q[3]) and not (p[0] and q[0] and p[0] != q[0]):
                r = p[0] or q[0], p[1] + sign * q[1], p[2] + sign * q[2], p[3] or q[3]
        elif name in ("square", "sqrt", "rsqrt", "reciprocal") and p:
            k = {"square": 2, "sqrt": 0.5, "rsqrt": -0.5, "reciprocal": -1}[name]
            r = p[0], p[1] * k, p[2] * k, p[3]
        elif name == "pow" and p and type(n) in (int, float):
            r = p[0], p[1] * n, p[2] * n, p[3]
        elif name in ("diag", "diagonal", "diag_embed") or name in COPIES or name in ROWWISE_VIEW or name in ROWWISE_COPY:
            r = self.power(it, x)
            sid = self.one(it, x, "sid") or self.same(x)
            if sid and name in ("clone", "detach", "to", "type", "reshape", "contiguous", "as_tensor"):
                c["sid"] = frozenset([sid])
        elif name == "setitem":
            r = self.power(it, args[2])
        if r:
            c["pow"] = frozenset(["|".join(map(str, r))])
        if any((self.power(it, v) or ("",))[0] or known(it, v, "frompow") for v in args):
            c["frompow"] = frozenset("y")
            if name == "setitem" or it.inplace:
                c["$full"] = True
        if name in ("sqrt", "cholesky", "linalg.cholesky", "linalg_cholesky") or name == "pow" and n == 0.5:
            if self.same(x):
                c["root"] = frozenset([self.one(it, x, "sid") or self.same(x)])
        elif name in ROWWISE_COPY and known(it, x, "root"):
            c["root"] = frozenset(known(it, x, "root"))
