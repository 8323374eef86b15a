"""Abstract domain: in which direction of a number the better solutions lie.

Facts (a fact is known only when it holds on every path; sets list the possible values):
  cols   "+-": column i of an evaluation matrix; "+": higher is better, "-": lower is better
  rowv   the tensor is one row of such a matrix
  pol    "+0" / "-0": numbers attached to the solutions; with higher (lower) number, the solution is better in objective 0
  perm   "bw0" / "wb0": indices of the solutions, from best to worst / from worst to best
  incr   "+" / "-": numbers growing / falling along their position
  head   "b0" / "w0": entries ordered so that the first ones belong to the best / worst solutions
  pick   "best0" / "worst0": index or contents of the best / worst solution(s)
  sgn    "+" / "-": sign of the numbers
  who    role of a value in a pairwise comparison (arguments "a"/"b"; "row"/"col" of a domination matrix)
  adv    role whose advantage grows with the number
  says   role which is better where the boolean is true ("best:better0": the picked value is better than the other operand, "~": or as good)
  front  "b" / "w": mask of the solutions which nobody dominates / which dominate nobody
  cnt    the numbers count, per solution, those dominating it ("-") or dominated by it ("+")
  id     entry i is the number i
  order  indices in the order of some numbers (never meant to be calculated with)
  scr    numbers assigned to the wrong solutions (an order used as if it were ranks, counts of different kinds mixed)
  dir    "+" / "-": sum of samples weighted by pol
"""
import ast

from .base import finding
from .domains import FULL, ROWWISE_COPY, ROWWISE_VIEW, is_nan_const, slice_parts, tok
from .vals import E, Abs, K, Ref

KEYS = ("cols", "rowv", "pol", "perm", "incr", "head", "pick", "sgn", "who", "adv", "says", "front", "dir", "const", "cnt", "id", "scr", "order", "slots", "src")
FLIP = {"+": "-", "-": "+", "bw": "wb", "wb": "bw", "b": "w", "w": "b", "best": "worst", "worst": "best", "better": "worse", "worse": "better"}
SAME_SHAPE = {"transpose", "t", "permute", "T", "mT", "swapaxes", "swapdims", "movedim", "expand_as", "broadcast_to", "atleast_1d", "atleast_2d", "tolist", "item",
              "repeat", "tile", "nan_to_num", "cpu", "tensor", "array", "as_tensor", "asarray", "share_memory_", "pin_memory", "iter", "enumerate", "float", "int", "bool", "pybool"}
MONO = {"exp", "log", "sqrt", "clamp", "clip", "clamp_min", "clamp_max", "relu", "tanh", "sigmoid", "round", "floor", "ceil", "log1p", "expm1", "softmax", "float_power", "nan_to_num", "cumsum"}
NONNEG = {"size", "size.getitem", "exp", "sqrt", "std", "var", "abs", "norm", "relu", "square", "sigmoid", "softmax", "len", "numel", "nelement", "rsqrt"}
UNRELATED = {"zeros_like", "ones_like", "empty_like", "full_like", "len", "size", "numel", "size.getitem", "isnan", "device", "dtype", "arange", "range"}
ADDS = {"add": 1, "sub": -1, "subtract": -1}
MULS = {"mul", "div", "truediv", "true_divide", "multiply", "divide"}
CMP = {"gt": 1, "ge": 1, "greater": 1, "greater_equal": 1, "lt": -1, "le": -1, "less": -1, "less_equal": -1}
PAIRW = {"maximum": 1, "minimum": 1, "max": 1, "min": 1, "fmax": 1, "fmin": 1}


def flip(x):
    """Reverse the direction of a fact value, keeping the objective it is about."""
    for p in ("best", "worst", "bw", "wb", "+", "-", "b", "w"):
        if x.startswith(p):
            return FLIP[p] + x[len(p):]
    return x


def obj(x):
    return x.lstrip("+-bwestro")


def times(a, b):
    """Sign product; keeps the objective of a."""
    return a if b.startswith("+") else flip(a)


def may_view(name):
    from .ext import CASTS, MAYVIEW, VIEW

    return name in ("getitem", "iter", "item", "pybool", "logical_not", "T", "mT", "data", "len", "numel", "nelement", "size", "size.getitem") or name in VIEW or name in MAYVIEW or name in CASTS


def known(it, v, key, raw=False):
    """All values a fact may have over the atoms of v, or None if unknown for one of them."""
    if not v:
        return None
    r = set()
    for a in v:
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is None or h.kind not in ("list", "tuple"):
                return None
            el = h.all_elems()
            x = known(it, el, key, True) if el else None
            if x is None:
                return None
            r |= x
            continue
        if not isinstance(a, Abs):
            return None
        f = it.facts(a).get(key)
        if not f:
            return None
        for x in f:
            if isinstance(x, tuple):
                r.update(x)
            else:
                r.add(x)
    if not raw:
        r.discard("=")  # all numbers equal, or not filled yet: agrees with every direction
    return r or None


def const(it, v):
    if v is not None and len(v) == 1:
        a = next(iter(v))
        if isinstance(a, K):
            return a.v
        x = known(it, v, "const")
        if x and len(x) == 1:
            return next(iter(x))
    return None


def number(x):
    return x if isinstance(x, (int, float)) and not isinstance(x, bool) and x == x else None


def sign(it, v):
    """Possible signs of a factor, or None."""
    r = set()
    for a in v:
        if isinstance(a, K):
            if number(a.v) is None or a.v == 0:
                return None
            r.add("+" if a.v > 0 else "-")
        else:
            s = known(it, frozenset([a]), "sgn")
            if s is None:
                c = number(const(it, frozenset([a])))
                if c is None or c == 0:
                    return None
                s = {"+" if c > 0 else "-"}
            r |= s
    return r or None


class Polarity:
    name = "polarity"

    def __init__(self, report=False):
        self.report = report

    def get(self, it, v, raw=False):
        return {kx: x for kx in KEYS for x in (known(it, v, kx, raw),) if x is not None}

    # ------------------------------------------------------------------
    def branch(self, it, e, v, t, f):
        """Remember under which comparison of scores the following statements run (a set of alternatives)."""
        if v is not None:
            s = known(it, v, "says")
            if s:
                t.dom["guard"] = frozenset(s)
                f.dom["guard"] = frozenset(self.unsay(x) for x in s)
            elif isinstance(e, ast.Name) or any(isinstance(a, Abs) and a.kind == "tensor" for a in v):
                for x in (t, f):
                    x.dom["guard"] = x.dom.get("guard", frozenset()) | {"unknown"}
        elif isinstance(e, ast.Compare) and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            (t if isinstance(e.ops[0], ast.Is) else f).dom["guard"] = frozenset(["init"])

    # ------------------------------------------------------------------
    def op(self, it, name, args, kwargs, node):
        r = self.facts(it, name, args, kwargs, node) or {}
        if "scr" not in r and name not in UNRELATED and not name.startswith("attr.") and any(known(it, v, "scr") for v in args):
            r["scr"] = {True}
        full = r.pop("$full", None)
        c = {kx: frozenset(x) for kx, x in r.items() if x}
        if full:
            c["$full"] = True
            return c, None
        if name == "setitem" or it.inplace:
            return c, None
        w = {}
        if may_view(name) and args:
            w = {kx: next(iter(x)) if len(x) == 1 else tuple(sorted(x, key=str)) for kx, x in r.items() if x}
            # facts of the whole storage which do not hold for this view are masked
            for a in args[0]:
                if isinstance(a, Abs):
                    for s in a.stors:
                        for kx in it.st.content.get(s) or ():
                            if kx in KEYS and kx not in w:
                                w[kx] = ()
        return c, w

    # ------------------------------------------------------------------
    def facts(self, it, name, args, kwargs, node):
        if not args and name not in ("arange", "linspace"):
            return None
        x = args[0] if args else E
        if name == "getitem":
            return self.getitem(it, x, args[1])
        if name == "setitem":
            return self.setitem(it, *args[:3]) if len(args) == 3 else None
        if name == "copy_":
            return self.get(it, args[1], True) if len(args) > 1 else None
        if name in ("arange", "range"):
            steps = args[2:3]
            st = const(it, steps[0]) if steps else 1
            return dict({"incr": {"+" if st > 0 else "-"}, "sgn": {"+"}}, **({"id": {True}} if len(args) == 1 else {})) if number(st) else None
        if name == "linspace" and len(args) >= 2:
            a, b = number(const(it, args[0])), number(const(it, args[1]))
            if a is not None and b is not None and a != b:
                return {"incr": {"+" if b > a else "-"}}
            return None
        if name in ("unsqueeze",):
            r = self.get(it, x)
            d = const(it, args[1] if len(args) > 1 else kwargs.get("dim"))
            if r.get("pol") and d in (0, 1):
                r["who"] = {"col" if d == 0 else "row"}
            return r
        if name in ("flip", "flipud", "fliplr"):
            r = self.get(it, x)
            out = {}
            for kx in ("perm", "incr", "head"):
                if kx in r:
                    out[kx] = {flip(y) for y in r[kx]}
            return out
        if name in ("zeros", "zeros_like", "ones", "ones_like", "new_zeros", "new_ones", "zero_"):
            return {"pol": {"="}, "order": {"="}, "slots": {"="}, "src": {"="}}
        if name in ("empty", "empty_like", "new_empty"):
            return {"pol": {"="}, "cols": {"="}, "order": {"="}, "slots": {"="}, "src": {"="}}
        if name in ("full", "full_like", "new_full", "fill_") and len(args) > 1 and is_nan_const(args[1]):
            return {"pol": {"="}, "cols": {"="}, "slots": {"="}, "src": {"="}}
        if name in ("tensor", "as_tensor", "array", "asarray", "full_like", "full", "fill_") and (name not in ("full_like", "full", "fill_") or len(args) > 1):
            v = args[1] if name in ("full_like", "full", "fill_") else x
            c = number(const(it, v))
            if c is not None:
                return {"const": {c}, "sgn": {"+" if c >= 0 else "-"}, "pol": {"="}, "src": {"="}}
        if name in ("stack", "cat", "vstack", "hstack", "concatenate", "concat", "dstack", "column_stack"):
            r = self.get(it, x, True)
            return {kx: r[kx] for kx in ("pol", "cols", "says", "sgn", "pick", "order", "src") if kx in r}
        if name in ROWWISE_VIEW or name in ROWWISE_COPY or name in SAME_SHAPE:
            return self.get(it, x, True)
        if name == "neg" or name == "negative" or name == "usub":
            return self.flipped(self.get(it, x))
        if name in MULS and len(args) > 1:
            return self.mul(it, name, x, args[1])
        if name in ADDS and len(args) > 1:
            return self.add(it, ADDS[name], x, args[1], kwargs, node)
        if name in CMP and len(args) > 1:
            return self.compare(it, CMP[name], x, args[1], name in ("gt", "lt", "greater", "less"))
        if name in ("eq", "isclose") and len(args) > 1:
            c = number(const(it, args[1]))
            r = self.get(it, x)
            if c == 0 and "pol" in r and r.get("sgn") == {"+"}:
                return {"front": {"b" if p.startswith("-") else "w" for p in r["pol"]}}
            return None
        if name in ("logical_not", "invert", "bitwise_not", "not"):
            r = self.get(it, x)
            return {"says": {self.unsay(s) for s in r["says"]}} if "says" in r else None
        if name in ("and", "or", "logical_and", "logical_or", "bitwise_and", "bitwise_or") and len(args) > 1:
            p, q = known(it, x, "says"), known(it, args[1], "says")
            if p and q and p == q:
                return {"says": p}
            if p and q:
                return {"says": p | q}
            fr = [f for f in (known(it, x, "front"), known(it, args[1], "front")) if f]
            if len(fr) == 1 and name in ("and", "logical_and", "bitwise_and"):
                return {"front": fr[0]}
            return None
        if name in ("all", "any") and "says" in self.get(it, x):
            return {"says": known(it, x, "says")}
        if name in ("sum", "count_nonzero", "mean"):
            r = self.get(it, x)
            if "says" in r and r["says"] <= {"row", "col"}:
                d = const(it, args[1] if len(args) > 1 else kwargs.get("dim", kwargs.get("axis", E)))
                if d in (-1, 1, 0, -2):
                    per = "row" if d in (-1, 1) else "col"
                    pol = {"+" if s == per else "-" for s in r["says"]}
                    return {"pol": pol, "sgn": {"+"}, "cnt": pol}
                return None
            out = {}
            if "sgn" in r:
                out["sgn"] = r["sgn"]
            if "dir" in r:
                out["dir"] = r["dir"]
            return out
        if name in ("argsort",):
            return self.argsort(it, x, args, kwargs)
        if name in ("sort.indices",):
            return self.argsort(it, x, args, kwargs)
        if name in ("sort.values", "sort", "sorted"):
            d = self.descending(it, args, kwargs)
            r = self.get(it, x)
            if d is None:
                return None
            out = {"incr": {"-" if y else "+" for y in d}}
            if "pol" in r:
                out["pol"] = r["pol"]
                out["head"] = {("b" if p.startswith("+") == y else "w") + obj(p) for p in r["pol"] for y in d}
            return out
        if name in ("argmax", "argmin", "max.indices", "min.indices", "max.values", "min.values", "amax", "amin") or name in ("max", "min") and len(args) == 1 and not kwargs:
            r = self.get(it, x)
            if "pol" not in r:
                return None
            up = "max" in name
            out = {"pick": {("best" if p.startswith("+") == up else "worst") + obj(p) for p in r["pol"]}}
            if "arg" not in name and "indices" not in name:
                out["pol"] = r["pol"]
            return out
        if name in ("topk.indices", "topk.values"):
            r = self.get(it, x)
            if "pol" not in r:
                return None
            lg = const(it, args[3] if len(args) > 3 else kwargs.get("largest", frozenset([K(True, "bool")])))
            ls = {True, False} if lg is None else {bool(lg)}
            out = {"pick": {("best" if p.startswith("+") == y else "worst") + obj(p) for p in r["pol"] for y in ls}}
            ks = ("bw", "wb") if name.endswith("indices") else ("b", "w")
            out["perm" if name.endswith("indices") else "head"] = {(ks[0] if p.startswith("+") == y else ks[1]) + obj(p) for p in r["pol"] for y in ls}
            if name.endswith("values"):
                out["pol"] = r["pol"]
            return out
        if name in PAIRW and len(args) > 1:
            p, q = self.get(it, x), self.get(it, args[1])
            out = {}
            for kx in ("pol", "incr"):
                have = [f[kx] for f in (p, q) if kx in f]
                if len(have) == 1 and not any(k2 in f for f in (p, q) for k2 in ("pol", "incr") if k2 != kx):
                    out[kx] = have[0]
            cs = [number(const(it, v)) for v in (x, args[1])]
            if name in ("maximum", "max", "fmax") and any(c is not None and c >= 0 for c in cs):
                out["sgn"] = {"+"}
            return out
        if name in MONO or name in NONNEG:
            r = self.get(it, x)
            out = {kx: r[kx] for kx in ("pol", "incr", "head", "cols", "rowv", "who") if kx in r} if name in MONO else {}
            if name in NONNEG:
                out["sgn"] = {"+"}
            elif "sgn" in r and name not in ("log",):
                out["sgn"] = r["sgn"]
            return out
        if name in ("index_select", "take_along_dim", "gather", "take") and len(args) > 1:
            ix = args[2] if name in ("index_select", "gather") and len(args) > 2 else kwargs.get("index", kwargs.get("indices", args[1]))
            return self.getitem(it, x, ix)
        if name == "where" and len(args) == 3:
            p, q = self.get(it, args[1]), self.get(it, args[2])
            for f, c in ((p, const(it, args[2])), (q, const(it, args[1]))):
                if "pol" in f and c in (float("inf"), float("-inf")):
                    # infinite penalty: on the wrong side, it wins
                    return {"pol": {z if (z[0] == "-") == (c > 0) else flip(z) for z in f["pol"]}}
            return {kx: p[kx] | q[kx] for kx in p if kx in q}
        if name in ("dot", "mv", "matmul", "vdot", "inner", "mm", "einsum") and len(args) > 1:
            rs = [self.get(it, v) for v in (args if name != "einsum" else args[1:])]
            ws = [f for f in rs if "pol" in f]
            if len(ws) == 1 and len(rs) == 2:
                return {"dir": {p[0] for p in ws[0]["pol"]}}
            return None
        return None

    # ------------------------------------------------------------------
    @staticmethod
    def unsay(s):
        if s in ("a", "b"):
            return {"a": "b", "b": "a"}[s]
        if s in ("row", "col"):
            return {"row": "col", "col": "row"}[s]
        for p in ("better", "worse"):
            if p in s:
                s = s.replace("~", "") if "~" in s else s.replace(p, p + "~")
                return s.replace(p, FLIP[p])
        return s

    @staticmethod
    def flipped(r):
        out = {}
        for kx in ("pol", "incr", "head", "sgn", "dir", "adv"):
            if kx in r:
                out[kx] = {flip(y) if kx != "adv" else Polarity.unsay(y) for y in r[kx]} if kx != "head" else r[kx]
        if "cols" in r:
            out["cols"] = {"".join(FLIP[ch] for ch in y) for y in r["cols"]}
        if "rowv" in r:
            out["rowv"] = r["rowv"]
        if "const" in r:
            out["const"] = {-y for y in r["const"]}
        for kx in ("who", "cnt", "pick"):
            if kx in r:
                out[kx] = r[kx]
        return out

    def mul(self, it, name, x, y):
        p, q = self.get(it, x), self.get(it, y)
        div = "div" in name
        for f, v in ((p, y), (q, x)):
            if "order" in f and (div and f is p or any(isinstance(a, K) and isinstance(a.v, float) for a in v)):
                return {"scr": {True}}
        for f, v, other in ((p, y, q), (q, x, p)):
            if div and f is q:
                continue
            s = sign(it, v)
            if s is not None and not any(kx in other for kx in ("pol", "cols", "incr")):
                out = {}
                for sg in s:
                    g = dict(f) if sg == "+" else self.flipped(f)
                    for kx, z in g.items():
                        if kx in ("pol", "incr", "head", "sgn", "dir", "adv", "cols", "rowv", "who", "pick"):
                            out.setdefault(kx, set()).update(z)
                return out
        out = {}
        if "pol" in p and "pol" not in q:
            out["dir"] = {z[0] for z in p["pol"]}
        elif "pol" in q and "pol" not in p and not div:
            out["dir"] = {z[0] for z in q["pol"]}
        elif "dir" in p and sign(it, y):
            out["dir"] = {times(a, b) for a in p["dir"] for b in sign(it, y)}
        elif "dir" in q and not div and sign(it, x):
            out["dir"] = {times(a, b) for a in q["dir"] for b in sign(it, x)}
        if "sgn" in p and "sgn" in q:
            out["sgn"] = {times(a, b) for a in p["sgn"] for b in q["sgn"]}
        return out

    def add(self, it, sg, x, y, kwargs, node):
        p, q = self.get(it, x), self.get(it, y)
        al = kwargs.get("alpha")
        if al is not None:
            s = sign(it, al)
            if s is None or len(s) != 1:
                return None
            if next(iter(s)) == "-":
                sg = -sg
        if sg < 0:
            q = self.flipped(q)
        out = {}
        wp, wq = p.get("who"), q.get("who")
        if "cnt" in p and p["cnt"] == q.get("cnt") and "pol" in q and q["pol"] == {flip(z) for z in p["pol"]}:
            # fewer solutions counted: still the same count
            return {kx: p[kx] for kx in ("pol", "sgn", "cnt") if kx in p}
        if "cnt" in p and "cnt" in q and sg < 0 and p["cnt"].isdisjoint(q["cnt"]) or "cnt" in p and "cnt" in q and p["cnt"].isdisjoint(q["cnt"]) and q.get("sgn") == {"-"}:
            if self.report:
                it.obs.add(finding(it, "mixed-counts", node, "from the number of solutions dominating each one, a number of solutions dominated by it is subtracted (or the reverse)"))
            return {"scr": {True}}
        if "pol" in p and "pol" in q:
            if wp and wq and wp != wq and len(wp) == len(wq) == 1 and p["pol"] == {flip(z) for z in q["pol"]} and len(p["pol"]) == 1:
                # difference between the scores of two parties
                a, b = next(iter(wp)), next(iter(wq))
                return {"adv": {a if next(iter(p["pol"])).startswith("+") else b}}
            if p["pol"] == q["pol"]:
                out["pol"] = p["pol"]
            elif ("pick" in p) != ("pick" in q):
                # numbers relative to the best or the worst one
                out["pol"] = q["pol"] if "pick" in p else p["pol"]
            return out
        if "incr" in p and "incr" in q:
            return {"incr": p["incr"]} if p["incr"] == q["incr"] else None
        for f, g in ((p, q), (q, p)):
            for kx in ("pol", "incr", "cols", "rowv", "who", "head", "pick"):
                if kx in f and not any(z in g for z in ("pol", "incr", "cols")):
                    out[kx] = f[kx]
        if "sgn" in p and (number(const(it, y)) is not None and (sg > 0) == (const(it, y) >= 0) or number(const(it, y)) == 1 and self.count(it, x)):
            if p["sgn"] == {"+"}:
                out["sgn"] = p["sgn"]
        if "dir" in p and "dir" in q:
            out["dir"] = p["dir"] | q["dir"]
        elif "dir" in p:
            out["dir"] = p["dir"]
        elif "dir" in q:
            out["dir"] = q["dir"]
        return out

    @staticmethod
    def count(it, x):
        return all(isinstance(a, Abs) and a.kind == "int" for a in x)

    def compare(self, it, up, x, y, strict):
        p, q = self.get(it, x), self.get(it, y)
        if "adv" in p and number(const(it, y)) == 0:
            return {"says": {z if up > 0 else self.unsay(z) for z in p["adv"]}}
        if "pol" in p and "pol" in q and "who" in p and "who" in q:
            if len(p["who"]) == len(q["who"]) == 1 and p["who"] != q["who"] and p["pol"] == q["pol"]:
                s = {z[0] for z in p["pol"]}
                a, b = next(iter(p["who"])), next(iter(q["who"]))
                return {"says": {a if (z == "+") == (up > 0) else b for z in s}}
            return None
        for f, g, gv, u in ((p, q, y, up), (q, p, x, -up)):
            if "pol" in f and "pick" in f and ("pol" not in g or "pick" in g and f.get("src") == {"new"} and g.get("src") != {"new"}):
                says = {("best:" if pk.startswith("best") else "worst:") + ("better" if (z[0] == "+") == (u > 0) else "worse") + ("" if strict else "~") + obj(z) for z in f["pol"] for pk in f["pick"]}
                rec = known(it, gv, "pick", True)
                if rec == {"="}:
                    return {"says": {z + " than a constant" for z in says}}
                if rec and not f["pick"] >= rec - {"="}:
                    return {"says": {z + f" than the record of {w}" for z in says for w in sorted(rec - {"="})}}
                return {"says": says}
            if "pol" in f and "pol" not in g and "who" not in f:
                return {"says": {"better" if (z[0] == "+") == (u > 0) else "worse" for z in f["pol"]}}
        return None

    def descending(self, it, args, kwargs):
        d = kwargs.get("descending")
        if d is None and len(args) > 2:
            d = args[2]
        if d is None:
            d = kwargs.get("reverse")
        if d is None:
            return {False}
        r = set()
        for a in d:
            if isinstance(a, K):
                r.add(bool(a.v))
            else:
                return {True, False}
        return r

    def argsort(self, it, x, args, kwargs):
        d = self.descending(it, args, kwargs)
        r = self.get(it, x)
        if "pol" in r:
            return {"perm": {("bw" if p.startswith("+") == y else "wb") + obj(p) for p in r["pol"] for y in d}, "order": {True}}
        if "perm" in r and d == {False}:
            return {"pol": {("-" if p.startswith("bw") else "+") + p[2:] for p in r["perm"]}, "sgn": {"+"}}
        if "order" in r or "perm" in r:
            return None
        return {"order": {True}}

    # ------------------------------------------------------------------
    def parts(self, it, idx):
        if len(idx) == 1:
            a = next(iter(idx))
            if isinstance(a, Ref):
                h = it.st.heap.get(a.oid)
                if h is not None and h.kind == "tuple" and h.items is not None:
                    return list(h.items), True
        return [idx], False

    def slice_of(self, it, v):
        if len(v) == 1:
            a = next(iter(v))
            if isinstance(a, Ref):
                return slice_parts(it, a)
        return None

    def getitem(self, it, x, idx):
        r = self.getitem1(it, x, idx) or {}
        src = known(it, x, "src", True)
        if src:
            r["src"] = src
        c, slots = const(it, idx), known(it, x, "slots", True)
        if slots and isinstance(c, int) and not isinstance(c, bool):
            p = {z.split(":", 1)[1] for z in slots if z.startswith(f"{c}:")}
            if p:
                r["pick"] = p
        if r.get("pol") == {"="}:
            r.pop("pol")
        return r

    def getitem1(self, it, x, idx):
        r = self.get(it, x)
        ps, tup = self.parts(it, idx)
        if tup and not r:
            picks = [known(it, p, "pick") for p in ps]
            picks = [p for p in picks if p]
            return {"pick": picks[-1]} if len(picks) == 1 else None
        sp = self.slice_of(it, ps[0])
        if sp is not None:
            # x[i:i + 1] of a picked index i
            lo, hi = known(it, sp[0], "pick"), known(it, sp[1], "pick")
            if lo and lo == hi:
                return dict({kx: r[kx] for kx in ("cols", "pol") if kx in r}, pick=lo)
        if not r and known(it, idx, "perm") is None and known(it, idx, "pick") is None and known(it, idx, "pol") is None:
            return None
        ps, tup = self.parts(it, idx)
        ps = [p for p in ps if not (len(p) == 1 and isinstance(next(iter(p)), K) and next(iter(p)).v is Ellipsis and len(ps) > 1)] if tup else ps
        nones = [i for i, p in enumerate(ps) if const(it, p) is None and len(p) == 1 and isinstance(next(iter(p)), K) and next(iter(p)).v is None]
        if nones and "pol" in r:
            r["who"] = {"col" if nones[0] == 0 else "row"}
            return r
        dropped_ell = tup and len(ps) < len(self.parts(it, idx)[0])
        if tup and len(ps) == 1 and dropped_ell:
            row, col = frozenset([K(Ellipsis, "ellipsis")]), ps[0]
        else:
            row, col = ps[0], ps[1] if len(ps) > 1 else None
        # ---- columns of an evaluation matrix
        if "cols" in r and "rowv" in r and not tup:
            col, row = row, None
        if "cols" in r and col is not None:
            c = const(it, col)
            if isinstance(c, int) and not isinstance(c, bool):
                cs = r.pop("cols")
                r.pop("rowv", None)
                pol = set()
                for y in cs:
                    if -len(y) <= c < len(y):
                        pol.add(y[c] + str(c % len(y)))
                if pol:
                    r["pol"] = pol
            elif tok(it, col) != FULL:
                sp = self.slice_of(it, col)
                if sp is None:
                    cs = r.pop("cols")
                    r.pop("rowv", None)
                    if all(isinstance(a, Abs) and a.kind in ("int", "num") or isinstance(a, K) for a in col):
                        ks = [a.v for a in col if isinstance(a, K)]
                        r["pol"] = {y[i] + str(i) for y in cs for i in range(len(y)) if len(ks) < len(col) or i in ks}
                elif const(it, sp[0]) not in (None, 0) or not (len(sp[0]) == 1 and isinstance(next(iter(sp[0])), K)):
                    r.pop("cols")
        if row is None or tok(it, row) == FULL:
            return r
        # ---- rows
        if "cols" in r and not tup and all(isinstance(a, K) and isinstance(a.v, int) or isinstance(a, Abs) and a.kind in ("int", "num") for a in row):
            r["rowv"] = {True}
        if "cols" in r and known(it, row, "pick") and any(isinstance(a, Abs) and a.kind in ("tensor", "int", "num") for a in row) and not tup:
            r["rowv"] = {True}
        perm, pick, ipol, front = (known(it, row, kx) for kx in ("perm", "pick", "pol", "front"))
        sp = self.slice_of(it, row)
        out = {kx: r[kx] for kx in ("pol", "cols", "rowv", "sgn", "const", "says", "pick", "who", "order") if kx in r}
        if sp is not None:
            b, e, s = (const(it, v) for v in sp)
            plain = [len(v) == 1 and isinstance(next(iter(v)), K) for v in sp]
            for kx in ("perm", "incr", "head"):
                if kx in r:
                    out[kx] = {flip(y) for y in r[kx]} if isinstance(s, int) and s < 0 else r[kx]
            heads = set(r.get("perm", ())) | set(r.get("head", ()))
            if heads and isinstance(s, int) and s < 0:
                heads = {flip(y) for y in heads}
            if heads and (s is None or abs(s) == 1):
                first = lambda y: ("best" if y.startswith("b") else "worst") + obj(y)
                neg = lambda v: self.negative(it, v)
                if plain[0] and b in (None, 0) and not (plain[1] and e is None):
                    if not neg(sp[1]):
                        out["pick"] = {first(y) for y in heads}
                    else:
                        out["pick"] = {first(y) for y in heads}
                elif plain[1] and e is None and not (plain[0] and b in (None, 0)):
                    out["pick"] = {flip(first(y)) for y in heads}
            return out
        k0 = const(it, row)
        if isinstance(k0, int) and not isinstance(k0, bool):
            heads = set(r.get("perm", ())) | set(r.get("head", ()))
            if heads and k0 in (0, -1):
                out["pick"] = {("best" if (y.startswith("b")) == (k0 == 0) else "worst") + obj(y) for y in heads}
            return out
        if perm:
            out["head"] = {y[0] + y[2:] for y in perm}
            if "pol" in r:
                ro = {obj(z) for z in r["pol"]}
                if {y[2:] for y in perm} == ro and len(perm) == 1 and len(r["pol"]) == 1:
                    out["incr"] = {"-" if y.startswith("bw") == z.startswith("+") else "+" for y in perm for z in r["pol"]}
            if "perm" in r and r["perm"]:
                out.pop("head")
        if pick:
            out["pick"] = pick
        if perm and "id" in r:
            return {"perm": perm}
        if perm and not ipol and "incr" in r and "pol" not in r:
            return {"scr": {True}}
        if ipol and "incr" in r:
            out["pol"] = {times(y, z) for y in ipol for z in r["incr"]}
        if front:
            out["front"] = front
        return out

    @staticmethod
    def negative(it, v):
        return sign(it, v) == {"-"}

    def setitem(self, it, x, idx, v):
        r = self.setitem1(it, x, idx, v, self.get(it, v))
        if not r and self.get(it, v, True):
            r = {kx: z for kx, z in self.get(it, v, True).items() if z == {"="}}
            if r and all(tok(it, p) == FULL for p in self.parts(it, idx)[0]):
                r["$full"] = True
        src = known(it, v, "src", True)
        if src:
            r = dict(r or {}, src=src)
        c = const(it, idx)
        if isinstance(c, int) and not isinstance(c, bool):
            p = known(it, v, "pick") or ({"="} if number(const(it, v)) is not None else None)
            if p:
                r = dict(r or {}, slots={f"{c}:{z}" for z in p})
        return r

    def setitem1(self, it, x, idx, v, r):
        ps, tup = self.parts(it, idx)
        row = ps[0]
        if is_nan_const(v):
            # "not evaluated" agrees with every direction
            r = {kx: {"="} for kx in ("pol", "cols", "order", "who", "pick", "src", "slots")}
            if all(tok(it, p) == FULL for p in ps):
                return dict(r, **{"$full": True})
            return r
        perm = known(it, row, "perm")
        if perm and "incr" in r and not tup:
            out = {"pol": {("+" if y.startswith("wb") == z.startswith("+") else "-") + y[2:] for y in perm for z in r["incr"]}, "$full": True}
            if "sgn" in r:
                out["sgn"] = r["sgn"]
            return out
        front = known(it, row, "front")
        if front and not tup and not r and all(isinstance(a, Abs) and a.kind in ("int", "num") or isinstance(a, K) and number(a.v) is not None for a in v):
            # the non-dominated remaining solutions get the next value of a counter
            return {"pol": {"-" if y == "b" else "+" for y in front}, "sgn": {"+"}, "$full": True}
        if tok(it, row) == FULL and (not tup or len(ps) == 1):
            return dict(r, **{"$full": True}) if r else None
        if tup and len(ps) == 2 and tok(it, row) == FULL:
            col = ps[1]
            sp = self.slice_of(it, col)
            if tok(it, col) == FULL or sp is not None and (const(it, sp[0]) == 0 or len(sp[0]) == 1 and next(iter(sp[0])) == K(None, "NoneType")):
                out = {kx: r[kx] for kx in ("pol", "cols", "pick", "sgn", "who") if kx in r}
                if "pol" in out and "cols" not in out and all(obj(z) for z in out["pol"]):
                    out["cols"] = {z[0] for z in out["pol"]}
                if out:
                    return dict(out, **{"$full": True})
                return None
            c = const(it, col)
            base = self.get(it, x)
            if isinstance(c, int) and "cols" in base and "pol" in r:
                out = {kx: base[kx] for kx in base}
                out["cols"] = {y[:c] + z[0] + y[c + 1:] if c >= 0 else y[:c] + z[0] + (y[c + 1:] if c != -1 else "") for y in base["cols"] for z in r["pol"]}
                return dict(out, **{"$full": True})
            if sp is not None and base:
                # other columns (extra evaluation data): the objectives stay as they are
                return dict(base, **{"$full": True})
            return None
        # writing the same kind of numbers into some of the rows; the interpreter joins them with what was there
        return {kx: r[kx] for kx in ("pol", "cols", "sgn", "order") if kx in r}
