"""Abstract domain: does a step of the search lead towards the better solutions.

Used together with the domain of polarity, whose fact "pol" tells which solutions a weight favours.

Facts ("+" or "-" first; "=" for zeros, which agree with every direction; a fact is known only when it holds on every path):
  role   "mu" / "sigma" / "sinv": the center, the standard deviation (or a factor of the covariance) and its inverse before the update
  smp    the numbers are solutions, center plus ("+") or minus ("-") noise; second letter "e"/"o": only those at even / odd positions
  dv     deviations of solutions from the center (or the noise they are made of); second letter as above
  d2     squared deviations
  half   "e"/"o": weights of the solutions at even / odd positions
  wd     difference of the weights of the solutions at even and at odd positions
  wm     sum of the weights of the solutions at even and at odd positions
  bst    "+c"/"+s": center / spread of the best (of the worst) solutions
  to     "+c"/"+s": step of the center / of the spread towards better (worse) solutions
  grow   exponential of such a step of the spread
  moved  "+c"/"+s": updated center / spread
  fav    weights favouring the better solutions, although not ordered like their fitnesses
  fall   "-" / "+": weights falling / rising with the rank ("h"/"t" second: only those of the first / last ranks)
"""
from .base import finding
from .bounds import COPIES
from .domains import ROWWISE_COPY, ROWWISE_VIEW
from .polarity import known, number, sign, const
from .vals import Abs, Ref

KEYS = ("role", "smp", "dv", "d2", "half", "wd", "wm", "bst", "to", "grow", "moved", "fall", "fav")
KEEP = COPIES | set(ROWWISE_VIEW) | set(ROWWISE_COPY) | {"as_tensor", "asarray", "clone", "detach", "to", "reshape", "view", "expand", "unsqueeze", "squeeze", "flatten", "contiguous", "where", "clamp", "clip", "float", "double", "cpu", "index_put", "requires_grad_", "diag", "cholesky", "linalg.cholesky", "diag_embed"}
ADD = {"add": 1, "sub": -1, "subtract": -1}
MUL = {"mul", "multiply", "div", "truediv", "true_divide", "divide"}
MAT = {"matmul", "mv", "mm", "bmm", "dot", "einsum", "inner", "vdot", "tensordot"}
SUM = {"sum", "mean", "nansum", "nanmean"}
NOISE = {"randn", "randn_like", "normal", "normal_", "standard_normal"}
F = {"+": "-", "-": "+", "=": "="}


def flip(xs):
    return {F[x[0]] + x[1:] for x in xs}


def prod(xs, ys):
    return {("=" if "=" in (x[0], y[0]) else "+" if x[0] == y[0] else "-") for x in xs for y in ys}


class Direction:
    name = "direction"

    def get(self, it, v):
        return {kx: x for kx in KEYS for x in (known(it, v, kx, True),) if x is not None}

    def op(self, it, name, args, kwargs, node):
        if name == "tell" and len(args) == 3:
            self.told(it, args, node)
            return {}, {}
        base = name.rstrip("_") if name not in ("normal_",) else name
        r = self.facts(it, base, args, kwargs) or {}
        c = {kx: frozenset(x) for kx, x in r.items() if x}
        if name == "setitem":
            return c, None
        if it.inplace:
            if c and args and not any(kx == "part" for z in args[0] if isinstance(z, Abs) for kx, _ in z.view):
                c["$full"] = True
            return c, None
        w = {}
        if name in ("getitem", "iter") or name in KEEP:
            w = {kx: next(iter(x)) if len(x) == 1 else tuple(sorted(x)) for kx, x in r.items() if x}
        return c, w

    # ------------------------------------------------------------------
    def told(self, it, args, node):
        """Outside optimizers minimise the numbers they are told."""
        p = known(it, args[2], "pol")
        it.obs.count("obligations_decided" if p else "obligations_undecided")
        if p and any(z[0] == "+" for z in p):
            it.obs.add(finding(it, "wrong-direction", node, "the solver of pycma, which minimises, is told numbers which are higher for better solutions"))

    def weight(self, it, v):
        """(kind, signs, half) of numbers which favour some solutions: kind "w" per solution, "d" difference and "m" sum of pairs."""
        p = known(it, v, "pol") or known(it, v, "fav")
        if p:
            h = known(it, v, "half") or {""}
            return "w", {x[0] for x in p}, next(iter(h)) if len(h) == 1 else "?"
        for kind, key in (("d", "wd"), ("m", "wm")):
            p = known(it, v, key)
            if p:
                return kind, p, ""
        return None

    def facts(self, it, name, args, kwargs):
        if name in NOISE:
            return {"dv": {"+"}}
        if name in ("empty", "empty_like", "new_empty"):
            return {"dv": {"="}}
        if name in ("max", "min", "maximum", "minimum") and len(args) > 1:
            b = self.get(it, args[1])
            a = self.get(it, args[0])
            return {kx: a.get(kx, set()) | b.get(kx, set()) for kx in ("moved", "to") if kx in a or kx in b}
        if name in ("zeros", "zeros_like", "new_zeros", "zero"):
            return {"to": {"=c", "=s"}}
        if not args:
            return None
        x, y = args[0], args[1] if len(args) > 1 else None
        a = self.get(it, x)
        if name == "getitem":
            return self.getitem(it, x, y, a)
        if name == "setitem":
            return self.get(it, args[2]) if len(args) > 2 else None
        if name in ("copy", "set") and it.inplace and y:
            return self.get(it, y)
        if name == "where" and len(args) > 2:
            b, c = self.get(it, args[1]), self.get(it, args[2])
            for f, v in ((b, args[1]), (c, args[2])):
                p = known(it, v, "pol")
                if p and "fav" not in f:
                    f["fav"] = {z[0] for z in p}
            return {kx: b[kx] | c[kx] for kx in b if kx in c}
        if name in ("cat", "concatenate", "hstack"):
            f = self.joined(it, x)
            if f:
                return {"fall": f}
        if "fall" not in a:
            f = known(it, x, "incr")
            if f and name in KEEP | MUL | {"getitem", "softmax"}:
                a = {**a, "fall": f}
        if name in ("stack", "cat", "vstack", "hstack", "concatenate") or name in KEEP:
            return a
        if name in ("neg", "negative", "usub"):
            return {kx: flip(z) for kx, z in a.items() if kx in ("dv", "d2", "to", "wd", "wm", "bst", "grow")}
        if name in ADD and y:
            return self.add(it, ADD[name], x, y, kwargs)
        if name in ("square",) or name == "pow" and const(it, y) in (2, 2.0):
            if "dv" in a:
                return {"d2": {"+"}}
            if "to" in a:
                return {"to": {"+s"}}
            return {"role": a["role"]} if "role" in a else None
        if name in ("pow", "sqrt") and "role" in a:
            return {"role": a["role"]}
        if name in MUL and y:
            r = self.mul(it, x, y, "div" in name) or {}
            for u, v, second in ((x, y, False), (y, x, True)):
                f = self.falls(it, u)
                if f and not self.falls(it, v) and not (second and "div" in name):
                    r = {**r, "fall": {z if g == "+" else F[z[0]] + z[1:] for z in f for g in sign(it, v) or {"+"}}}
            return r
        if name in ("outer", "ger") and y:
            b = self.get(it, y)
            return {"d2": {"+"}} if "dv" in a and "dv" in b else {"to": {"+s"}} if "to" in a and "to" in b else None
        if name in MAT:
            vs = args[1:] if name == "einsum" else args[:2]
            if len(vs) == 2:
                return self.mul(it, vs[0], vs[1], False, True)
            return None
        if name in SUM:
            out = {kx: a[kx] for kx in ("to",) if kx in a}
            p = known(it, x, "pick")
            if p:
                s = {"+" if z.startswith("best") else "-" for z in p}
                if "smp" in a:
                    out["bst"] = {z + "c" for z in s}
                elif "dv" in a:
                    out["to"] = {z + "c" for z in prod(a["dv"], s)}
                elif "d2" in a:
                    out["to"] = {z + "s" for z in prod(a["d2"], s)}
            return out
        if name in ("std", "var"):
            p = known(it, x, "pick")
            if p and ("smp" in a or "dv" in a):
                return {"bst": {("+" if z.startswith("best") else "-") + "s" for z in p}}
            return None
        if name in ("exp", "matrix_exp"):
            return {"grow": a["to"]} if "to" in a else {"role": a["role"]} if "role" in a else None
        if name in ("optim.step",):
            # the parameter (zero before) becomes minus a positive multiple of its gradient
            g = self.get(it, y)
            return {"to": flip(g["to"])} if "to" in g else None
        return None

    def getitem(self, it, x, idx, a):
        out = dict(a)
        fall = out.pop("fall", None) or self.falls(it, x)
        from .polarity import Polarity

        ps = Polarity().parts(it, idx)[0]
        if ps and fall:
            h = self.end(it, ps[0])
            p = known(it, ps[0], "pol")
            if not p and known(it, ps[0], "perm"):
                out["fav"] = {"-"}  # the weight of a rank given to the solution whose number is that rank
            if p:
                out["pol"] = {z if f[0] == "+" else F[z[0]] + z[1:] for z in p for f in fall}
            elif h:
                out["fall"] = {z[0] + h for z in fall}
        if ps:
            h = self.stride(it, ps[0])
            if h == "?":
                for kx in ("smp", "dv"):
                    out.pop(kx, None)
                out["half"] = {"?"}
            elif h:
                for kx in ("smp", "dv", "d2"):
                    if kx in out:
                        out[kx] = {z[0] + h for z in out[kx]}
                out["half"] = {h}
        return out

    def falls(self, it, v):
        return known(it, v, "fall") or known(it, v, "incr")

    def joined(self, it, xs):
        """Weights of the first and of the last ranks joined again."""
        ex = [it.exact_items(frozenset([q])) for q in xs]
        out = set()
        for items in ex:
            if not items or len(items) != 2:
                return None
            f, g = (self.falls(it, z) for z in items)
            zero = [known(it, z, "to", True) == {"=c", "=s"} for z in items]
            if f and (g or zero[1]):
                if all(z[1:] == "h" for z in f) and all(z[1:] == "t" for z in g or ()):
                    out |= {z[0] for z in f}
                    continue
            if g and (f or zero[0]) and all(z[1:] == "h" for z in g):
                out |= {F[z[0]] for z in g}
                continue
            return None
        return out or None

    @staticmethod
    def end(it, p):
        """"h" / "t" for the part before / from some position."""
        from .domains import slice_parts

        sp = slice_parts(it, next(iter(p))) if len(p) == 1 and isinstance(next(iter(p)), Ref) else None
        if not sp:
            return ""
        lo, hi, st = sp
        if st is not None and const(it, st) not in (None, 1):
            return ""
        none = [z is None or const(it, z) == 0 or all(getattr(q, "v", 0) is None for q in z) for z in (lo, hi)]
        return "h" if none[0] and not none[1] else "t" if none[1] and not none[0] else ""

    @staticmethod
    def stride(it, p):
        """"e" / "o" for 0::2 / 1::2, "?" for another stride, else ""."""
        from .domains import slice_parts

        sp = slice_parts(it, next(iter(p))) if len(p) == 1 and isinstance(next(iter(p)), Ref) else None
        if not sp:
            return ""
        lo, hi, st = sp
        s = const(it, st) if st is not None else None
        if s in (None, 1):
            return ""
        b = const(it, lo) if lo is not None else None
        if s == 2 and b in (None, 0):
            return "e"
        if s == 2 and b == 1:
            return "o"
        return "?"

    def add(self, it, sg, x, y, kwargs):
        a, b = self.get(it, x), self.get(it, y)
        al = kwargs.get("alpha")
        if al is not None and sign(it, al) == {"-"}:
            sg = -sg
        out = {}
        # pairs of mirrored solutions
        wx, wy = self.weight(it, x), self.weight(it, y)
        if wx and wy and wx[0] == wy[0] == "w" and {wx[2], wy[2]} == {"e", "o"} and wx[1] == wy[1]:
            if sg < 0:
                out["wd"] = wx[1] if wx[2] == "e" else flip(wx[1])
            else:
                out["wm"] = wx[1]
            return out
        mu = [("mu" in z.get("role", ())) for z in (a, b)]
        sd = [("sigma" in z.get("role", ())) for z in (a, b)]
        if "smp" in a and mu[1] and sg < 0:
            return {"dv": {"+" + z[1:] for z in a["smp"]}}
        if mu[0] and "smp" in b and sg < 0:
            return {"dv": {"-" + z[1:] for z in b["smp"]}}
        for z, other, first in ((a, b, True), (b, a, False)):
            m, s = (mu, sd) if first else (mu[::-1], sd[::-1])
            if m[0] and "dv" in other and not (not first and sg < 0):
                d = other["dv"] if first and sg > 0 or not first else flip(other["dv"])
                return {"smp": set(d)}
            if "bst" in z and m[1] and first and sg < 0:
                return {"to": {t for t in z["bst"] if t[1] == "c"} or z["bst"]}
            if "bst" in z and m[1] and not first and sg < 0:
                return {"to": flip(z["bst"])}
            if "bst" in z and s[1] and sg < 0:
                return {"to": z["bst"] if first else flip(z["bst"])}
            if (m[0] or s[0]) and "to" in other and not (not first and sg < 0):
                t = {q for q in other["to"] if q[0] != "="} or other["to"]
                t = t if sg > 0 else flip(t)
                return {"moved": t | z.get("moved", set()), "role": z["role"]}
        for kx in ("to", "dv", "d2", "wd", "wm", "moved"):
            p, q = a.get(kx), b.get(kx)
            if q and sg < 0:
                q = flip(q)
            if p and q:
                out[kx] = {z for z in p | q if z[0] != "="} or p
            elif (p or q) and kx not in ("moved",):
                if kx == "dv" and ("smp" in a or "smp" in b):
                    continue
                out[kx] = p or q
        return out

    def mul(self, it, x, y, div, mat=False):
        a, b = self.get(it, x), self.get(it, y)
        wx, wy = self.weight(it, x), self.weight(it, y)
        for w, f in ((wx, b), (wy, a)) if not div else ():
            if w is None or "to" in f and not ("dv" in f or "d2" in f):
                continue
            kind, s, h = w
            if "dv" in f and (kind != "m"):
                out = set()
                for d in f["dv"]:
                    if kind == "d":
                        if d[1:] not in ("e", "o"):
                            return None
                        out |= prod(s, {d[0] if d[1:] == "e" else F[d[0]]})
                    elif h == "?" or (h != d[1:] and not (h and d[1:])):
                        return None
                    else:
                        out |= prod(s, {d[0] if h == d[1:] else F[d[0]]})
                return {"to": {z + "c" for z in out}}
            if "d2" in f and kind != "d":
                return {"to": {z + "s" for z in prod(s, {d[0] for d in f["d2"]})}}
        if wx and wx[0] in "dm" or wy and wy[0] in "dm":
            w, other = (wx, y) if wx and wx[0] in "dm" else (wy, x)
            sg = sign(it, other) or {"+"}
            if div and w is wy:
                return None
            return {"w" + w[0]: prod(w[1], sg)}
        if not div and "dv" in a and "dv" in b:
            return {"d2": prod({z[0] for z in a["dv"]}, {z[0] for z in b["dv"]})}
        if "grow" in a or "grow" in b:
            f, o = (a, b) if "grow" in a else (b, a)
            if {"sigma", "sinv"} & set(o.get("role", ())) and not (div and f is b):
                return {"moved": {z for z in f["grow"]}}
            if div and f is b and {"sigma", "sinv"} & set(o.get("role", ())):
                return {"moved": flip(f["grow"])}
        out = {}
        for f, v, second in ((a, y, False), (b, x, True)):
            if div and second:
                continue
            sg = sign(it, v) or {"+"}
            for kx in ("dv", "d2", "to", "bst"):
                if kx in f and kx not in out:
                    out[kx] = {z if g == "+" else F[z[0]] + z[1:] for z in f[kx] for g in sg}
        if bool(wx) != bool(wy) and not out and not mat:
            w, v = (wx, y) if wx else (wy, x)
            if w[0] == "w" and not w[2] and not (div and w is wy):
                out["fav"] = prod(w[1], sign(it, v) or {"+"})
        return out
