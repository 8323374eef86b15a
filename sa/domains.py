"""Abstract domains: facts about tensor contents and regions, attached to storages by the interpreter."""
import math

from .vals import E, Abs, K, Ref, V

FULL = "full"
NANV = float("nan")

# operations whose result has the rows of the first operand, in the same order
ROWWISE_VIEW = {
    "view", "view_as", "detach", "as_subclass", "to", "contiguous", "as_tensor", "asarray", "data", "cpu", "cuda", "type", "type_as", "numpy", "from_numpy",
    "reshape", "float", "double", "half", "long", "int", "bool", "requires_grad_", "ravel", "flatten", "unsqueeze", "squeeze", "positive", "detach_", "alias",
    "real", "expand", "ascontiguousarray", "asanyarray", "__array__", "_make_subclass", "conj",
}
ROWWISE_COPY = {"clone", "astype", "copy", "deepcopy", "nan_to_num", "round", "float", "double", "half", "long", "int", "bool"}


def slice_parts(it, ref):
    h = it.st.heap.get(ref.oid)
    if h is None or h.kind != "slice":
        return None
    return h.items


def tok(it, v, depth=0):
    """Canonical token of one index component; FULL for everything."""
    if len(v) != 1:
        return ("alt",) + tuple(sorted((repr(tok(it, V(a), depth + 1)) for a in v)))
    a = next(iter(v))
    if isinstance(a, K):
        if a.v is Ellipsis:
            return FULL
        return ("k", a.v)
    if isinstance(a, Ref):
        sp = slice_parts(it, a)
        if sp is not None:
            ts = [tok(it, x, depth + 1) for x in sp]
            if all(t == ("k", None) for t in ts):
                return FULL
            return ("s",) + tuple(ts)
        h = it.st.heap.get(a.oid)
        if h is not None and h.kind in ("list", "tuple") and h.items is not None:
            return ("l",) + tuple(tok(it, x, depth + 1) for x in h.items)
        return ("ix", a.oid)
    if isinstance(a, Abs):
        if a.kind in ("int", "num"):
            s = dict(a.view).get("sym")
            return ("sym", s) if s is not None else ("?",)
        if a.stors:
            return ("ix",) + tuple(sorted(a.stors)) + (dict(a.view).get("sel", ()),)
        return ("?",)
    return ("?", repr(a))


def index_toks(it, idx):
    """(row token, column range) of an index value; column range None when not a simple range."""
    if len(idx) == 1:
        a = next(iter(idx))
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is not None and h.kind == "tuple" and h.items is not None:
                its = [tok(it, x) for x in h.items]
                if its and h.items[0] == V(K(Ellipsis, "ellipsis")):
                    if len(its) == 1:
                        return FULL, (None, None)
                    return FULL, col_range(it, h.items[-1])
                row = its[0] if its else FULL
                col = (None, None)
                for x in h.items[1:]:
                    c = col_range(it, x)
                    if c != (None, None):
                        col = c
                return row, col
    return tok(it, idx), (None, None)


def col_range(it, v):
    t = tok(it, v)
    if t == FULL:
        return (None, None)
    if t[0] == "s" and t[3] == ("k", None):
        b, e = t[1], t[2]
        return (None if b in (("k", None), ("k", 0)) else b, None if e == ("k", None) else e)
    return None


def known(t):
    """Does the token denote one determined index (same token, same rows)?"""
    if isinstance(t, tuple):
        return t[:1] != ("?",) and t[:1] != ("alt",) and all(known(x) for x in t[1:])
    return True


def sel_of(a):
    return dict(a.view).get("sel", ())


def is_nan_const(v):
    return bool(v) and all(isinstance(a, K) and isinstance(a.v, float) and a.v != a.v for a in v)


class Regions:
    """Which regions of a storage were certainly overwritten last, and by what ('nan' / 'other').

    content key ("w", row selector chain, col begin, col end) -> frozenset of tags.  Keys surviving joins hold on all paths."""

    name = "regions"

    def tag_of(self, it, v):
        if is_nan_const(v):
            return "nan"
        ok = bool(v)
        for a in v:
            if not (isinstance(a, Abs) and self.all_nan(it, a)):
                ok = False
        return "nan" if ok else "other"

    def covers(self, it, a, tag):
        """Is the region seen through atom `a` certainly filled with `tag` (one tag, or any of several)?"""
        sel = sel_of(a)
        tag = frozenset([tag] if isinstance(tag, str) else tag)
        if not a.stors:
            return False
        for s in a.stors:
            c = it.st.content.get(s) or {}
            if not self._cov(c, sel, tag):
                return False
        return True

    @staticmethod
    def _cov(c, sel, tag):
        for n in range(len(sel), -1, -1):
            p = sel[:n]
            edges = {}
            for kx, v in c.items():
                if isinstance(kx, tuple) and kx[0] == "w" and kx[1] == p and v <= tag:
                    edges.setdefault(kx[2], []).append(kx[3])
            todo, seen = [None], set()
            first = True
            while todo:
                x = todo.pop()
                for y in edges.get(x, ()):
                    if y is None:
                        return True
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
        return False

    @staticmethod
    def _chain(c, sel):
        """Tags along adjacent column ranges that together span all columns, if there are such."""
        edges = {}
        for kx, v in c.items():
            if isinstance(kx, tuple) and kx[0] == "w" and kx[1] == sel and (kx[2], kx[3]) != (None, None):
                edges.setdefault(kx[2], []).append((kx[3], v))
        todo, seen = [(None, E)], set()
        while todo:
            x, acc = todo.pop()
            for y, v in edges.get(x, ()):
                if y is None:
                    return acc | v
                if y not in seen:
                    seen.add(y)
                    todo.append((y, acc | v))
        return None

    def all_nan(self, it, a):
        return self.covers(it, a, "nan")

    def op(self, it, name, args, kwargs, node):
        if name in ("full", "full_like", "new_full"):
            fv = kwargs.get("fill_value") or (args[-1] if len(args) > 1 else None)
            if name == "new_full" and len(args) > 2:
                fv = args[2]
            if fv is not None and is_nan_const(fv):
                return {("w", (), None, None): frozenset(["nan"])}, None
            return None
        if name == "getitem":
            row, col = index_toks(it, args[1])
            a = next(iter(args[0]))
            if not isinstance(a, Abs):
                return None
            sel = sel_of(a)
            sel2 = sel if row == FULL else sel + (row,)
            c = {}
            part = Abs(a.kind, a.stors, a.ro, frozenset({("sel", sel2)}))
            if self.all_nan(it, part):
                c = {("w", (), None, None): frozenset(["nan"])}
            elif self.covers(it, part, ("nan", "other")):
                c = {("w", (), None, None): frozenset(["nan", "other"])}
            return c, ({"sel": sel2} if sel2 else None)
        if name in ("setitem", "fill_", "copy_", "zero_") or it.inplace:
            a = next(iter(args[0])) if args and args[0] else None
            if not isinstance(a, Abs) or len(a.stors) != 1:
                return None
            row, col = FULL, (None, None)
            if name == "fill_":
                tg = self.tag_of(it, args[1] if len(args) > 1 else kwargs.get("value", E))
            elif name == "copy_":
                tg = self.tag_of(it, args[1] if len(args) > 1 else kwargs.get("src", E))
            elif name == "setitem":
                row, col = index_toks(it, args[1])
                tg = "other" if len(args) > 3 else self.tag_of(it, args[2])
            elif name == "zero_":
                tg = "other"
            elif it.inplace in ("masked_fill_", "index_fill_", "masked_scatter_", "index_copy_", "index_add_", "scatter_", "index_put_", "fill_diagonal_", "scatter_add_"):
                row, tg = ("?",), "nan" if "fill" in it.inplace and self.tag_of(it, args[-1]) == "nan" else "other"
            elif it.inplace in ("mul_", "add_", "sub_", "div_") and len(args) > 1 and self.tag_of(it, args[1]) == "nan":
                tg = "nan"
            else:
                tg = "nan" if self.all_nan(it, a) else "other"
            sel = sel_of(a)
            sel2 = sel if row == FULL else sel + (row,)
            sure = known(sel2)
            old = it.st.content.get(next(iter(a.stors))) or {}
            new = {}
            for kx, v in old.items():
                if isinstance(kx, tuple) and kx[0] == "w":
                    if sure and col is not None and kx[1] == sel2 and (kx[2], kx[3]) != (None, None) and (kx[2] == col[1] or kx[3] == col[0]) and (kx[2], kx[3]) != col:
                        new[kx] = v  # adjacent column ranges do not overlap
                    elif sure and col is not None and kx[1][: len(sel2)] == sel2 and (col == (None, None) or col == (kx[2], kx[3])):
                        continue  # covered by the new write
                    else:
                        new[kx] = v | {tg}
                elif kx == "log":
                    new[kx] = v | {(sel2, col)}
                else:
                    new[kx] = v
            if sure and col is not None:
                new[("w", sel2, col[0], col[1])] = frozenset([tg])
                tags = self._chain(new, sel2)
                if tags is not None:
                    new[("w", sel2, None, None)] = tags
            new["$full"] = True
            return new, None
        if name in ROWWISE_COPY or name in ROWWISE_VIEW:
            sels = {sel_of(a) for a in args[0] if isinstance(a, Abs)} if args else set()
            c = {}
            if args and args[0] and all(isinstance(a, Abs) and self.all_nan(it, a) for a in args[0]):
                c = {("w", (), None, None): frozenset(["nan"])}
            w = None
            if name in ROWWISE_VIEW and len(sels) == 1:
                s = next(iter(sels))
                if s:
                    w = {"sel": s}
            return c, w
        if name in ("cat", "concat", "concatenate", "vstack", "hstack", "stack"):
            from .ext import _flat_operands

            ops = _flat_operands(it, args[:1])
            if ops and all(self.all_nan(it, a) for a in ops):
                return {("w", (), None, None): frozenset(["nan"])}, None
            return None
        return None


class Origins:
    """Where the contents of a storage come from: exact copies keep the origin, everything else forgets it."""

    name = "origins"

    def op(self, it, name, args, kwargs, node):
        if name in ("setitem", "copy_") and args and len(args) > 1:
            v = args[2] if name == "setitem" and len(args) == 3 else args[1]
            if name == "copy_" or tok(it, args[1]) == FULL:
                o = self.of(it, v)
                return ({"origin": o} if o else {}), None
            return {}, None
        if it.inplace:
            return None
        if name in ROWWISE_COPY or name in ROWWISE_VIEW:
            o = self.of(it, args[0]) if args else None
            return ({"origin": o} if o else {}), None
        if name == "getitem" and tok(it, args[1]) == FULL:
            o = self.of(it, args[0])
            return ({"origin": o} if o else {}), None
        return None

    @staticmethod
    def of(it, v):
        r = E
        for a in v:
            if not isinstance(a, Abs) or not a.stors:
                return None
            for s in a.stors:
                o = (it.st.content.get(s) or {}).get("origin")
                if not o:
                    return None
                r = r | o
        return r
