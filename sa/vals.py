"""Abstract values, heap objects and analysis state."""
from typing import NamedTuple

E = frozenset()


class K(NamedTuple):
    v: object
    t: str
    tag: str = "K"


class Ref(NamedTuple):
    oid: object
    tag: str = "R"


class Abs(NamedTuple):
    """A value that is not tracked structurally: a tensor, a number, or something unknown.

    stors: storages the value may share memory with; ro: read-only handle; view: immutable facts.
    """

    kind: str
    stors: frozenset = E
    ro: bool = False
    view: frozenset = E
    tag: str = "A"


class FnA(NamedTuple):
    fi: object
    frame: object = None  # defining frame id (closures)
    tag: str = "F"


class BM(NamedTuple):
    fn: object  # FnA
    self_: object  # atom
    tag: str = "B"


class ClsA(NamedTuple):
    ci: object
    tag: str = "C"


class ModA(NamedTuple):
    m: object
    tag: str = "M"


class Ext(NamedTuple):
    """External name, e.g. torch.zeros; or a method of an untracked receiver."""

    q: str
    recv: object = None  # atom or None
    tag: str = "X"


class SuperA(NamedTuple):
    ci: object
    self_: object
    tag: str = "S"


NAN = float("nan")


def k(v):
    if isinstance(v, float) and v != v:
        v = NAN  # one object, so that equal constants compare equal
    return frozenset([K(v, type(v).__name__)])


def kk(v):
    return K(v, type(v).__name__)


NONE = k(None)
TRUE = k(True)
FALSE = k(False)
BOTH = TRUE | FALSE


def V(*atoms):
    return frozenset(atoms)


def absv(kind, stors=E, ro=False, view=E):
    return frozenset([Abs(kind, frozenset(stors), ro, frozenset(view))])


ANY = absv("any")
INT = absv("int")
NUM = absv("num")
STR = absv("str")
BOOL = absv("bool")

MAX_ATOMS = 24


def join_v(a, b):
    if a is b or b <= a:
        return a
    if a <= b:
        return b
    r = a | b
    if len(r) > MAX_ATOMS:
        r = widen_v(r)
    return r


def widen_v(r):
    """Collapse constants and untracked values; keep references."""
    keep = []
    stors = set()
    kinds = set()
    ro = None
    n = 0
    for x in r:
        if isinstance(x, Abs):
            stors |= x.stors
            kinds.add(x.kind)
            ro = x.ro if ro is None else (ro and x.ro)
            n += 1
        elif isinstance(x, K) and x.v is not None and not isinstance(x.v, bool):
            kinds.add({"int": "int", "float": "num", "str": "str"}.get(x.t, "any"))
            n += 1
        else:
            keep.append(x)
    if n:
        kind = kinds.pop() if len(kinds) == 1 else ("num" if kinds <= {"int", "num"} else "any")
        keep.append(Abs(kind, frozenset(stors), bool(ro), E))
    if len(keep) > 2 * MAX_ATOMS:
        return absv("any", stors)
    return frozenset(keep)


_MENT = {}


def v_mentions(v):
    r = _MENT.get(v)
    if r is None:
        m = set()
        for a in v:
            atom_mentions(a, m)
        r = _MENT[v] = frozenset(m)
    return r


def atom_mentions(a, m):
    if isinstance(a, Ref):
        m.add(a.oid)
    elif isinstance(a, Abs):
        m |= a.stors
    elif isinstance(a, BM):
        atom_mentions(a.self_, m)
        atom_mentions(a.fn, m)
    elif isinstance(a, (Ext, SuperA)):
        x = a.recv if isinstance(a, Ext) else a.self_
        if x is not None:
            atom_mentions(x, m)
    elif isinstance(a, FnA):
        if a.frame is not None:
            m.add(("fr", a.frame))


class HObj:
    """Heap object. Treated as immutable: writers replace it through State.put."""

    __slots__ = ("kind", "cls", "fields", "items", "elem", "keys", "open", "_ment")

    def __init__(self, kind, cls=None, fields=None, items=None, elem=E, keys=E, open_=False):
        self.kind = kind  # inst | list | tuple | dict | set | cell
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.items = items  # exact items (list/tuple: python tuple of V; dict: dict key-atom -> V) or None
        self.elem = elem  # smashed element / value
        self.keys = keys  # smashed keys (dict)
        self.open = open_  # inst: unknown fields may exist
        self._ment = None

    def mentions(self):
        """Ids of heap objects and storages this object refers to directly."""
        m = self._ment
        if m is None:
            vs = [self.elem, self.keys]
            vs += [v for n, v in self.fields.items() if isinstance(v, frozenset) and n not in ("$opt", "$ne")]
            if self.items is not None:
                if isinstance(self.items, dict):
                    vs += list(self.items.values())
                    vs.append(frozenset(self.items))
                else:
                    vs += list(self.items)
            m = set()
            for v in vs:
                m |= v_mentions(v)
            m = self._ment = frozenset(m)
        return m

    def copy(self):
        return HObj(
            self.kind,
            self.cls,
            dict(self.fields),
            (dict(self.items) if isinstance(self.items, dict) else self.items),
            self.elem,
            self.keys,
            self.open,
        )

    def key(self):
        return (
            self.kind,
            self.cls,
            self.fields,
            self.items,
            self.elem,
            self.keys,
            self.open,
        )

    def __eq__(self, o):
        return self is o or (isinstance(o, HObj) and self.key() == o.key())

    def __hash__(self):
        return id(self)

    def all_elems(self):
        r = self.elem
        if self.items is not None:
            for v in self.items.values() if isinstance(self.items, dict) else self.items:
                r = join_v(r, v)
        return r

    def smash(self):
        """Forget exact structure."""
        if self.items is None:
            return self
        o = self.copy()
        o.elem = self.all_elems()
        if isinstance(self.items, dict):
            ks = self.keys
            for a in self.items:
                ks = join_v(ks, frozenset([a]))
            o.keys = ks
        o.items = None
        return o


def join_h(a, b):
    if a is b or a == b:
        return a
    if a.kind != b.kind:
        o = HObj("cell", elem=join_v(a.all_elems(), b.all_elems()))
        return o
    o = HObj(a.kind, a.cls if a.cls is b.cls else (a.cls or b.cls))
    o.open = a.open or b.open
    f = dict(a.fields)
    for n, v in b.fields.items():
        f[n] = join_v(f[n], v) if n in f else v
    o.fields = f
    if a.items is not None and b.items is not None:
        if isinstance(a.items, dict):
            if set(a.items) == set(b.items):
                o.items = {kx: join_v(a.items[kx], b.items[kx]) for kx in a.items}
                o.elem = join_v(a.elem, b.elem)
                o.keys = join_v(a.keys, b.keys)
                return o
            # keys that are present on only one side: present-or-absent, keep them
            o.items = dict(a.items)
            for kx, v in b.items.items():
                o.items[kx] = join_v(o.items[kx], v) if kx in o.items else v
            o.elem = join_v(a.elem, b.elem)
            o.keys = join_v(a.keys, b.keys)
            o.fields = dict(o.fields)
            opt = set(a.fields.get("$opt", ())) | set(b.fields.get("$opt", ()))
            opt |= set(a.items) ^ set(b.items)
            o.fields["$opt"] = frozenset(opt)
            return o
        if len(a.items) == len(b.items):
            o.items = tuple(join_v(x, y) for x, y in zip(a.items, b.items))
            o.elem = join_v(a.elem, b.elem)
            return o
    sa, sb = a.smash(), b.smash()
    o.items = None
    o.elem = join_v(sa.elem, sb.elem)
    o.keys = join_v(sa.keys, sb.keys)
    if (sa.fields.get("$ne") or a.items) and (sb.fields.get("$ne") or b.items):
        o.fields["$ne"] = True
    elif "$ne" in o.fields:
        o.fields = {n: v for n, v in o.fields.items() if n != "$ne"}
    return o


def join_facts(a, b):
    if a is b:
        return a
    r = {}
    for n, v in a.items():
        w = b.get(n)
        if w is not None:
            r[n] = v | w if v is not w else v
            if len(r[n]) > 8:
                del r[n]
    return r


class State:
    __slots__ = ("frames", "heap", "content", "glob", "frozen", "trace", "summ", "dom", "_own")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.content = {}  # storage -> {key: frozenset}
        self.glob = {}
        self.frozen = {}  # storage/oid -> frozenset of labels
        self.trace = frozenset([()])
        self.summ = frozenset()  # summary storages / oids
        self.dom = {}
        self._own = set()

    def copy(self):
        s = State.__new__(State)
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.content = dict(self.content)
        s.glob = dict(self.glob)
        s.frozen = dict(self.frozen)
        s.trace = self.trace
        s.summ = self.summ
        s.dom = dict(self.dom)
        s._own = set()
        self._own = set()
        return s

    def frame(self, fid):
        """Writable frame dict."""
        if fid in self._own:
            return self.frames[fid]
        d = dict(self.frames.get(fid, ()))
        self.frames[fid] = d
        self._own.add(fid)
        return d

    def same(self, o):
        return (
            self.trace == o.trace
            and self.frames == o.frames
            and self.heap == o.heap
            and self.content == o.content
            and self.frozen == o.frozen
            and self.summ == o.summ
            and self.dom == o.dom
        )


MAX_WORDS = 48


def join_trace(a, b):
    if a is b:
        return a
    r = a | b
    if len(r) > MAX_WORDS:
        return frozenset([("...",)])
    return r


def join_state(a, b):
    if a is None:
        return b
    if b is None or a is b:
        return a
    s = State()
    for n in ("frames", "heap", "content", "glob"):
        da, db = getattr(a, n), getattr(b, n)
        r = dict(da)
        if n == "frames":
            for f, fb in db.items():
                fa = r.get(f)
                if fa is None:
                    r[f] = fb
                elif fa is not fb:
                    m = dict(fa)
                    for x, v in fb.items():
                        w = m.get(x)
                        if w is None:
                            m[x] = v
                        elif w is not v:
                            m[x] = join_v(w, v)
                    r[f] = m
        elif n == "heap":
            for f, fb in db.items():
                fa = r.get(f)
                if fa is None:
                    r[f] = fb
                elif fa is not fb:
                    r[f] = join_h(fa, fb)
        elif n == "content":
            for f, fb in db.items():
                fa = r.get(f)
                if fa is None:
                    r[f] = fb
                elif fa is not fb:
                    r[f] = join_facts(fa, fb)
        else:
            for f, fb in db.items():
                fa = r.get(f)
                if fa is None:
                    r[f] = fb
                elif fa is not fb:
                    r[f] = join_v(fa, fb)
        setattr(s, n, r)
    fr = dict(a.frozen)
    for x, l in b.frozen.items():
        fr[x] = fr.get(x, E) | l
    s.frozen = fr
    s.trace = join_trace(a.trace, b.trace)
    s.summ = a.summ | b.summ
    d = dict(a.dom)
    for x, v in b.dom.items():
        if x in d and d[x] != v:
            d[x] = d[x] | v if isinstance(v, frozenset) and isinstance(d[x], frozenset) else None
        else:
            d.setdefault(x, v)
    s.dom = d
    return s
