"""P21: immutable containers stay immutable all the way down."""
from ..base import Finding, FreezeObs, Task, finding, kconst, run_task
from ..vals import NONE, Abs, K, Ref
from . import p04, p06

EXPLANATION = (
    "ownership and escape analysis of the immutable containers and object arrays: a converted container may share no writable object with its source, everything it hands out that is "
    "still part of it must be of an immutable kind, none of its operations may write to it, and a mutable copy may share nothing with it"
)


def _immutable_class(it, ci):
    return any(getattr(c, "name", "") == "ImmutableContainer" for c in it.mro(ci)) if ci is not None else False


def _bad(it, x):
    """Why the atom x can be used to change something, or None."""
    if isinstance(x, Abs) and x.stors and x.kind in ("tensor", "ndarray"):
        return None if x.ro else "a writable " + x.kind
    if isinstance(x, Ref):
        h = it.st.heap.get(x.oid)
        if h is None or x.oid in it.global_ids:
            return None
        if h.kind in ("list", "dict", "set"):
            return "a mutable " + h.kind
        if h.kind == "inst" and "_read_only" in h.fields:
            return None if h.fields["_read_only"] == frozenset([K(True, "bool")]) else "a writable object array"
    return None


def i_part(it, a, kw, n):
    """_part(label, owner, v): whatever v is, if it is part of owner (or shared with it) it cannot be modified."""
    label = kconst(a[0])
    it.obs.count("handed_out_obligations")
    own = it.reach(a[1])
    for x in a[2]:
        ids = {x.oid} if isinstance(x, Ref) else set(getattr(x, "stors", ()))
        if ids & own:
            it.obs.count("handed_out_parts")
            b = _bad(it, x)
            if b:
                it.obs.add(Finding(rule="mutable-part", func=label, construct=label, where="", detail=f"{label}: {b} that is part of the immutable object is handed out", path=[]))
    return NONE


def i_deep(it, a, kw, n):
    """_deep(label, v): v is of an immutable kind, and so is every element of the containers in it."""
    label = kconst(a[0])
    it.obs.count("depth_obligations")
    seen = set()

    def visit(v, path, inside):
        for x in v:
            b = _bad(it, x)
            if isinstance(x, Ref):
                h = it.st.heap.get(x.oid)
                if h is None or x.oid in seen:
                    continue
                seen.add(x.oid)
                if h.kind == "inst" and (_immutable_class(it, h.cls) or "_read_only" in h.fields):
                    if b:
                        report(path, b)
                    it.obs.count("containers_visited")
                    for f, w in h.fields.items():
                        if f[:1] != "$" and f not in ("_indices", "_device", "_read_only"):
                            visit(w, path + ".", True)
                    continue
                if h.kind in ("list", "dict", "set", "tuple"):
                    if b and not inside:
                        report(path, b)
                    for w in list(h.items.values() if isinstance(h.items, dict) else h.items or ()) + [h.elem or frozenset()]:
                        visit(w, path + "[]", False)
                    continue
                if b:
                    report(path, b)
            elif b:
                report(path, b)

    def report(path, b):
        it.obs.add(Finding(rule="mutable-inside", func=label, construct=f"{label}: {path}", where="", detail=f"{label}: at depth {path or '0'} there is {b}", path=[]))

    visit(a[1], "", False)
    return NONE


INTR = dict(p06.INTR, _part=i_part, _deep=i_deep, _raises=p04.i_raises)

SOURCES = {
    "list": '[1, 2.5, "s", None]',
    "nested list": '[1, [2, [3, 4]], (5, [6])]',
    "list of dicts": '[{"a": [1]}, {"b": {"c": 2}}]',
    "tuple": '(1, [2], {"a": 3})',
    "dict": '{"a": 1, "b": "x"}',
    "nested dict": '{"a": [1, 2], "b": {"c": [3]}, 4: (5, [6])}',
    "set": "{1, 2, 3}",
    "dict with set": '{"a": {1, 2}, "b": [{3, 4}]}',
    "tensor": '_input("t")',
    "list of tensors": '[_input("t"), [_input("u")]]',
    "dict of tensors": '{"a": _input("t"), "b": {"c": _input("u")}}',
    "numeric array": '_input("n", "ndarray", dtk="float")',
    "list of arrays": '[_input("n", "ndarray", dtk="float")]',
    "unknown list": "[_num() for _ in range(_int())]",
    "list of unknown lists": "[[_num() for _ in range(_int())] for _ in range(_int())]",
    "object array": "oa()",
    "list with object array": "[oa(), 1]",
}
PRE = """
from copy import copy, deepcopy
import numpy as np
from evotorch.tools import as_immutable, ObjectArray
from evotorch.tools.immutable import mutable_copy
def oa():
    a = ObjectArray(3)
    a[0] = [1, 2]
    a[1] = dict(x=1)
    a[2] = 3
    return a
"""
CONVERT = PRE + """
x = {src}
_freeze("source", x)
m = as_immutable(x)
_thaw("source")
_unshared("as_immutable({name})", x, m)
_deep("as_immutable({name})", m)
n = as_immutable(m)
_deep("as_immutable(as_immutable({name}))", n)
"""
COPIES = PRE + """
m = as_immutable({src})
_freeze("immutable object", m)
for c in [copy(m), deepcopy(m), {extra}]:
    _deep("copy of immutable {name}", c)
y = mutable_copy(m)
_unshared("mutable_copy of immutable {name}", m, y)
z = m.clone()
_unshared("clone() of immutable {name}", m, z)
"""
SEQ = PRE + """
m = as_immutable({src})
_freeze("immutable object", m)
L = "immutable {name}"
_part(L + " item", m, m[0])
_part(L + " last item", m, m[-1])
_part(L + " slice", m, m[0:2])
_part(L + " slice, tuple", m, m[:])
for v in m:
    _part(L + " iteration", m, v)
for v in reversed(m):
    _part(L + " reversed iteration", m, v)
len(m)
3 in m
m == m
m != [1, 2]
a = m + [1]
b = [1] + m
_deep(L + " sum", a)
_deep(L + " reflected sum", b)
repr(m)
str(m)
"""
DICT = PRE + """
m = as_immutable({src})
_freeze("immutable object", m)
L = "immutable {name}"
_part(L + " item", m, m["a"])
_part(L + " get", m, m.get("a"))
for k in m:
    _part(L + " iteration", m, m[k])
for k, v in m.items():
    _part(L + " items()", m, v)
for v in m.values():
    _part(L + " values()", m, v)
_part(L + " keys()", m, m.keys())
len(m)
"a" in m
repr(m)
"""
SET = PRE + """
m = as_immutable({src})
_freeze("immutable object", m)
for v in m:
    _part("immutable set iteration", m, v)
len(m)
1 in m
repr(m)
"""
OA = PRE + """
x = {src}
a = ObjectArray(4)
_freeze("given object", x)
{put}
_thaw("given object")
_unshared("object array element set by {how} from {name}", x, a)
_deep("object array element set by {how} from {name}", a[0])
_part("object array item", a, a[0])
for v in a:
    _part("object array iteration", a, v)
"""
OACLONE = PRE + """
a = ObjectArray(2)
a[0] = {src}
_freeze("object array", a)
y = {clone}
_unshared("object array {clone}", a, y)
"""
OAVIEW = PRE + """
a = oa()
r = a.get_read_only_view()
_freeze("read-only object array", r)
{stmt}
"""
VIEWS = {
    "copy": '_deep("copy of a read-only object array", copy(r))',
    "deepcopy": '_deep("deepcopy of a read-only object array", deepcopy(r))',
    "clone": '_deep("read-only clone of a read-only object array", r.clone(preserve_read_only=True))',
    "slice": '_deep("slice of a read-only object array", r[0:2])',
    "rows": '_deep("rows of a read-only object array", r[[0, 1]])',
    "constructed slice": '_deep("constructed slice of a read-only object array", ObjectArray(slice_of=(r, slice(0, 2))))',
    "item assignment": '_raises("item assignment to a read-only object array", lambda: r.__setitem__(0, 1))',
    "slice assignment": '_raises("slice assignment to a read-only object array", lambda: r.__setitem__(slice(0, 2), [1, 2]))',
    "set_item": '_raises("set_item on a read-only object array", lambda: r.set_item(0, 1))',
}
ELEMS = ["list", "nested list", "dict", "nested dict", "list of tensors", "tensor", "numeric array"]
POSITIVE = PRE + """
class ImmutableContainer:
    pass
x = [1, [2]]
m = ImmutableContainer()
m.data = [x[1], _input("t")]
_unshared("p", x, m)
_deep("q", m)
_part("r", m, m.data)
"""


def run(ctx):
    obs = lambda: FreezeObs("write-to-immutable")
    srcs = [(f"{n} of a read-only object array", OAVIEW.format(stmt=x)) for n, x in VIEWS.items()]
    for name, src in SOURCES.items():
        srcs.append((f"conversion of {name}", CONVERT.format(src=src, name=name)))
        if "tensor" == name or "array" in name:
            continue
        srcs.append((f"copies of {name}", COPIES.format(src=src, name=name, extra="m.clone(preserve_read_only=True)")))
        if "list" in name or name == "tuple":
            srcs.append((f"operations of {name}", SEQ.format(src=src, name=name)))
        elif "dict" in name:
            srcs.append((f"operations of {name}", DICT.format(src=src, name=name)))
        elif name == "set":
            srcs.append((f"operations of {name}", SET.format(src=src, name=name)))
    for name in ELEMS:
        for how, put in (("item assignment", "a[0] = x"), ("set_item", "a.set_item(0, x)"), ("slice assignment", "a[0:2] = [x, 1]"), ("unknown index", "a[_int()] = x"), ("list assignment", "a[[0, 1]] = [x, x]")):
            srcs.append((f"object array, {how} of {name}", OA.format(src=SOURCES[name], put=put, how=how, name=name)))
        for cl in ("a.numpy()", "a.clone()", "a.clone(preserve_read_only=True)", "copy(a)", "deepcopy(a)"):
            srcs.append((f"object array of {name}, {cl}", OACLONE.format(src=SOURCES[name], clone=cl)))
    ctx.run([Task(n, s, obs=obs, intr=INTR, setup=p04.setup, max_recur=12) for n, s in srcs])
    ctx.need("conversions and copies", ctx.counts.get("sharing_obligations", 0), 60)
    r = run_task(Task("positive-example", POSITIVE, obs=obs, intr=INTR, setup=p04.setup))
    kinds = {f["rule"] for f in r["found"]}
    ctx.counts["positive_examples_matched"] = len(kinds)
    if len(kinds) < 3:
        ctx.errors.append(f"positive example: only {kinds} reported; {r['error']}")
