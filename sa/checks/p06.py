"""P06: clones, copies and pickles are complete and share no mutable state."""
from ..base import Finding, FreezeObs, Task, kconst, run_task
from ..domains import Origins
from ..vals import NONE, Abs, BM, ClsA, Ext, FnA, K, ModA, Ref
from .common import PROBLEM

EXPLANATION = (
    "ownership and completeness analysis: the object graph of a clone, copy, deep copy or pickled state is compared with that of the original; every field must be "
    "carried over (same kind of value, tensor contents with the same origin) and no mutable object or storage may be reachable from both"
)

MUTABLE = ("list", "dict", "set", "inst")


def i_stampids(it, a, kw, n):
    """_stampids(x): name the contents of every storage reachable from x."""
    for v in a:
        for i in it.reach(v):
            if isinstance(i, str) and i in it.st.content:
                c = dict(it.st.content[i])
                c["origin"] = frozenset([i])
                it.st.content[i] = c
    return NONE


def i_unshared(it, a, kw, n):
    """_unshared(label, x, y[, z...]): nothing mutable reachable from y is reachable from x, apart from what z... reach."""
    label = kconst(a[0])
    it.obs.count("sharing_obligations")
    allowed = set()
    for v in a[3:]:
        allowed |= it.reach(v)
    x, y = it.reach(a[1]), it.reach(a[2])
    it.obs.count("objects_compared", len([i for i in y if isinstance(i, str)]))
    for i in sorted(i for i in (x & y) - allowed if isinstance(i, str)):
        h = it.st.heap.get(i)
        if h is not None:
            if h.kind not in MUTABLE or i in it.global_ids:
                continue
            what = f"{h.kind} {getattr(h.cls, 'qual', '') or ''}"
        elif i in it.st.content and i not in it.global_ids:
            what = "tensor storage"
        else:
            continue
        nd = it.idinfo.get(i.rstrip("*"))
        org = f"{nd[1].qual if nd and nd[1] else 'the harness'}" if nd else i
        it.obs.add(Finding(rule="shared-state", func=org, construct=f"{label}: {what}", where=_where(nd), detail=f"{label}: the {what} made in {org} is reachable from both", path=[]))
    return NONE


def _where(nd):
    from ..prog import where

    return where(nd[0]) if nd and nd[0] is not None else ""


def desc(it, v):
    out, tens = set(), set()
    for a in v:
        if isinstance(a, K):
            out.add(("k", type(a.v).__name__, a.v))
        elif isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            out.add(("ref", h.kind if h else "?", getattr(h.cls, "qual", str(h.cls)) if h else ""))
        elif isinstance(a, Abs):
            if a.stors:
                o = set()
                for s in a.stors:
                    o |= (it.st.content.get(s) or {}).get("origin", frozenset(["?"]))
                if a.kind in ("tensor", "ndarray", "any"):
                    tens |= o
                else:
                    out.add((a.kind, frozenset(o)))
            else:
                out.add(("abs", a.kind))
        else:
            out.add(("code", repr(a)))
    if tens:
        out.add(("tensor", frozenset(tens)))
    return out


def same(it, label, x, y, path, seen, diffs, ignore):
    dx, dy = desc(it, x), desc(it, y)
    unknown = any(d[0] == "tensor" and "?" in d[1] for d in dx | dy) or ("abs", "any") in dx | dy
    it.obs.count("fields_compared")
    if dx != dy and not unknown:
        kx = {d[:2] for d in dx}
        # numbers may be re-made by conversions; tensors, objects and None may not be exchanged
        if {d for d in dx if d[0] not in ("k", "abs")} != {d for d in dy if d[0] not in ("k", "abs")} or {d for d in dx if d[0] == "k"} != {d for d in dy if d[0] == "k"}:
            diffs.append((path, sorted(map(str, dx - dy)), sorted(map(str, dy - dx))))
            return
    for a in x:
        for b in y:
            if isinstance(a, Ref) and isinstance(b, Ref) and (a.oid, b.oid) not in seen:
                h, g = it.st.heap.get(a.oid), it.st.heap.get(b.oid)
                if h is None or g is None or h.kind != g.kind or h.cls is not g.cls or a.oid == b.oid:
                    continue
                seen.add((a.oid, b.oid))
                for n in sorted(set(h.fields) | set(g.fields)):
                    if n[:1] == "$" or n in ignore:
                        continue
                    if n not in h.fields or n not in g.fields:
                        diffs.append((path + "." + n, ["present"] if n in h.fields else ["absent"], ["present"] if n in g.fields else ["absent"]))
                    else:
                        same(it, label, h.fields[n], g.fields[n], path + "." + n, seen, diffs, ignore)
                if h.items is not None and g.items is not None:
                    if isinstance(h.items, dict):
                        for q in sorted(set(h.items) | set(g.items), key=repr):
                            if q in h.items and q in g.items:
                                same(it, label, h.items[q], g.items[q], f"{path}[{q!r}]", seen, diffs, ignore)
                            else:
                                diffs.append((f"{path}[{q!r}]", ["present" if q in h.items else "absent"], ["present" if q in g.items else "absent"]))
                    elif len(h.items) == len(g.items):
                        for j, (p, q) in enumerate(zip(h.items, g.items)):
                            same(it, label, p, q, f"{path}[{j}]", seen, diffs, ignore)
                    else:
                        diffs.append((path, [f"{len(h.items)} items"], [f"{len(g.items)} items"]))
                elif h.items is None and g.items is None and (h.elem or g.elem):
                    same(it, label, h.elem, g.elem, path + "[*]", seen, diffs, ignore)


def i_same(it, a, kw, n):
    """_same(label, x, y): y has all the state of x."""
    label = kconst(a[0])
    it.obs.count("completeness_obligations")
    diffs = []
    same(it, label, a[1], a[2], "", set(), diffs, ())
    for p, dx, dy in diffs:
        it.obs.add(Finding(rule="incomplete-copy", func=label, construct=f"{label}: {p}", where="", detail=f"{label}: at {p or 'the object itself'} the original has {dx}, the copy has {dy}", path=[]))
    return NONE


def i_samestate(it, a, kw, n):
    """_samestate(label, x, state): the pickled state (a dict) has all attributes of x."""
    label = kconst(a[0])
    it.obs.count("completeness_obligations")
    diffs = []
    for o in a[1]:
        for s in a[2]:
            if isinstance(o, Ref) and isinstance(s, Ref):
                h, g = it.st.heap[o.oid], it.st.heap[s.oid]
                if g.items is None:
                    it.obs.count("unknown_states")
                    continue
                gi = {getattr(q, "v", None): v for q, v in g.items.items()}
                for f, v in h.fields.items():
                    if f[:1] == "$":
                        continue
                    if f not in gi:
                        diffs.append(("." + f, ["present"], ["absent"]))
                    else:
                        same(it, label, v, gi[f], "." + f, set(), diffs, ())
    for p, dx, dy in diffs:
        it.obs.add(Finding(rule="incomplete-copy", func=label, construct=f"{label}: {p}", where="", detail=f"{label}: at {p} the original has {dx}, the pickled state has {dy}", path=[]))
    return NONE


INTR = {"_stampids": i_stampids, "_unshared": i_unshared, "_same": i_same, "_samestate": i_samestate}

SRC = """
from copy import copy, deepcopy
from evotorch.tools import clone
from evotorch.tools.cloning import deep_clone
{pre}
x = {obj}
{mk}
_stampids(x)
y = {how}
_unshared("{name}", x, y{allow})
_same("{name}", x, y)
"""
STATE = """
{pre}
x = {obj}
{mk}
_stampids(x)
y = x.__getstate__()
_samestate("pickled state of {name}", x, y)
"""
PR = PROBLEM.format(sense='"min"', extra="")
PRM = PROBLEM.format(sense='["min", "max"]', extra=", eval_data_length=2")
PRS = PROBLEM.format(sense='"max"', extra=', store_solution_stats=True').replace("_fn()", "fitness").replace("from evotorch import Problem", "from evotorch import Problem\ndef fitness(x):\n    return _input('fit')").replace(", seed=1", ", vectorized=True, seed=1")
EV = "b = prob.generate_batch(10)\nb.set_evals(_input('e'))\n"
OBJECTS = [
    # name, setup, object, further use
    ("Problem", PR, "prob", ""),
    ("Problem, several objectives", PRM, "prob", ""),
    ("Problem after evaluation", PRS + "\ndef note(batch):\n    return {'n': 1}\nprob.before_eval_hook.append(note)\nprob.after_eval_hook.append(note)\n", "prob", "prob.evaluate(prob.generate_batch(10))\nprob.status"),
    ("SolutionBatch", PR + EV, "b", ""),
    ("SolutionBatch, several objectives", PRM + EV, "b", ""),
    ("slice of a SolutionBatch", PR + EV, "b[2:5]", ""),
    ("Solution", PR + EV, "b[3]", ""),
    ("SeparableGaussian", "from evotorch.distributions import SeparableGaussian", 'SeparableGaussian({"mu": _input("mu"), "sigma": _input("sigma"), "divide_mu_grad_by": "num_solutions"})', ""),
    ("SymmetricSeparableGaussian", "from evotorch.distributions import SymmetricSeparableGaussian", 'SymmetricSeparableGaussian({"mu": _input("mu"), "sigma": _input("sigma")})', ""),
    ("ExpSeparableGaussian", "from evotorch.distributions import ExpSeparableGaussian", 'ExpSeparableGaussian({"mu": _input("mu"), "sigma": _input("sigma")})', ""),
    ("ExpGaussian", "from evotorch.distributions import ExpGaussian", 'ExpGaussian({"mu": _input("mu"), "sigma": _input("sigma")})', ""),
    ("RunningNorm", "from evotorch.neuroevolution.net import RunningNorm", "RunningNorm(shape=3, dtype='float32', device='cpu', min_variance=0.1, clip=(-2.0, 2.0))", 'x.update(_input("o1"))\nx.update(_input("o2"))'),
    ("RunningStat", "from evotorch.neuroevolution.net import RunningStat", "RunningStat()", 'x.update(_input("o1"))\nx.update(_input("o2"))'),
    ("ReadOnlyTensor", "from evotorch.tools import as_read_only_tensor", 'as_read_only_tensor(_input("t"))', ""),
    ("ImmutableDict", "from evotorch.tools import as_immutable", 'as_immutable({"a": 1, "b": [1.0, 2.0], "c": {"d": "e"}})', ""),
    ("ImmutableList", "from evotorch.tools import as_immutable", 'as_immutable([1, [2.0], {"a": 3}])', ""),
    ("dictionary of tensors", "", '{"a": _input("a"), "b": [_input("b"), (_input("c"), 3)]}', ""),
]
NESRC = """
from copy import deepcopy
from evotorch.neuroevolution import NEProblem
def ev(net):
    return _num()
def make():
    from torch import nn
    return nn.Linear(3, 2)
x = NEProblem("max", {net}, ev, seed=1)
b = x.generate_batch(4)
x.evaluate(b)
y = {how}
_unshared("NEProblem", x, y)
y.make_net(_input("v"))
y.evaluate(y.generate_batch(3))
"""
HOWS = {"clone": "x.clone()", "tools.clone": "clone(x)", "copy": "copy(x)", "deepcopy": "deepcopy(x)", "deep_clone": "deep_clone(x, otherwise_deepcopy=True)"}
POSITIVE = """
class Thing:
    pass
x = Thing()
x.a = _input("a")
x.b = [1, 2]
x.c = None
x.d = _input("d")
y = Thing()
y.a = x.a
y.b = x.b
y.d = None
_stampids(x)
_unshared("p", x, y)
_same("p", x, y)
"""


def run(ctx):
    obs = lambda: FreezeObs("write-to-original")
    tasks = []
    for name, pre, obj, mk in OBJECTS:
        for hn, how in HOWS.items():
            if name.startswith("dictionary") and hn in ("clone", "copy", "tools.clone"):
                continue
            if name in ("RunningNorm", "RunningStat", "TensorFrame") and hn in ("clone", "deep_clone", "tools.clone"):
                continue
            if name == "TensorFrame" and hn != "deepcopy":
                continue
            h = how
            if name in ("ReadOnlyTensor", "ImmutableDict", "ImmutableList") and hn in ("clone", "tools.clone"):
                h = "x.clone(preserve_read_only=True)"
            tasks.append(Task(f"{hn} of {name}", SRC.format(pre=pre, obj=obj, mk=mk, how=h, name=f"{hn} of {name}", allow=""), obs=obs, intr=INTR, domains=lambda: [Origins()], max_recur=12))
        if "Problem" in name or "Solution" in name or "Gaussian" in name:
            tasks.append(Task(f"state of {name}", STATE.format(pre=pre, obj=obj, mk=mk, name=name), obs=obs, intr=INTR, domains=lambda: [Origins()], max_recur=12))
    for net in ("make",):
        for how in ("x.clone()", "deepcopy(x)"):
            t = Task(f"{how} of NEProblem with network {net}", NESRC.format(net=net, how=how), obs=obs, intr=INTR, max_recur=12)
            t.dead_is_finding = "the copy of an NEProblem cannot be used after the original was evaluated"
            tasks.append(t)
    ctx.run(tasks)
    r = run_task(Task("positive-example", POSITIVE, obs=obs, domains=lambda: [Origins()], intr=INTR))
    kinds = {(f["rule"], f["construct"]) for f in r["found"]}
    ctx.counts["positive_examples_matched"] = len(kinds)
    if len(kinds) < 4:
        ctx.errors.append(f"positive example: only {kinds} reported; {r['error']}")
