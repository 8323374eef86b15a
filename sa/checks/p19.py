"""P19: observation statistics count exactly the observations folded in."""
from itertools import product

from ..base import Obs, Task, run_task
from ..sums import INTR
from ..valnum import ValueNumbers

EXPLANATION = (
    "value numbering with constant shapes: count, sum and sum of squares after sequences of updates, merges, copies and resets are brought, as terms, into the normal form of a polynomial in the observations' rows "
    "and compared with that of the observations given; the observations and collectors given must keep their values"
)

HEAD = """
import copy
import pickle
import torch
import numpy as np
from evotorch.neuroevolution.net.runningnorm import RunningNorm
from evotorch.neuroevolution.net.runningstat import RunningStat

def state(label, c, spec, full=True):
    _folded("count after " + label, c.count, 0, spec)
    _folded("sum after " + label, c.sum, 1, spec)
    _folded("sum of squares after " + label, c.sum_of_squares, 2, spec)
"""

POSITIVE = """
import torch

class Collector:
    def __init__(self):
        self.sum = None
        self.sum_of_squares = None
        self.count = 0

    def update(self, x, mask=None):
        if mask is not None:
            n = int(torch.sum(mask))
            x = x * mask.reshape(-1, 1)
            s, q = torch.sum(x, dim=0), torch.sum(x.square(), dim=0)
        else:
            s, q, n = x.clone(), x.square(), 1
        if self.sum is None:
            self.sum, self.sum_of_squares, self.count = s, q, n
        else:
            self.sum += s
            self.sum_of_squares += q
            self.count += n

class Aliasing(Collector):
    def update(self, x, mask=None):
        if self.count == 0:
            self.sum, self.sum_of_squares, self.count = x, x.square(), 1
        else:
            self.sum += x
            self.sum_of_squares += x.square()
            self.count += 1

class Miscounting(Collector):
    def update(self, x, mask=None):
        Collector.update(self, x, mask)
        self.count = self.count + (0 if mask is None else 1)

class Unsquared(Collector):
    def update(self, x, mask=None):
        Collector.update(self, x, mask)
        self.sum_of_squares = self.sum * self.sum

x = _vals("x", 2)
for name, cls in (("aliasing", Aliasing), ("good", Collector), ("miscounting", Miscounting), ("unsquared", Unsquared)):
    c = cls()
    _at(cls)
    y = _vals(name, 2)
    z = _vals("z", 3, 2)
    c.update(y)
    c.update(x)
    if name != "aliasing":
        c.update(z, _vals("mask", 3))
        spec = "[('" + name + "', None, None), ('x', None, None), ('z', 3, 'mask')]"
        _folded(name, c.count, 0, spec)
        _folded(name, c.sum, 1, spec)
        _folded(name, c.sum_of_squares, 2, spec)
    _intact(name, y, name)
"""

# what an update is given: text of the arguments, and the observations folded in
UPDATES = {
    "one": ("{x}", "('{n}', None, None)", ()),
    "batch": ("{x}", "('{n}', 3, None)", (3,)),
    "single row": ("{x}", "('{n}', 1, None)", (1,)),
    "masked": ("{x}, _vals('mask{n}', 3)", "('{n}', 3, 'mask{n}')", (3,)),
    "mask list": ("{x}, [True, False, True]", "('{n}', 3, (0, 2))", (3,)),
    "mask keyword": ("{x}, mask=torch.as_tensor([False, False, True])", "('{n}', 3, (2,))", (3,)),
    "row left out": ("{x}, torch.as_tensor([False])", "('{n}', 1, ())", (1,)),
    "maybe row": ("{x}, _vals('mask{n}', 1)", "('{n}', 1, 'mask{n}')", (1,)),
    "all rows": ("{x}, torch.as_tensor([True, True])", "('{n}', 2, (0, 1))", (2,)),
    "four rows": ("{x}, mask=_vals('mask{n}', 4)", "('{n}', 4, 'mask{n}')", (4,)),
    "unverified": ("{x}, verify=False", "('{n}', 3, None)", (3,)),
}
NORMALIZING = {
    "normalizing": ((3,), "_vals('mask{n}', 3)"),
    "normalizing all": ((3,), ""),
    "normalizing one": ((), ""),
    "normalizing maybe one row": ((1,), "mask=_vals('mask{n}', 1)"),
    "normalizing row left out": ((1,), "torch.as_tensor([False])"),
    "normalizing two rows": ((3,), "mask=torch.as_tensor([True, True, False])"),
}
MASKS = {"torch.as_tensor([False])": "()", "mask=torch.as_tensor([True, True, False])": "(0, 1)"}


def history(steps, shape, numpy=False):
    """Updates of a RunningNorm of the given shape, checked after each."""
    out = [HEAD, f"c = RunningNorm(shape={shape}, dtype='float32')", "_at(RunningNorm.update)"]
    spec = []
    names = []
    for q, u in enumerate(steps):
        n = "o%d" % q
        if u.startswith("normalizing"):
            rows, mask = NORMALIZING[u]
            size = ", ".join(map(str, rows + shape))
            out.append(f"c.update_and_normalize(_vals('{n}', {size}){', ' if mask else ''}{mask.format(n=n)})")
            spec.append(f"('{n}', {rows[0] if rows else None}, {MASKS.get(mask, None if not mask else repr('mask' + n))})")
            names.append((n, size))
        elif u == "reset":
            out += ["c.reset()"]
            spec = []
            out.append("_folded('count after reset', c.count, 0, '[]')")
            continue
        elif u == "copy":
            out += ["old = c", "c = copy.copy(c)"]
            n = None
        elif u == "deepcopy":
            out += ["c = copy.deepcopy(c)"]
            n = None
        elif u == "pickle":
            out += ["c = pickle.loads(pickle.dumps(c))"]
            n = None
        elif u == "merge":
            out += [f"o = RunningNorm(shape={shape}, dtype='float32')", f"o.update(_vals('{n}', 3{''.join(', %d' % x for x in shape)}))", f"o.update(_vals('{n}b', {', '.join(map(str, shape))}))", "c.update(o)"]
            spec += [f"('{n}', 3, None)", f"('{n}b', None, None)"]
            names.append((n, f"3{''.join(', %d' % x for x in shape)}"))
            out.append(f"state('being merged into another', o, \"[('{n}', 3, None), ('{n}b', None, None)]\")")
            out.append(f"c.update(_vals('{n}c', {', '.join(map(str, shape))}))")
            spec.append(f"('{n}c', None, None)")
            out.append(f"state('later updates of another', o, \"[('{n}', 3, None), ('{n}b', None, None)]\")")
        elif u == "merge one":
            out += [f"o = RunningNorm(shape={shape}, dtype='float32')", f"o.update(_vals('{n}', {', '.join(map(str, shape))}))", "c.update(o)"]
            spec += [f"('{n}', None, None)"]
        elif u == "merge empty":
            out += [f"o = RunningNorm(shape={shape}, dtype='float32')", "c.update(o)"]
        else:
            args, s, rows = UPDATES[u]
            size = ", ".join(map(str, rows + shape))
            out.append("c.update(" + args.format(x=f"_vals('{n}', {size})", n=n) + ")")
            spec.append(s.format(n=n))
            names.append((n, size))
        if spec:
            out.append(f"state({u!r}, c, {'[' + ', '.join(spec) + ']'!r})")
        for m, size in names:
            out.append(f"_intact('observations given to an update, after {u}', _vals('{m}', {size}), '{m}')")
        if u == "copy" and spec:
            out.append(f"old.update(_vals('late', 3{''.join(', %d' % x for x in shape)}))")
            out.append(f"state('updating the original of a copy', c, {'[' + ', '.join(spec) + ']'!r})")
    return "\n".join(out) + "\n"


def stat(steps):
    """The same for RunningStat, which takes one observation at a time."""
    out = [HEAD, "c = RunningStat()", "_at(RunningStat.update)"]
    spec, names = [], []
    for q, u in enumerate(steps):
        n = "o%d" % q
        if u == "reset":
            out.append("c.reset()")
            spec = []
            out.append("_folded('count after reset', c.count, 0, '[]')")
        elif u == "merge":
            out += ["o = RunningStat()", f"o.update(_vals('{n}', 2))", f"o.update(_vals('{n}b', 2))", "c.update(o)"]
            spec += [f"('{n}', None, None)", f"('{n}b', None, None)"]
            out.append(f"c.update(_vals('{n}c', 2))")
            spec.append(f"('{n}c', None, None)")
            out.append(f"state('being merged into another', o, \"[('{n}', None, None), ('{n}b', None, None)]\")")
        elif u == "copy":
            out.append("c = copy.copy(c)")
        elif u == "merge one":
            out += ["o = RunningStat()", f"o.update(_vals('{n}', 2))", "c.update(o)"]
            spec += [f"('{n}', None, None)"]
        elif u == "merge empty":
            out.append("c.update(RunningStat())")
        else:
            out.append(f"c.update(_vals('{n}', 2).numpy())" if u == "numpy" else f"c.update(_vals('{n}', 2))")
            spec.append(f"('{n}', None, None)")
            names.append(n)
        if spec:
            out.append(f"state({u!r}, c, {'[' + ', '.join(spec) + ']'!r})")
        for m in names:
            out.append(f"_intact('observations given to an update, after {u}', _vals('{m}', 2), '{m}')")
    return "\n".join(out) + "\n"


def tasks():
    out = []
    kinds = tuple(UPDATES) + ("merge", "merge one") + tuple(NORMALIZING)
    for shape in ((2,), (2, 3), (3,)):
        for a, b in product(kinds, kinds):
            out.append((f"RunningNorm {shape} {a}, {b}", history((a, b), shape)))
    for a in kinds:
        for more in (("one", "reset", "batch"), ("copy", "masked"), ("deepcopy", "one"), ("pickle", "merge"), ("merge empty", "one"), ("batch", "mask list", "reset", "one", "one"), ("merge", "merge")):
            out.append((f"RunningNorm {a}, {', '.join(more)}", history((a,) + more, (2,))))
    for a, b in product(("one", "numpy", "merge", "merge one"), repeat=2):
        for more in ((), ("reset", "one", "one"), ("copy", "merge"), ("merge empty", "numpy")):
            out.append((f"RunningStat {' '.join((a, b) + more)}", stat((a, b) + more)))
    return [Task(n, s, obs=Obs, intr=INTR, domains=lambda: [ValueNumbers()]) for n, s in out]


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=Obs, intr=INTR, domains=lambda: [ValueNumbers()]))
    got = sorted({f["construct"] for f in pos["found"]})
    ctx.counts["positive_examples_matched"] = len(got)
    if got != ["aliasing", "miscounting", "unsquared"]:
        ctx.errors.append(f"positive example: findings {got} {pos['counts']}; {pos['error']}")
    ts = tasks()
    for t in ts:
        t.dead_is_finding = "sequence of updates"
    ctx.run(ts)
    ctx.need("sums decided", ctx.counts.get("sums_decided", 0), 200)
