"""P15: real-valued operators never leave the bounds of the problem."""
from ..base import Finding, Obs, Task, kconst, run_task
from ..bounds import Bounds
from ..polarity import known
from ..vals import NONE
from .common import REAL_OPERATORS

EXPLANATION = (
    "interval analysis relative to symbolic bounds: decision values start within the bounds of the problem; selections, clippings and element-wise extremes are followed, arithmetic may leave the "
    "bounds; the children's values of every operator must lie within both bounds on every path"
)


def i_within(it, a, kw, n):
    """_within(label, value): the value certainly lies within the bounds."""
    label = kconst(a[0])
    got = known(it, a[1], "inb")
    if not got:
        it.obs.count("obligations_undecided")
        it.obs.count("undecided: " + label)
        return NONE
    it.obs.count("obligations_decided")
    bad = [x for x in got if x != "lu"]
    for x in sorted(bad):
        side = "the lower and the upper bound" if not x else "the upper bound" if x == "l" else "the lower bound"
        it.obs.add(Finding(rule="out-of-bounds", func=label, construct=label, where="", detail=f"{label}: on some path the values are not kept within {side}", path=[]))
    return NONE


INTR = {"_within": i_within}

SRC = """
from evotorch import Problem
prob = Problem({sense}, _fn(), solution_length=5, initial_bounds=(-1.0, 1.0), bounds={bounds}, dtype="float32", seed=1)
from evotorch.operators import {cls}
op = {ctor}
b = prob.generate_batch(10)
b.set_values(_input("x", inb="lu"))
while _unk():
    b.set_evals(_input("e"))
    c = op(b)
    _within("children of {name}", c.values)
    d = prob.generate_batch(10)
    d.set_values(_input("x", inb="lu"))
    b = d
"""
BOUNDS = '(_input("lb", inb="lu"), _input("ub", inb="lu"))'

POSITIVE = """
import torch
lb, ub = _input("lb", inb="lu"), _input("ub", inb="lu")
x = _input("x", inb="lu")
y = x + torch.randn_like(x)
_within("a", torch.min(torch.max(y, lb), ub))
_within("b", y)
_within("c", torch.max(y, lb))
_within("d", torch.where(y < lb, lb, torch.where(y > ub, ub, y)))
_within("e", y.clamp(max=ub))
z = y.clone()
z[z < lb] = lb
_within("f", z)
z[z > ub] = ub
_within("g", z)
"""


def tasks():
    out = []
    for name, cls, ctor, multi, obj in REAL_OPERATORS:
        for sense in ("min", "max"):
            s = f'["{sense}", "min"]' if multi else f'"{sense}"'
            out.append(Task(f"{name}-{sense}", SRC.format(sense=s, cls=cls, ctor=ctor, name=name, bounds=BOUNDS), obs=Obs, intr=INTR, domains=lambda: [Bounds()]))
    return out


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=Obs, intr=INTR, domains=lambda: [Bounds()]))
    got = sorted(f["func"] for f in pos["found"])
    ctx.counts["positive_examples_matched"] = len(got)
    if got != ["b", "c", "e", "f"]:
        ctx.errors.append(f"positive example: findings {got} instead of b, c, e, f; {pos['error']}")
    ctx.run(tasks())
    ctx.need("results decided", ctx.counts.get("obligations_decided", 0), 8)
