"""P03: operators keep parents intact; children are unshared and unevaluated."""
from ..base import FreezeObs, Task, run_task
from ..domains import Regions
from .common import PROBLEM, REAL_OPERATORS

EXPLANATION = (
    "effect, alias and typestate analysis: each variation operator is interpreted abstractly on a frozen, evaluated batch; no reached write may target the "
    "parents' storages, the children's storages must be disjoint from the parents', and the children's evaluation storage must be NaN on every path"
)

SRC = """
{pre}
from evotorch import SolutionBatch
from evotorch.operators import {cls}
op = {ctor}
b = {batch}
{ev}
_freeze("the parents", b)
_freeze("the bounds of the problem", prob.lower_bounds, prob.upper_bounds)
while _unk():
    c = op(b)
    _disjoint("children of {cls} and their parents", b, c)
    _nan("children of {cls} are unevaluated", c.evals)
    _freeze("earlier children", c)
    if _unk():
        b = c
"""

POSITIVE = """
from evotorch import SolutionBatch
def op(b):
    v = b.access_values()
    v += 1.0
    return b
{pre}
b = prob.generate_batch(10)
_freeze("the parents", b)
c = op(b)
_disjoint("children", b, c)
b.set_evals(_input("e"))
_nan("children", b.evals)
"""


def run(ctx):
    obs = lambda: FreezeObs("write-to-parents")
    tasks = []
    for name, cls, ctor, multi, obj in REAL_OPERATORS:
        for ev in (True, False):
            for sense in ("min", "max"):
                s = f'["{sense}", "min"]' if multi else f'"{sense}"'
                pre = PROBLEM.format(sense=s, extra="")
                batch = "prob.generate_batch(10)"
                if obj:
                    pre = PROBLEM.format(sense=s, extra="").replace('dtype="float32"', "dtype=object").replace("solution_length=5, ", "").replace("initial_bounds=(-1.0, 1.0), bounds=(-2.0, 2.0), ", "")
                    batch = "SolutionBatch(prob, 10, empty=True)"
                evs = 'b.set_evals(_input("fitnesses"))' if ev else ""
                if not ev and not name.startswith("mut"):
                    continue
                tasks.append(Task(f"{name}-{sense}{'' if ev else '-unevaluated'}", SRC.format(pre=pre, cls=cls, ctor=ctor, batch=batch, ev=evs), obs=obs, domains=lambda: [Regions()], max_recur=1 if obj else None))
    ctx.run(tasks)
    ctx.need("operator_functions_reached", len([f for f in ctx.functions if f.startswith("evotorch.operators.")]), 14)
    r = run_task(Task("positive-example", POSITIVE.format(pre=PROBLEM.format(sense='"min"', extra="")), obs=obs, domains=lambda: [Regions()], max_recur=1 if obj else None))
    kinds = {f["rule"] for f in r["found"]}
    ctx.counts["positive_examples_matched"] = len(kinds)
    if kinds != {"write-to-parents", "shared-storage", "stale-evaluation"}:
        ctx.errors.append(f"positive example: only {kinds} reported; {r['error']}")
