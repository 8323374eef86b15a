"""P05: evaluation results never outlive the decision values they belong to."""
from ..base import Finding, FreezeObs, Task, kconst, run_task
from ..domains import Regions, sel_of
from ..vals import NONE, Abs
from .common import PROBLEM

EXPLANATION = (
    "typestate analysis with region tracking: for every way of setting values or results, the regions (row selector x column range) of the evaluation storage "
    "written on every path are computed; value writes must leave the affected rows NaN and touch no other row, result writes must leave no old column"
)

E = frozenset()
OLD, FRESH = "old", ("nan", "other")


def i_stamp(it, a, kw, n):
    """_stamp(t): from now on, what t holds counts as an old evaluation result."""
    for t in a[0]:
        for s in t.stors:
            it.st.content[s] = {("w", (), None, None): frozenset([OLD]), "log": E}
    return NONE


def report(it, rule, label, detail):
    it.obs.add(Finding(rule=rule, func=label, construct=label, where="", detail=f"{label}: {detail}", path=[]))


def dom(it):
    return next(x for x in it.domains if x.name == "regions")


def i_rewritten(it, a, kw, n):
    label = kconst(a[0])
    it.obs.count("typestate_obligations")
    for t in a[1]:
        if not (isinstance(t, Abs) and t.stors and dom(it).covers(it, t, FRESH)):
            report(it, "old-result-kept", label, "some column of the affected rows is not certainly overwritten on every path")
    return NONE


def i_within(it, a, kw, n):
    """_within(label, t, region): since the stamp, t was written only inside the region."""
    label = kconst(a[0])
    it.obs.count("region_obligations")
    sels = [sel_of(t) for t in a[2] if isinstance(t, Abs)] if len(a) > 2 else [None]
    for t in a[1]:
        for s in t.stors:
            log = (it.st.content.get(s) or {}).get("log")
            if log is None:
                report(it, "result-of-other-solution", label, "the evaluation storage is written in a way that cannot be confined to the affected rows")
                continue
            it.obs.count("logged_writes", len(log))
            for sel, col in log:
                if not any(x is not None and sel[: len(x)] == x for x in sels):
                    report(it, "result-of-other-solution", label, f"the evaluation storage is written at rows {sel}, outside the affected rows {sels}")
    return NONE


INTR = {"_stamp": i_stamp, "_rewritten": i_rewritten, "_within": i_within}

SELECTORS = [("all", None, ":"), ("slice", "slice(2, 5)", "slice(2, 5)"), ("list", "[0, 3]", "[0, 3]"), ("indices", '_input("idx")', '_input("idx")')]

SET_VALUES = """
{pre}
b = {batch}
b.set_evals(_input("e"))
_stamp(b.evals)
b.set_values(_input("v"){sol})
_nan("set_values on {what} forgets the results", b.evals[{ix}])
_within("set_values on {what}", b.evals, b.evals[{ix}])
"""
SET_EVALS = """
{pre}
b = {batch}
_stamp(b.evals)
b.set_evals(_input("e"){data}{sol})
_rewritten("set_evals on {what} replaces the old results", b.evals[{ix}])
_within("set_evals on {what}", b.evals, b.evals[{ix}])
"""
FORGET = """
{pre}
b = {batch}
_stamp(b.evals)
b.forget_evals({sol})
_nan("forget_evals on {what}", b.evals[{ix}])
_within("forget_evals on {what}", b.evals, b.evals[{ix}])
"""
ACCESS = """
{pre}
b = {batch}
_stamp(b.evals)
v = b.access_values()
_nan("access_values forgets the results", b.evals)
_stamp(b.evals)
v = b.access_values(keep_evals=True)
_within("access_values(keep_evals=True)", b.evals)
c = b[2:5]
v = c.access_values()
_nan("access_values on a slice forgets the results", b.evals[2:5])
_within("access_values on a slice", b.evals, b.evals[2:5])
"""
SOLUTION = """
{pre}
b = {batch}
_stamp(b.evals)
b[2].set_values(_input("v"))
_nan("Solution.set_values forgets the result", b.evals[2:3])
_within("Solution.set_values", b.evals, b.evals[2:3])
_stamp(b.evals)
b[2].access_values()
_nan("Solution.access_values forgets the result", b.evals[2:3])
_within("Solution.access_values", b.evals, b.evals[2:3])
_stamp(b.evals)
b[2].access_values(keep_evals=True)
_within("Solution.access_values(keep_evals=True)", b.evals)
_stamp(b.evals)
b[2].set_evals(_input("e"){data})
_rewritten("Solution.set_evals replaces the old results", b.evals[2:3])
_within("Solution.set_evals", b.evals, b.evals[2:3])
_stamp(b.evals)
b[2].set_evaluation(_num(){data})
_rewritten("Solution.set_evaluation replaces the old results", b.evals[2:3])
_within("Solution.set_evaluation", b.evals, b.evals[2:3])
_stamp(b.evals)
for s in b:
    s.values
    s.evals
    s.is_evaluated
    s.shape
    len(s)
    str(s)
_within("reading solutions", b.evals)
"""
NEW = """
{pre}
from evotorch import SolutionBatch
_nan("generate_batch", prob.generate_batch(10).evals)
_nan("generate_batch(empty)", prob.generate_batch(10, empty=True).evals)
_nan("SolutionBatch(problem, n)", SolutionBatch(prob, 10).evals)
_nan("SolutionBatch(problem, n, empty)", SolutionBatch(prob, 10, empty=True).evals)
_nan("SolutionBatch(problem, n, device)", SolutionBatch(prob, 10, device="cpu", empty=True).evals)
b = prob.generate_batch(10)
b.set_evals(_input("e"))
_freeze("the source batch", b)
_nan("SolutionBatch(like, empty)", SolutionBatch(like=b, empty=True).evals)
_nan("SolutionBatch(like, n, empty)", SolutionBatch(like=b, popsize=4, empty=True).evals)
"""
READ = """
{pre}
from evotorch import SolutionBatch
b = {batch}
b.set_evals(_input("e"){data})
_freeze("a batch that is only read", b)
while _unk():
    b.values
    b.evals
    len(b)
    b.utility({oi})
    b.utils()
    b.utility({oi}{c}ranking_method="centered")
    b.argsort({oi})
    b.argbest({oi})
    b.argworst({oi})
    b.take_best(3{co})
    b.take([0, 1])
    for p in b.split(3):
        p.values
    for p in b.split(max_size=2):
        p.values
    b.concat(b)
    SolutionBatch.cat([b, b])
    b.to("cpu")
    b.clone()
    b[1:3]
    b[[1, 2]]
    b[0]
    b.senses
    b.objective_sense
    {multi}
"""
EVALUATE = """
def fitness(x):
    return _input("fit")
{pre}
b = {batch}
_stamp(b.evals)
prob.evaluate(b)
_rewritten("Problem.evaluate of a batch", b.evals)
"""

POSITIVE = """
{pre}
b = prob.generate_batch(10)
_stamp(b.evals)
b.access_evals()[2:5, :1] = _num()
_nan("p", b.evals[2:5])
_rewritten("p", b.evals[2:5])
_within("p", b.evals, b.evals[5:7])
"""


def run(ctx):
    obs = lambda: FreezeObs("write-while-reading")
    tasks = []

    def add(name, src):
        tasks.append(Task(name, src, obs=obs, domains=lambda: [Regions()], intr=INTR))

    for sname, sense, extra in (("single", '"min"', ""), ("single-data", '"max"', ", eval_data_length=3"), ("multi", '["min", "max"]', ""), ("multi-data", '["max", "min"]', ", eval_data_length=2")):
        pre = PROBLEM.format(sense=sense, extra=extra)
        multi = sname.startswith("multi")
        hasdata = bool(extra)
        for bname, batch in (("batch", "prob.generate_batch(10)"), ("slice", "prob.generate_batch(30)[5:15]")):
            for what, sol, ix in SELECTORS:
                sk = f", solutions={sol}" if sol else ""
                add(f"set_values-{sname}-{bname}-{what}", SET_VALUES.format(pre=pre, batch=batch, sol=sk, what=what, ix=ix))
                for data in ["", ', eval_data=_input("d")'] if hasdata else [""]:
                    add(f"set_evals-{sname}-{bname}-{what}{'-d' if data else ''}", SET_EVALS.format(pre=pre, batch=batch, sol=sk, what=what, ix=ix, data=data))
                add(f"forget-{sname}-{bname}-{what}", FORGET.format(pre=pre, batch=batch, sol=sk.lstrip(", "), what=what, ix=ix))
            add(f"access-{sname}-{bname}", ACCESS.format(pre=pre, batch=batch))
            for data in ["", ', eval_data=_input("d")'] if hasdata else [""]:
                add(f"solution-{sname}-{bname}{'-d' if data else ''}", SOLUTION.format(pre=pre, batch=batch, data=data))
            oi = "0" if multi else ""
            add(
                f"read-{sname}-{bname}",
                READ.format(
                    pre=pre, batch=batch, data=', eval_data=_input("d")' if hasdata else "", oi=oi, c=", " if multi else "", co="" if multi else "",
                    multi="b.compute_pareto_ranks()\n    b.arg_pareto_sort()" if multi else "0",
                ),
            )
        add(f"new-{sname}", NEW.format(pre=pre))
        vec = pre.replace(", seed=1", ", vectorized=True, seed=1").replace("_fn()", "fitness")
        add(f"evaluate-{sname}", EVALUATE.format(pre=vec, batch="prob.generate_batch(10)"))
    ctx.run(tasks)
    ctx.need("batch_and_solution_functions_reached", len([f for f in ctx.functions if ".SolutionBatch." in f or ".Solution." in f]), 25)
    r = run_task(Task("positive-example", POSITIVE.format(pre=PROBLEM.format(sense='"min"', extra=", eval_data_length=1")), obs=obs, domains=lambda: [Regions()], intr=INTR))
    kinds = {f["rule"] for f in r["found"]}
    ctx.counts["positive_examples_matched"] = len(kinds)
    if kinds != {"old-result-kept", "result-of-other-solution", "stale-evaluation"}:
        ctx.errors.append(f"positive example: only {kinds} reported; {r['error']}")
