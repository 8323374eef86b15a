"""P12: parallel evaluation gives each solution its own result, and synchronises once."""
from ..base import Obs, Task, run_task
from ..pairing import INTR
from ..valnum import ValueNumbers

EXPLANATION = (
    "value numbering with constant shapes: the values and the evaluation results of a batch are followed as terms through splitting, remote workers (modelled as separate objects that receive "
    "copies, answering in reverse order) and writing back, and compared row by row; event sequences for synchronisation"
)

HEAD = """
from evotorch import Problem, SolutionBatch

def f(x):
    return _evalof(x{columns})

prob = Problem({sense}, f, solution_length=3, initial_bounds=(-1.0, 1.0), seed=1{extra})
"""

BATCH = """
batch = prob.generate_batch({n}, empty=True)
batch.set_values(_vals("V", {n}, 3))
_at(prob.evaluate)
prob.evaluate(batch)
_paired("evaluation of a batch", batch.values, batch.evals, 'all')
batch2 = prob.generate_batch({m}, empty=True)
batch2.set_values(_vals("W", {m}, 3))
prob.evaluate(batch2)
_paired("evaluation of a second batch", batch2.values, batch2.evals, 'all')
_paired("first batch after evaluating a second", batch.values, batch.evals, 'all')
batch.set_values(_vals("U", {n}, 3))
prob.evaluate(batch)
_paired("evaluation of a batch with new values", batch.values, batch.evals, 'all')
"""

PARTS = """
batch = prob.generate_batch(9, empty=True)
batch.set_values(_vals("V", 9, 3))
_at(prob.evaluate)
part = batch[2:8]
prob.evaluate(part)
_paired("evaluation of a part of a batch", part.values, part.evals, 'all')
_paired("batch of which a part is evaluated", batch.values, batch.evals)
taken = batch.take([7, 3, 0, 5, 1])
prob.evaluate(taken)
_paired("evaluation of chosen solutions", taken.values, taken.evals, 'all')
both = SolutionBatch.cat([part, taken])
prob.evaluate(both)
_paired("evaluation of joined batches", both.values, both.evals, 'all')
one = batch[4]
prob.evaluate(one)
_paired("evaluation of one solution", one.values, one.evals, 'all')
copy = batch.clone()
prob.evaluate(copy)
_paired("evaluation of a copy", copy.values, copy.evals, 'all')
"""

SUB = """
from evotorch import Problem

class P(Problem):
    def __init__(self):
        super().__init__({sense}, solution_length=3, initial_bounds=(-1.0, 1.0), seed=1{extra})

    def {name}(self, x):
        _event("evaluate")
        x.set_evals(_evalof(x.values{columns}){data})

prob = P()
"""

SYNC = """
from evotorch import Problem

class P(Problem):
    def __init__(self):
        super().__init__("min", solution_length=3, initial_bounds=(-1.0, 1.0), seed=1{extra})
        self.got = 0

    def _evaluate_batch(self, batch):
        _event("evaluate")
        _const("state received before the evaluation", self.got, k)
        batch.set_evals(_evalof(batch.values))

    def _make_sync_data_for_actors(self):
        _event("make")
        return {{"got": k}}

    def _use_sync_data_from_main(self, received):
        _event("use")
        self.got = received["got"]

    def _make_sync_data_for_main(self):
        _event("collect")
        return {{"seen": self.got}}

    def _use_sync_data_from_actors(self, received):
        _event("merge")
        _const("number of workers whose data are merged", len(received), {a})
        for r in received:
            _const("data of a worker", r["seen"], k)

k = 0
prob = P()
"""

SYNC_EVAL = """
_at(prob.evaluate)
batch = prob.generate_batch({n}, empty=True)
batch.set_values(_vals("V", {n}, 3))
_forget()
k = 1
prob.evaluate(batch)
_sequence("synchronisation of the first evaluation", "make (use ){{{a}}}(evaluate ){{{pieces}}}(collect ){{{a}}}merge ")
_forget()
k = 2
prob.evaluate(batch)
_sequence("synchronisation of the second evaluation", "make (use ){{{a}}}(evaluate ){{{pieces}}}(collect ){{{a}}}merge ")
_forget()
k = 3
prob.evaluate(batch[1])
_sequence("synchronisation of the evaluation of one solution", "make (use ){{{a}}}(evaluate )+(collect ){{{a}}}merge ")
"""

SYNC_GRAD = """
from evotorch.distributions import SeparableGaussian
_at(prob.sample_and_compute_gradients)
d = SeparableGaussian({{"mu": _vals("mu", 3), "sigma": _vals("sigma", 3)}})
_forget()
k = 1
prob.sample_and_compute_gradients(d, {n}, ranking_method="centered"{more})
_sequence("synchronisation of the first gradient computation", "make (use ){{{a}}}(evaluate ){{{pieces}}}(collect ){{{a}}}merge ")
_forget()
k = 2
prob.sample_and_compute_gradients(d, {n}, ranking_method="centered"{more})
_sequence("synchronisation of the second gradient computation", "make (use ){{{a}}}(evaluate ){{{pieces}}}(collect ){{{a}}}merge ")
"""

NOTHING = """
from evotorch import Problem

class P(Problem):
    def __init__(self):
        super().__init__("min", solution_length=3, initial_bounds=(-1.0, 1.0), seed=1{extra})

    def _evaluate_batch(self, batch):
        _event("evaluate")
        batch.set_evals(_evalof(batch.values))

    def _make_sync_data_for_actors(self):
        _event("make")
        return {what}

    def _use_sync_data_from_main(self, received):
        _event("use")

    def _make_sync_data_for_main(self):
        _event("collect")

    def _use_sync_data_from_actors(self, received):
        _event("merge")

prob = P()
batch = prob.generate_batch(5, empty=True)
batch.set_values(_vals("V", 5, 3))
_at(prob.evaluate)
_forget()
prob.evaluate(batch)
_sequence("evaluation {label}", "{seq}")
"""

POSITIVE = """
from evotorch import Problem

class P(Problem):
    def __init__(self):
        super().__init__("min", solution_length=3, initial_bounds=(-1.0, 1.0), seed=1)

    def _evaluate_all(self, batch):
        e = _evalof(batch.values)
        batch.set_evals(e[2:4], solutions=[0, 1])
        batch.set_evals(e[0:2], solutions=[2, 3])
        batch.set_evals(e[4:], solutions=slice(4, None))

prob = P()
batch = prob.generate_batch(6, empty=True)
batch.set_values(_vals("V", 6, 3))
prob.evaluate(batch)
_paired("exchanged results", batch.values, batch.evals, True)
b = prob.generate_batch(6, empty=True)
b.set_values(_vals("W", 6, 3))
_paired("no results", b.values, b.evals, True)
_paired("not yet evaluated", b.values, b.evals)
"""

# arguments, number of actors, number of pieces of a batch of 7
ACTORS = [
    (", num_actors=2", 2, 2),
    (", num_actors=3", 3, 3),
    (", num_actors=2, num_subbatches=3", 2, 3),
    (", num_actors=2, num_subbatches=5", 2, 5),
    (", num_actors=3, num_subbatches=2", 3, 2),
    (", num_actors=2, subbatch_size=3", 2, 3),
    (", num_actors=2, subbatch_size=2", 2, 4),
    (", num_actors=4, subbatch_size=7", 4, 1),
]


def tasks():
    out = []
    for i, (e, a, p) in enumerate([("", 0, 1)] + ACTORS):
        for v in ("", ", vectorized=True"):
            out.append((f"batch{e}{v}", HEAD.format(sense="'min'", columns="", extra=e + v) + BATCH.format(n=7, m=5)))
        if i in (0, 1, 3, 5):
            out.append((f"multi-objective{e}", HEAD.format(sense="['min', 'max']", columns=", 2", extra=e + ", vectorized=True") + BATCH.format(n=6, m=8)))
            out.append((f"data{e}", HEAD.format(sense="'max'", columns=", 3", extra=e + ", vectorized=True, eval_data_length=2") + BATCH.format(n=6, m=7)))
            out.append((f"parts{e}", HEAD.format(sense="'max'", columns="", extra=e + ", vectorized=True") + PARTS))
            out.append((f"parts of several objectives{e}", HEAD.format(sense="['max', 'min']", columns=", 2", extra=e) + PARTS))
            out.append((f"_evaluate_batch{e}", SUB.format(sense="'min'", name="_evaluate_batch", columns="", data="", extra=e) + BATCH.format(n=7, m=5)))
            out.append((f"_evaluate{e}", SUB.format(sense="'min'", name="_evaluate", columns="", data="", extra=e) + BATCH.format(n=7, m=5)))
            out.append((f"_evaluate_batch with data{e}", SUB.format(sense="['min', 'max']", name="_evaluate_batch", columns=", 2", data=", _evalof(x.values, 1, 2)", extra=e + ", eval_data_length=1") + BATCH.format(n=7, m=5)))
        if a:
            out.append((f"synchronisation{e}", SYNC.format(extra=e, a=a) + SYNC_EVAL.format(n=7, a=a, pieces=p)))
            g = 7 if "subbatch_size" not in e else p * int(e[-1])
            for more in ("", ", obj_index=0", ", with_stats=False"):
                out.append((f"synchronisation of gradients{e}{more}", SYNC.format(extra=e, a=a) + SYNC_GRAD.format(n=g, a=a, pieces=p, more=more)))
            g2 = g + g % 2
            if "subbatch_size" not in e or g2 == g:
                out.append((f"synchronisation of even gradients{e}", SYNC.format(extra=e, a=a) + SYNC_GRAD.format(n=g2, a=a, pieces=p, more=", ensure_even_popsize=True")))
    out.append(("no state", NOTHING.format(extra=", num_actors=2", what="NotImplemented", label="without shared state", seq="make (evaluate ){2}")))
    out.append(("state of workers only", NOTHING.format(extra=", num_actors=2", what="None", label="with the state of the workers only", seq="make (evaluate ){2}(collect ){2}merge ")))
    out.append(("no workers", NOTHING.format(extra="", what="{}", label="without workers", seq="evaluate ")))
    return [Task(n, s, obs=Obs, intr=INTR, domains=lambda: [ValueNumbers()]) for n, s in out]


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=Obs, intr=INTR, domains=lambda: [ValueNumbers()]))
    got = sorted(f["construct"] for f in pos["found"])
    ctx.counts["positive_examples_matched"] = len(got)
    if got != ["exchanged results", "no results"]:
        ctx.errors.append(f"positive example: findings {got}; {pos['error']}")
    ctx.run(tasks())
    ctx.need("pairs decided", ctx.counts.get("pairs_decided", 0), 40)
    ctx.need("sequences decided", ctx.counts.get("sequences_decided", 0), 20)
    ctx.need("values decided", ctx.counts.get("values_decided", 0), 20)
