"""P11: values and evaluation results of a solution stay paired."""
from ..base import Obs, Task, run_task
from ..pairing import INTR
from ..valnum import ValueNumbers

EXPLANATION = (
    "value numbering with constant shapes: decision values and evaluation results are followed as terms through every operation on batches and through the steps of the algorithms; "
    "each row of the evaluation results must come from evaluating the solution in the same row of the values (or be unevaluated)"
)

HEAD = """
from copy import copy, deepcopy
import pickle
from evotorch import Problem, SolutionBatch
from evotorch.core import Solution

def f(x):
    return _evalof(x{columns})

prob = Problem({sense}, f, solution_length=3, initial_bounds=(-1.0, 1.0), seed=1, vectorized=True{extra})

def new(name, n):
    b = prob.generate_batch(n, empty=True)
    b.set_values(_vals(name, n, 3))
    prob.evaluate(b)
    return b

def new2(name, n):
    b = prob.generate_batch(n, empty=True)
    b.set_values(_vals(name, n, 3))
    prob.evaluate(b)
    return b

def paired(label, b):
    _paired(label, b.values, b.evals)

batch = new("V", 7)
other = new2("W", 4)
paired("evaluated batch", batch)
"""

# label, function, program
OPS = [
    ("range of a batch", "batch.__getitem__", "r = batch[2:5]"),
    ("beginning of a batch", "batch.__getitem__", "r = batch[:3]"),
    ("end of a batch", "batch.__getitem__", "r = batch[-3:]"),
    ("every second solution", "batch.__getitem__", "r = batch[::2]"),
    ("list of solutions", "batch.__getitem__", "r = batch[[5, 2, 6]]"),
    ("index tensor", "batch.__getitem__", "r = batch[_index('i', 3)]"),
    ("mask", "batch.__getitem__", "r = batch[_index('m', 7, True)]"),
    ("range of a range", "batch.__getitem__", "r = batch[1:6][2:4]"),
    ("list of a range", "batch.__getitem__", "r = batch[2:6][[3, 1]]"),
    ("range of a list", "batch.__getitem__", "r = batch[[5, 2, 6, 0]][1:3]"),
    ("taken solutions", "batch.take", "r = batch.take([6, 0, 3])"),
    ("taken with an index tensor", "batch.take", "r = batch.take(_index('i', 5))"),
    ("taken of a range", "batch.take", "r = batch[1:5].take([3, 0])"),
    ("best solutions", "batch.take_best", "r = batch.take_best(3{obj})"),
    ("best of a range", "batch.take_best", "r = batch[1:6].take_best(2{obj})"),
    ("best solutions without an objective", "batch.take_best", "r = batch.take_best(3)"),
    ("best of the best", "batch.take_best", "r = batch.take_best(5{obj}).take_best(2{obj})"),
    ("sorted by objective", "batch.argsort", "r = batch[batch.argsort({obj0})]"),
    ("best solution", "batch.argbest", "r = batch[batch.argbest({obj0})]"),
    ("worst solution", "batch.argworst", "r = batch[batch.argworst({obj0})]"),
    ("first piece of two", "batch.split", "r = batch.split(2)[0]"),
    ("last piece of three", "batch.split", "r = batch.split(3)[2]"),
    ("last piece of limited size", "batch.split", "r = batch.split(max_size=3)[2]"),
    ("concatenation", "batch.concat", "r = batch.concat(other)"),
    ("concatenation the other way", "batch.concat", "r = other.concat([batch, other])"),
    ("concatenation of ranges", "SolutionBatch.cat", "r = SolutionBatch.cat([batch[3:5], other[1:], batch.take([0, 6])])"),
    ("merging", "SolutionBatch.__init__", "r = SolutionBatch(merging_of=[other, batch])"),
    ("merging of solutions chosen", "SolutionBatch.__init__", "r = SolutionBatch(merging_of=[batch.take([4, 2]), other, batch[5:]])"),
    ("clone", "batch.clone", "r = batch.clone()"),
    ("clone of a range", "batch.clone", "r = batch[2:4].clone()"),
    ("copy", "batch.__copy__", "r = copy(batch)"),
    ("deep copy", "batch.__deepcopy__", "r = deepcopy(batch[1:4])"),
    ("pickled copy", "batch.__getstate__", "r = pickle.loads(pickle.dumps(batch[3:]))"),
    ("other device", "batch.to", "r = batch.to('cuda:0')"),
    ("other device of a range", "batch.to", "r = batch[2:5].to('cuda:0')"),
    ("one solution", "batch.__getitem__", "r = batch[4]"),
    ("one solution, counted from the end", "batch.__getitem__", "r = batch[-2]"),
    ("one solution of a range", "batch.__getitem__", "r = batch[2:6][1]"),
    ("one solution of a list", "batch.__getitem__", "r = batch[[5, 2, 6]][2]"),
    ("clone of a solution", "Solution.clone", "r = batch[4].clone()"),
    ("pickled solution", "Solution.clone", "r = pickle.loads(pickle.dumps(batch[4]))"),
    ("solution on another device", "Solution.to", "r = batch[4].to('cuda:0')"),
    ("solution as a batch", "Solution.to_batch", "r = batch[4].to_batch()"),
    ("solution as a batch, cloned", "Solution.to_batch", "r = batch[4].to_batch().clone()"),
    ("new values for all", "batch.set_values", "batch.set_values(_vals('U', 7, 3))\nr = batch"),
    ("new values for some", "batch.set_values", "batch.set_values(_vals('U', 2, 3), solutions=[1, 5])\nr = batch"),
    ("new values for a range", "batch.set_values", "batch.set_values(_vals('U', 3, 3), solutions=slice(2, 5))\nr = batch"),
    ("new values for a solution", "Solution.set_values", "batch[3].set_values(_vals('u', 3))\nr = batch[4:]"),
    ("results set for some", "batch.set_evals", "batch.set_evals(_evalof(batch.values[[1, 5]]{columns2}), solutions=[1, 5])\nr = batch"),
    ("results set for a range", "batch.set_evals", "batch.forget_evals()\nbatch.set_evals(_evalof(batch.values[2:5]{columns2}), solutions=slice(2, 5))\nr = batch"),
    ("results set for a solution", "Solution.set_evals", "batch.forget_evals()\nbatch[3].set_evals(_evalof(batch[3].values{columns2}))\nr = batch"),
    ("results and data set", "batch.set_evals", "batch.forget_evals()\nbatch.set_evals(_evalof(batch.values, 1), _evalof(batch.values, 2, 1))\nr = batch"),
    ("results and data set for some", "batch.set_evals", "batch.forget_evals()\nbatch.set_evals(_evalof(batch.values[[4, 2]], 1), _evalof(batch.values[[4, 2]], 2, 1), solutions=[4, 2])\nr = batch"),
    ("results and data set for a solution", "Solution.set_evals", "batch[3].set_evals(_evalof(batch[3].values, 1), _evalof(batch[3].values, 2, 1))\nr = batch"),
    ("forgotten for some", "batch.forget_evals", "batch.forget_evals(solutions=[1, 5])\nr = batch"),
    ("access to results", "batch.access_evals", "_paired('accessed results', batch.values, batch.access_evals({obj0}))\nr = batch"),
    ("access to values", "batch.access_values", "_paired('accessed values', batch.access_values(keep_evals=True), batch.evals)\nr = batch"),
]

MANY = """
_at(batch.split)
for i, piece in enumerate(batch.split(3)):
    paired("pieces", piece)
for piece, (i, j) in batch.split(max_size=2).iter_with_indices():
    paired("pieces with indices", piece)
    _paired("pieces and their indices", batch.values[i:j], piece.evals)
    _paired("indices and their pieces", piece.values, batch.evals[i:j])
_at(batch.__iter__)
for s in batch:
    paired("iterated solutions", s)
pieces = batch.split(2)
_at(pieces.indices_of)
i, j = pieces.indices_of(1)
_paired("indices of a piece", batch.values[i:j], pieces[1].evals)
_at(SolutionBatch.cat)
paired("joined pieces", SolutionBatch.cat(list(batch.split(3))))
paired("joined pieces in another order", SolutionBatch.cat([pieces[1], other, pieces[0]]))
"""

RECORDS = """
_at(prob.evaluate)
for s in _each(prob.status["best"]):
    paired("recorded best solution", s)
for s in _each(prob.status["worst"]):
    paired("recorded worst solution", s)
"""

ALG = """
from evotorch import Problem
from evotorch.algorithms import {cls}
{imports}

def f(x):
    return _evalof(x{columns})

prob = Problem({sense}, f, solution_length=3, initial_bounds=(-1.0, 1.0){bounds}, seed=1, vectorized=True{extra})
alg = {ctor}
_at(alg.step)
for i in range({steps}):
    alg.step()
    for p in _each(alg.population):
        _paired("population after a step", p.values, p.evals)
"""

OPERATORS = "operators=[OnePointCrossOver(prob, tournament_size=2), GaussianMutation(prob, stdev=0.1)]"
# class, constructor, imports, sense, extra arguments of the problem, columns
ALGS = [
    ("GeneticAlgorithm", f"GeneticAlgorithm(prob, {OPERATORS}, popsize=6)", "from evotorch.operators import OnePointCrossOver, GaussianMutation", "'min'", "", ""),
    ("GeneticAlgorithm", f"GeneticAlgorithm(prob, {OPERATORS}, popsize=6, elitist=False)", "from evotorch.operators import OnePointCrossOver, GaussianMutation", "'max'", "", ""),
    ("GeneticAlgorithm", f"GeneticAlgorithm(prob, {OPERATORS}, popsize=6, re_evaluate=False)", "from evotorch.operators import OnePointCrossOver, GaussianMutation", "'max'", "", ""),
    ("GeneticAlgorithm", f"GeneticAlgorithm(prob, {OPERATORS}, popsize=6, re_evaluate_parents_first=False)", "from evotorch.operators import OnePointCrossOver, GaussianMutation", "'max'", "", ""),
    ("GeneticAlgorithm", "GeneticAlgorithm(prob, operators=[SimulatedBinaryCrossOver(prob, tournament_size=2, eta=5.0), GaussianMutation(prob, stdev=0.1)], popsize=6)", "from evotorch.operators import SimulatedBinaryCrossOver, GaussianMutation", "['min', 'max']", "", ", 2"),
    ("GeneticAlgorithm", "GeneticAlgorithm(prob, operators=[OnePointCrossOver(prob, tournament_size=2, num_children=4), GaussianMutation(prob, stdev=0.1)], popsize=6, elitist=False)", "from evotorch.operators import OnePointCrossOver, GaussianMutation", "'min'", "", ""),
    ("GeneticAlgorithm", "GeneticAlgorithm(prob, operators=[OnePointCrossOver(prob, tournament_size=2, num_children=8), GaussianMutation(prob, stdev=0.1)], popsize=6, elitist=False, re_evaluate=False)", "from evotorch.operators import OnePointCrossOver, GaussianMutation", "'max'", "", ""),
    ("SteadyStateGA", "SteadyStateGA(prob, popsize=6)\nalg.use(OnePointCrossOver(prob, tournament_size=2))\nalg.use(GaussianMutation(prob, stdev=0.1))", "from evotorch.operators import OnePointCrossOver, GaussianMutation", "'min'", "", ""),
    ("Cosyne", "Cosyne(prob, popsize=8, tournament_size=2, mutation_stdev=0.1, mutation_probability=0.5, permute_all=False, num_elites=2, elitism_ratio=None, eta=None, num_children=4)", "", "'max'", "", ""),
    ("Cosyne", "Cosyne(prob, popsize=8, tournament_size=2, mutation_stdev=0.1, permute_all=True)", "", "'min'", "", ""),
    ("MAPElites", f"MAPElites(prob, {OPERATORS}, feature_grid=_vals('grid', 4, 2, 2))", "from evotorch.operators import OnePointCrossOver, GaussianMutation", "'min'", ", eval_data_length=2", ", 3"),
    ("SNES", "SNES(prob, stdev_init=1.0, popsize=6)", "", "'min'", "", ""),
    ("CEM", "CEM(prob, stdev_init=1.0, popsize=6, parenthood_ratio=0.5)", "", "'max'", "", ""),
    ("PGPE", "PGPE(prob, stdev_init=1.0, popsize=6, center_learning_rate=0.1, stdev_learning_rate=0.1)", "", "'max'", "", ""),
    ("XNES", "XNES(prob, stdev_init=1.0, popsize=6)", "", "'min'", "", ""),
    ("CMAES", "CMAES(prob, stdev_init=1.0, popsize=6)", "", "'min'", "", ""),
    ("PyCMAES", "PyCMAES(prob, stdev_init=1.0, popsize=6)", "", "'min'", "", ""),
]

POSITIVE = """
from evotorch import Problem, SolutionBatch

def f(x):
    return _evalof(x)

def made(values, evals):
    r = SolutionBatch(prob, len(values), empty=True)
    r.set_values(values)
    r.set_evals(evals)
    return r

prob = Problem("min", f, solution_length=3, initial_bounds=(-1.0, 1.0), seed=1, vectorized=True)
batch = SolutionBatch(prob, 4, empty=True)
batch.set_values(_vals("V", 4, 3))
prob.evaluate(batch)
r = made(batch.values, batch.evals[[3, 1, 2, 0]])
_paired("turned", r.values, r.evals)
i = _index("i", 2)
j = _index("j", 2)
_paired("picked apart", batch.values[i], batch.evals[j])
_paired("picked together", batch.values[i], batch.evals[i])
c = batch.clone()
c.access_values(keep_evals=True)[:2] = _vals("W", 2, 3)
_paired("kept", c.values, c.evals)
_paired("kept in part", c.values[2:], c.evals[2:])
c = made(batch.values, batch.evals.flip(0))
_paired("reversed", c.values, c.evals)
"""


def tasks():
    out = []
    for p, (sense, columns, extra, o) in (
        ("", ("'min'", "", "", "")),
        ("maximised ", ("'max'", ", 1", "", "")),
        ("several objectives ", ("['min', 'max']", ", 2", "", "1")),
        ("with data ", ("'max'", ", 3", ", eval_data_length=2", "")),
    ):
        head = HEAD.format(sense=sense, columns=columns, extra=extra)
        for label, fn, src in OPS:
            if "and data" in label and "data" not in extra:
                continue
            s = src.replace("{obj}", ", obj_index=1" if o else "").replace("{obj0}", o).replace("{columns2}", columns)
            if "without an objective" in label and o:
                s = s.replace("take_best(3)", "take_best(3)")
            out.append((p + label, head + f"_at({fn})\n{s}\npaired({label!r}, r)\n" + ("paired('batch afterwards', batch)\n" if "set_values(_vals('u'" not in s else "")))
        out.append((p + "pieces", head + MANY))
        out.append((p + "records", head + RECORDS))
        out.append((p + "records of the first evaluation", head.split("other = ")[0] + RECORDS))
    for i, (cls, ctor, imports, sense, extra, columns) in enumerate(ALGS):
        for b in ("", ", bounds=(-2.0, 2.0)"):
            if b and cls not in ("GeneticAlgorithm", "SteadyStateGA", "MAPElites", "Cosyne"):
                continue
            out.append((f"steps of {cls} {i}{b}", ALG.format(cls=cls, ctor=ctor, imports=imports, sense=sense, extra=extra, columns=columns, bounds=b, steps=3)))
    return [Task(n, s, obs=Obs, intr=INTR, domains=lambda: [ValueNumbers()]) for n, s in out]


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=Obs, intr=INTR, domains=lambda: [ValueNumbers()]))
    got = sorted(f["construct"] for f in pos["found"])
    ctx.counts["positive_examples_matched"] = len(got)
    if got != ["kept", "picked apart", "reversed", "turned"] or pos["counts"].get("pairs_decided") != 2:
        ctx.errors.append(f"positive example: findings {got} {pos['counts']}; {pos['error']}")
    ctx.run(tasks())
    ctx.need("pairs decided", ctx.counts.get("pairs_decided", 0), 150)
