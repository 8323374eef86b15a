"""P23: genetic algorithms keep the best solutions and their population size."""
from ..base import Obs, Task, run_task
from ..selection import INTR
from ..valnum import ValueNumbers

EXPLANATION = (
    "value numbering with constant shapes: values and evaluation results, stamped with their generation, are followed through three generations of each genetic algorithm; the number of solutions, "
    "the generation of their results, the candidates of each selection, and what it is based on are compared with the specified ones"
)

ALG = """
import torch
from evotorch import Problem, SolutionBatch
from evotorch.algorithms import {cls}
from evotorch.operators import {ops}

gen = 0

def f(x):
    return _evalat(x, {columns}, gen)

prob = Problem({sense}, f, solution_length=3, initial_bounds=(-1.0, 1.0){bounds}, seed=1, vectorized=True)
alg = {ctor}
_at(alg.step)
for i in range(3):
    gen = i + 1
    before = alg.population.clone()
    alg.step()
    for p in _each(alg.population):
        _const("size of the population", len(p), {n})
        _kept("population after a step", before.values, p.values, p.evals, gen, {elitist}, {renewed}, {children}, {elites})
"""

POSITIVE = """
from evotorch import Problem, SolutionBatch
from evotorch.algorithms import GeneticAlgorithm
from evotorch.operators import GaussianMutation

gen = 0

def f(x):
    return _evalat(x, 1, gen)

def forgetful(pop, children):
    return children.take_best(6)

def unsorted(pop, children):
    return SolutionBatch.cat([pop, children])[:6]

def small(pop, children):
    return SolutionBatch.cat([pop, children]).take_best(5)

def good(pop, children):
    return SolutionBatch.cat([pop, children]).take_best(6)

prob = Problem("min", f, solution_length=3, initial_bounds=(-1.0, 1.0), seed=1, vectorized=True)
for name, fn in (("forgetful", forgetful), ("unsorted", unsorted), ("stale", good), ("small", small), ("good", good)):
    gen = 0
    pop = prob.generate_batch(6)
    prob.evaluate(pop)
    gen = 1
    before = pop.clone()
    if name != "stale":
        prob.evaluate(pop)
    children = GaussianMutation(prob, stdev=0.1)(pop)
    prob.evaluate(children)
    after = fn(pop, children)
    _const(name, len(after), 6)
    _kept(name, before.values, after.values, after.evals, gen, True, True)
"""

# operators, names, whether bounds are possible
OPERATORS = [
    ("OnePointCrossOver(prob, tournament_size=2), GaussianMutation(prob, stdev=0.1)", "OnePointCrossOver, GaussianMutation"),
    ("OnePointCrossOver(prob, tournament_size=3, num_children=4)", "OnePointCrossOver"),
    ("OnePointCrossOver(prob, tournament_size=3, num_children=10)", "OnePointCrossOver"),
    ("TwoPointCrossOver(prob, tournament_size=2, cross_over_rate=2.0), GaussianMutation(prob, stdev=0.1, mutation_probability=0.5)", "TwoPointCrossOver, GaussianMutation"),
    ("MultiPointCrossOver(prob, tournament_size=2, num_points=2), PolynomialMutation(prob, eta=3.0)", "MultiPointCrossOver, PolynomialMutation"),
    ("SimulatedBinaryCrossOver(prob, tournament_size=2, eta=3.0)", "SimulatedBinaryCrossOver"),
    ("SimulatedBinaryCrossOver(prob, tournament_size=2, eta=3.0, cross_over_rate=0.5), GaussianMutation(prob, stdev=0.1)", "SimulatedBinaryCrossOver, GaussianMutation"),
    ("GaussianMutation(prob, stdev=0.1)", "GaussianMutation"),
    ("CosynePermutation(prob)", "CosynePermutation"),
    ("lambda x: x + 1.0", "GaussianMutation"),
    ("lambda x: x[:4] + 1.0", "GaussianMutation"),
    ("lambda x: torch.cat([x, x + 1.0], dim=0), GaussianMutation(prob, stdev=0.1)", "GaussianMutation"),
]
SETTINGS = ["", "re_evaluate=False", "re_evaluate_parents_first=True", "re_evaluate_parents_first=False"]


def tasks():
    out = []
    for i, (ops, names) in enumerate(OPERATORS):
        for e in (True, False):
            for st in SETTINGS:
                for n, sense, m in ((6, "'min'", 1), (7, "'max'", 1), (6, "['min', 'max']", 2)):
                    if m == 2 and (i not in (0, 1, 7) or not e):
                        continue
                    b = ", bounds=(-2.0, 2.0)" if i == 4 or i == 0 and n == 6 and m == 1 else ""
                    more = ", ".join(x for x in (st, "" if e else "elitist=False") if x)
                    ctor = f"GeneticAlgorithm(prob, operators=[{ops}], popsize={n}{', ' + more if more else ''})"
                    out.append((f"GeneticAlgorithm {names} {i} {n} {sense}{b} {more}", ALG.format(cls="GeneticAlgorithm", ops=names, columns=m, sense=sense, bounds=b, ctor=ctor, n=n, elitist=e, children={1: 4, 2: 10, 10: 4, 11: 2 * n}.get(i), elites=None, renewed="re_evaluate=False" not in st)))
    for st in SETTINGS:
        for e in (True, False):
            more = ", ".join(x for x in (st, "" if e else "elitist=False") if x)
            for c, m in (("OnePointCrossOver(prob, tournament_size=2)", "GaussianMutation(prob, stdev=0.1)"), ("SimulatedBinaryCrossOver(prob, tournament_size=2, eta=5.0, num_children=4)", "GaussianMutation(prob, stdev=0.1)")):
                ctor = f"SteadyStateGA(prob, popsize=6{', ' + more if more else ''})\nalg.use({c})\nalg.use({m})"
                out.append((f"SteadyStateGA {c} {more}", ALG.format(cls="SteadyStateGA", ops=c.split("(")[0] + ", " + m.split("(")[0], columns=1, sense="'min'", bounds=", bounds=(-2.0, 2.0)" if "Poly" in m else "", ctor=ctor, n=6, elitist=e, children=4 if "num_children" in c else None, elites=None, renewed="re_evaluate=False" not in st)))
    for more, el in (("", None), (", num_elites=2", 2), (", num_children=4", None), (", permute_all=True, num_elites=1", 1), (", num_elites=3", 3), (", eta=3.0, elitism_ratio=0.25", 2), (", mutation_probability=0.5", None)):
        out.append((f"Cosyne{more}", ALG.format(cls="Cosyne", ops="GaussianMutation", columns=1, sense="'max'", bounds="", ctor=f"Cosyne(prob, popsize=8, tournament_size=2, mutation_stdev=0.1{more})", n=8, elitist=False, renewed=True, children=None, elites=el)))
    return [Task(n, s, obs=Obs, intr=INTR, domains=lambda: [ValueNumbers()]) for n, s in out]


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=Obs, intr=INTR, domains=lambda: [ValueNumbers()]))
    got = sorted(f["construct"] for f in pos["found"])
    ctx.counts["positive_examples_matched"] = len(got)
    if got != ["forgetful", "small", "stale", "unsorted"] or pos["counts"].get("selections_decided") != 5:
        ctx.errors.append(f"positive example: findings {got} {pos['counts']}; {pos['error']}")
    ctx.run(tasks())
    ctx.need("selections decided", ctx.counts.get("selections_decided", 0), 60)
    ctx.need("values decided", ctx.counts.get("values_decided", 0), 60)
