"""P17: data types and devices follow the problem or the given center."""
from itertools import product

from ..base import Obs, Task, run_task
from ..kinds import INTR, Kinds
from ..shapes import Shapes

EXPLANATION = (
    "data type and device inference by torch's rules (defaults of makers, promotion by category and number of dimensions): "
    "every floating-point tensor of a state, sample, population, result or distribution must have the data type and device of the given center or problem"
)

HEAD = """
import torch
from evotorch.algorithms.functional import cem, cem_ask, cem_tell, pgpe, pgpe_ask, pgpe_tell, adam, adam_ask, adam_tell, clipup, clipup_ask, clipup_tell, sgd, sgd_ask, sgd_tell
"""
PROBLEM = """
import torch
from copy import deepcopy
from evotorch import Problem, Solution, SolutionBatch
from evotorch.tools import modify_tensor, modify_vector
from evotorch.algorithms import SNES, CEM, PGPE, XNES, CMAES, GeneticAlgorithm, SteadyStateGA, Cosyne, MAPElites
from evotorch.operators import GaussianMutation, SimulatedBinaryCrossOver, OnePointCrossOver, TwoPointCrossOver, MultiPointCrossOver, PolynomialMutation, CosynePermutation
from evotorch.distributions import SeparableGaussian, SymmetricSeparableGaussian, ExpGaussian, ExpSeparableGaussian
from evotorch.optimizers import Adam, SGD, ClipUp

def f(x):
    return {result}

prob = Problem({sense}, f, solution_length=4, {bounds}, seed=1, vectorized=True, dtype={dtype}, eval_dtype={eval_dtype}, device=_device())
"""
RESULT = {"'min'": "torch.sum(x, dim=-1)", "'max'": "torch.sum(x, dim=-1)", "['min', 'max']": "x[:, :2] * 2.0"}
RANKS = ("centered", "linear", "nes", "normalized", "raw")
TYPES = ["float64", "float16", "float32"]


def setup(it):
    it.raw_ndim = True


def tasks():
    out = []

    def add(name, at, lines, head=HEAD):
        out.append(Task(name, head + f"_at({at})\n" + "\n".join(lines) + "\n", obs=Obs, domains=lambda: [Shapes(), Kinds()], intr=INTR, setup=setup))

    for t, batch in product(TYPES, ("",)):
        kind = f"'{t}', True"
        c = f"c = _tensor('c', {kind}, {batch}3)"
        told = [f"v = _tensor('v', {kind}, {batch}4, 3)", f"e = _tensor('e', {kind}, {batch}4)"]
        for n, extra in (
            ("stdev a number", "stdev_init=0.5"),
            ("stdev a list", "stdev_init=[0.5, 1.0, 2.0]"),
            ("stdev a tensor", f"stdev_init=_tensor('s', {kind}, 3)"),
            ("stdev a tensor of its own", "stdev_init=_tensor('s', 'float32', False, 3)"),
            ("radius a number", "radius_init=1.5"),
            ("radius a tensor", f"radius_init=_tensor('r', {kind})"),
            ("limits", "stdev_init=1, stdev_min=0.1, stdev_max=5.0, stdev_max_change=0.2"),
        ):
            add(f"cem, {n}, {t}, {batch}", "cem_tell", [c] + told + [
                f"st = cem(center_init=c, parenthood_ratio=0.5, objective_sense='min', {extra})", f"_kind('initial state of the cross entropy method', st, {kind})",
                "p = cem_ask(st, popsize=4)", f"_kind('population of the cross entropy method', p, {kind})",
                "st = cem_tell(st, v, e)", f"_kind('state of the cross entropy method after an update', st, {kind})", "p = cem_ask(st, popsize=4)", f"_kind('population of the cross entropy method after an update', p, {kind})"])
            for opt, ranking, symmetric in product(("clipup", "adam", "sgd"), ("centered", "nes", "normalized", "raw", "linear"), (True, False)):
                if (("clipup", "adam", "sgd").index(opt) + ("centered", "nes", "normalized", "raw", "linear").index(ranking) + symmetric) % 3 and n != "stdev a number":
                    continue
                add(f"pgpe, {n}, {opt}, {ranking}, {symmetric}, {t}, {batch}", "pgpe_tell", [c] + told + [
                    f"st = pgpe(center_init=c, center_learning_rate=0.1, stdev_learning_rate=0.1, objective_sense='max', optimizer='{opt}', ranking_method='{ranking}', symmetric={symmetric}, {extra})", f"_kind('initial state of pgpe', st, {kind})",
                    "p = pgpe_ask(st, popsize=4)", f"_kind('population of pgpe', p, {kind})",
                    "st = pgpe_tell(st, v, e)", f"_kind('state of pgpe after an update', st, {kind})", "p = pgpe_ask(st, popsize=4)", f"_kind('population of pgpe after an update', p, {kind})"])
        for opt, extra in (("adam", ""), ("adam", ", center_learning_rate=0.1, beta1=0.5, beta2=0.5, epsilon=0.01"), ("clipup", ", center_learning_rate=0.1"), ("clipup", ", center_learning_rate=0.1, momentum=0.5, max_speed=1"), ("clipup", ", max_speed=1.0"), ("sgd", ", center_learning_rate=0.1"), ("sgd", ", center_learning_rate=0.1, momentum=0.9")):
            add(f"{opt}{extra}, {t}, {batch}", f"{opt}_tell", [c, f"g = _tensor('g', {kind}, {batch}3)",
                f"st = {opt}(center_init=c{extra})", f"_kind('initial state of {opt}', st, {kind})", f"st = {opt}_tell(st, follow_grad=g)", f"_kind('state of {opt} after an update', st, {kind})", f"_kind('center of {opt}', {opt}_ask(st), {kind})"])
    for t, e in (("float64", "float64"), ("float64", "float16"), ("float16", "float32"), ("float32", "float64"), ("float16", "float16")):
        kind, ekind = f"'{t}', True", f"'{e}', True"
        for sense, spell, bounds in (("'min'", "torch.{}", "initial_bounds=(-1.1, 1.1)"), ("['min', 'max']", "'{}'", "bounds=(-1.0, 1.0)"), ("'max'", "torch.{}", "bounds=([-1.0, -2.0, -3.0, -1.0], [1.0, 2.0, 3.0, 1.0])")):
            head = PROBLEM.format(sense=sense, result=RESULT[sense], bounds=bounds, dtype=spell.format(t), eval_dtype=spell.format(e))
            tag = f"{t} {e} {sense}"
            new = ["b = prob.generate_batch(6)", f"_kind('values of a new batch', b.values, {kind})", f"_kind('results of a new batch', b.evals, {ekind})"]
            add(f"batches, {tag}", "prob.generate_batch", new + [
                f"_kind('generated values', prob.generate_values(5), {kind})",
                "q = prob.generate_batch(3, empty=True)", f"_kind('values of an empty batch', q.values, {kind})", f"_kind('results of an empty batch', q.evals, {ekind})",
                f"q = prob.generate_batch(4, center=0.0, stdev=1.0)", f"_kind('values of a batch around a center', q.values, {kind})",
                f"r = SolutionBatch.cat([b, prob.generate_batch(2)])", f"_kind('values of joined batches', r.values, {kind})", f"_kind('results of joined batches', r.evals, {ekind})",
                f"_kind('values of a part of a batch', b[1:3].values, {kind})", f"_kind('results of a part of a batch', b[[1, 2]].evals, {ekind})",
                f"_kind('values of a copy', deepcopy(b).values, {kind})", f"_kind('results of a copy', b.clone().evals, {ekind})",
                f"_kind('writable values', b.access_values(), {kind})", f"_kind('writable results', b.access_evals(), {ekind})",
                f"_kind('values of a solution', b[0].values, {kind})", f"_kind('results of a solution', b[0].evals, {ekind})",
                f"b.set_values(_tensor('v', 'float32', False, 6, 4))", f"_kind('values of a batch after setting them', b.values, {kind})",
                f"_kind('lower bounds', prob.lower_bounds, {kind})" if sense != "'min'" else f"_kind('initial lower bounds', prob.initial_lower_bounds, {kind})",
                f"_kind('upper bounds', prob.upper_bounds, {kind})" if sense != "'min'" else f"_kind('initial upper bounds', prob.initial_upper_bounds, {kind})",
            ], head)
            add(f"tensors, {tag}", "prob.make_zeros", [
                f"_kind('{n}', prob.{x}, {kind})" for n, x in (
                    ("zeros", "make_zeros(3)"), ("zeros by number of solutions", "make_zeros(num_solutions=3)"), ("ones", "make_ones(3)"), ("empty tensor", "make_empty(2, 3)"), ("not-a-number tensor", "make_nan(3)"), ("identity", "make_I(3)"), ("uniform numbers", "make_uniform(2, 3, lb=-1.0, ub=1.0)"), ("uniform numbers", "make_uniform(num_solutions=3, lb=-1.0, ub=1.0)"), ("gaussian numbers", "make_gaussian(3)"),
                    ("gaussian numbers", "make_gaussian(num_solutions=3, center=0.0, stdev=2.0)"), ("symmetric gaussian numbers", "make_gaussian(4, 3, symmetric=True, center=0.0, stdev=1.0)"), ("tensor of numbers", "make_tensor([1.1, 2.0])"), ("tensor", "as_tensor([1.1, 2.0])"), ("tensor of the length of a solution", "ensure_tensor_length_and_dtype([0.1, 0.2, 0.3, 0.4])"), ("number", "ensure_tensor_length_and_dtype(0.1, allow_scalar=True)"), ("repeated number", "ensure_tensor_length_and_dtype(0.1)"), ("zeros shaped like results", "make_gaussian_shaped_like(prob.make_zeros(4))"), ("uniform numbers by shape", "make_uniform_shaped_like(prob.make_zeros(4), lb=0.0, ub=1.0)"),
                )] + [f"_kind('{n} of a solution batch evaluation type', prob.{x}, {ekind})" for n, x in (("zeros", "make_zeros(3, use_eval_dtype=True)"), ("ones", "make_ones(num_solutions=3, use_eval_dtype=True)"), ("uniform numbers", "make_uniform(3, use_eval_dtype=True)"), ("gaussian numbers", "make_gaussian(3, use_eval_dtype=True)"), ("tensor", "make_tensor([1.1], use_eval_dtype=True)"), ("not-a-number tensor", "make_nan(3, use_eval_dtype=True)"))], head)
            one = head.replace("vectorized=True, ", "").replace(RESULT[sense], "[0.1, 0.2]" if sense == "['min', 'max']" else "0.1")
            many = "[0.1, 0.3]" if sense == "['min', 'max']" else "0.3"
            add(f"results one by one, {tag}", "prob.evaluate", ["b = prob.generate_batch(3)", "prob.evaluate(b)", f"_kind('results given as numbers', b.evals, {ekind})", "c = prob.generate_batch(3)", "x = c[1]", f"x.set_evals({many})", f"_kind('results of a solution given as numbers', x.evals, {ekind})", f"_kind('results of a batch given as numbers', c.evals, {ekind})", "x.set_values([0.1, 0.2, 0.3, 0.4])", f"_kind('values of a solution given as numbers', x.values, {kind})", f"_kind('values of a batch given as numbers', c.values, {kind})", "y = Solution(c, 2)", f"y.set_evals({many})", f"_kind('results of a new solution', y.evals, {ekind})", f"_kind('values of a new solution', y.values, {kind})"], one)
            if sense != "['min', 'max']":
                for n, x in (
                    ("one-point crossover", "OnePointCrossOver(prob, tournament_size=2)"), ("two-point crossover", "TwoPointCrossOver(prob, tournament_size=2)"), ("multi-point crossover", "MultiPointCrossOver(prob, tournament_size=2, num_points=3)"), ("simulated binary crossover", "SimulatedBinaryCrossOver(prob, tournament_size=2, eta=8.0)"), ("simulated binary crossover with rate", "SimulatedBinaryCrossOver(prob, tournament_size=2, eta=8.0, cross_over_rate=0.5)"),
                    ("gaussian mutation", "GaussianMutation(prob, stdev=0.1)"), ("gaussian mutation with probability", "GaussianMutation(prob, stdev=0.1, mutation_probability=0.5)"), ("polynomial mutation", "PolynomialMutation(prob, eta=20.0)" if sense != "'min'" else ""), ("polynomial mutation with probability", "PolynomialMutation(prob, eta=20.0, mutation_probability=0.5)" if sense != "'min'" else ""), ("cosyne permutation", "CosynePermutation(prob, permute_all=True)"), ("cosyne permutation of some", "CosynePermutation(prob)"), 
                ):
                    if x:
                        add(f"{n}, {tag}", "op.__call__", [f"op = {x}", "b = prob.generate_batch(6)", "prob.evaluate(b)", "c = op(b)", f"_kind('values of the children of {n}', c.values, {kind})", f"_kind('results of the children of {n}', c.evals, {ekind})", f"_kind('results of the parents of {n}', b.evals, {ekind})"], head)
            add(f"results, {tag}", "b.utility", ["b = prob.generate_batch(6)", "prob.evaluate(b)", f"_kind('results of an evaluated batch', b.evals, {ekind})", f"_kind('records of a problem', prob.status['best'].values, {kind})" if sense != "['min', 'max']" else "pass"]
                + [f"_kind('utilities, {r}', b.utility(0, ranking_method={r!r}), {ekind})" for r in RANKS + (None,)]
                + [f"_kind('utilities of all solutions', b.utils(ranking_method='centered'), {ekind})", f"_kind('utilities in the data type of the values', b.utility(0, ranking_method='centered', using_values_dtype=True), {kind})", f"_kind('raw utilities in the data type of the values', b.utility(0, using_values_dtype=True), {kind})"]
                + ["c = prob.generate_batch(3)", "c.set_evals(_tensor('e', 'float32', False, 3" + (", 2" if sense == "['min', 'max']" else "") + "))", f"_kind('results of a batch after setting them', c.evals, {ekind})", "x = b[1]", f"_kind('values of a copied solution', x.clone().values, {kind})", f"_kind('batch made of a solution', x.to_batch().values, {kind})", f"_kind('results of a batch made of a solution', x.to_batch().evals, {ekind})", f"_kind('taken solutions', b.take([0, 1]).values, {kind})", f"_kind('best solutions', b.take_best(2).values, {kind})" if sense != "['min', 'max']" else "pass"], head)
            algs = []
            if sense == "'min'":
                algs = [
                    ("SNES", "SNES(prob, stdev_init=0.5, popsize=4)", 1), ("SNES with radius", "SNES(prob, radius_init=1.5, popsize=4)", 1), ("SNES with a center", "SNES(prob, stdev_init=0.5, popsize=4, center_init=[0.1, 0.2, 0.0, 0.0])", 1), ("SNES with an optimizer", "SNES(prob, stdev_init=0.5, popsize=4, optimizer='clipup', optimizer_config={'max_speed': 0.1})", 1),
                    ("CEM", "CEM(prob, parenthood_ratio=0.5, stdev_init=0.5, popsize=4)", 1), ("CEM with limits", "CEM(prob, parenthood_ratio=0.5, stdev_init=0.5, popsize=4, stdev_min=0.1, stdev_max=1.0, stdev_max_change=0.2)", 1),
                    ("XNES", "XNES(prob, stdev_init=0.5, popsize=4)", 0), ("CMAES", "CMAES(prob, stdev_init=0.5, popsize=4)", 0), ("CMAES with separable covariance", "CMAES(prob, stdev_init=0.5, popsize=4, separable=True)", 0),
                ] + [(f"PGPE with {o}, ranking {r}", f"PGPE(prob, popsize=4, center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=0.5, optimizer='{o}', ranking_method='{r}', symmetric={y})", 1) for o, r, y in (("clipup", "centered", True), ("adam", "nes", True), ("sgd", "raw", False), ("clipup", "linear", False), ("adam", "normalized", False))]
            for n, x, ok in algs:
                add(f"{n}, {tag}", "s.step", [f"s = {x}", "s.step()", f"_kind('values of the population of {n}', s.population.values, {kind})", f"_kind('results of the population of {n}', s.population.evals, {ekind})"] + ([f"_kind('center of {n}', s.status['center'], {kind})", f"_kind('standard deviation of {n}', s.status['stdev'], {kind})"] if ok else []) + ["s.step()", f"_kind('values of the next population of {n}', s.population.values, {kind})", f"_kind('results of the next population of {n}', s.population.evals, {ekind})"] + ([f"_kind('next center of {n}', s.status['center'], {kind})", f"_kind('next standard deviation of {n}', s.status['stdev'], {kind})"] if ok else [f"_kind('center of {n}', s.status['center'], {kind})"]), head)
            if sense != "'min'":
                for n, x in (
                    ("Cosyne", "Cosyne(prob, popsize=6, tournament_size=2, mutation_stdev=0.1)" if sense == "'max'" else ""), ("steady state GA", "SteadyStateGA(prob, popsize=6, operators=[OnePointCrossOver(prob, tournament_size=2), GaussianMutation(prob, stdev=0.1)])"),
                    ("genetic algorithm", "GeneticAlgorithm(prob, popsize=6, operators=[SimulatedBinaryCrossOver(prob, tournament_size=2, eta=8.0), GaussianMutation(prob, stdev=0.1)])"), ("genetic algorithm without elitism", "GeneticAlgorithm(prob, popsize=6, elitist=False, operators=[OnePointCrossOver(prob, tournament_size=2), PolynomialMutation(prob)])"),
                ):
                    if x:
                        add(f"{n}, {tag}", "s.step", [f"s = {x}", "s.step()", "s.step()", f"_kind('values of the population of a {n}', s.population.values, {kind})", f"_kind('results of the population of a {n}', s.population.evals, {ekind})"], head)
        for cls, rank in product(("SeparableGaussian", "SymmetricSeparableGaussian", "ExpSeparableGaussian", "ExpGaussian"), RANKS):
            head = PROBLEM.format(sense="'min'", result=RESULT["'min'"], bounds="initial_bounds=(-1.1, 1.1)", dtype=f"'{t}'", eval_dtype=f"'{e}'")
            sigma = "4, 4" if cls == "ExpGaussian" else "4"
            made = [f"d = {cls}({{'mu': _tensor('mu', {kind}, 4), 'sigma': _tensor('sigma', {kind}, {sigma})}})"]
            cast = [f"d = {cls}({{'mu': _tensor('mu', 'float32', False, 4), 'sigma': _tensor('sigma', 'float32', False, {sigma})}}, dtype='{t}', device=_device())"]
            for how, first in (("given", made), ("cast", cast)):
                add(f"{cls}, {rank}, {how}, {t} {e}", "d.sample", first + [
                    f"_kind('parameters of {cls}', d.parameters, {kind})", "x = d.sample(4)", f"_kind('samples of {cls}', x, {kind})", f"_kind('samples of {cls} by a problem', d.sample(4, generator=prob), {kind})",
                    f"g = d.compute_gradients(x, _tensor('fit', {ekind}, 4), objective_sense='min', ranking_method='{rank}')", f"_kind('gradients of {cls}', g, {kind})",
                    f"u = d.update_parameters(g, learning_rates={{'mu': 0.1, 'sigma': 0.1}})", f"_kind('parameters of {cls} after an update', u.parameters, {kind})", f"_kind('samples of {cls} after an update', u.sample(4), {kind})",
                    f"r = prob.sample_and_compute_gradients(d, 4, ranking_method='{rank}')", f"_kind('gradients of {cls} by a problem', r['gradients'] if isinstance(r, dict) and 'gradients' in r else r, {kind})",
                    f"m = d.modified_copy(mu=_tensor('mu2', {kind}, 4))", f"_kind('parameters of a modified copy of {cls}', m.parameters, {kind})",
                ], head)
        add(f"grid, {t}", "MAPElites.make_feature_grid", [f"_kind('grid of features', MAPElites.make_feature_grid([0.1, -1.0], [1.1, 1.0], 3, dtype='{t}', device=_device()), {kind})", f"_kind('grid of features from tensors', MAPElites.make_feature_grid(_tensor('lb', {kind}, 2), _tensor('ub', {kind}, 2), 3), {kind})"], head)
        add(f"tools, {t}", "modify_tensor", [f"x, y = _tensor('x', {kind}, 4), _tensor('y', {kind}, 4)"] + [f"_kind('modified tensor', {z}, {kind})" for z in ("modify_tensor(x, y, lb=0.0, ub=1.0)", "modify_tensor(x, y, lb=0.0, ub=1.0, max_change=0.1)", "modify_tensor(x, y, max_change=0.5)", "modify_tensor(x, y, lb=[0.0, 0.0, 1.0, 1.0])", "modify_vector(x, y, lb=0.0, ub=1.0)", "modify_vector(x, y, max_change=0.2)")], head)
        add(f"makers, {t}", "tools.make_zeros", [f"_kind('{n}', tools.{x[:-1]}, dtype='{t}', device=_device()), {kind})" for n, x in (("zeros", "make_zeros(3)"), ("ones", "make_ones(3)"), ("not-a-number tensor", "make_nan(3)"), ("empty tensor", "make_empty(3)"), ("identity", "make_I(3)"), ("uniform numbers", "make_uniform(3, lb=0.0, ub=1.0)"), ("gaussian numbers", "make_gaussian(3, center=0.0, stdev=1.0)"), ("tensor", "make_tensor([1.0, 2.0])"), ("converted tensor", "as_tensor([1, 2])"))], head + "from evotorch import tools\n")
        for opt in ("Adam", "SGD", "ClipUp"):
            for n, x in (("", ""), (" with momentum", {"Adam": ", beta1=0.5, beta2=0.9", "SGD": ", momentum=0.9", "ClipUp": ", momentum=0.5, max_speed=1.0"}[opt])):
                add(f"{opt}{n}, {t}", "o.ascent", [f"o = {opt}(solution_length=4, dtype='{t}', device=_device(), stepsize=0.1{x})", f"g = _tensor('g', {kind}, 4)", f"_kind('step of {opt}', o.ascent(g), {kind})", f"_kind('second step of {opt}', o.ascent(g), {kind})"], PROBLEM.format(sense="'min'", result=RESULT["'min'"], bounds="initial_bounds=(-1.1, 1.1)", dtype=f"'{t}'", eval_dtype=f"'{e}'"))
    return out


POSITIVE = """
import torch

class Center:
    def __init__(self, c):
        self.c = c
        self.good = torch.zeros_like(c)
        self.also = torch.ones(3, dtype=c.dtype, device=c.device) * 0.5
        self.kept = c * torch.tensor(2.0)

class Wrong(Center):
    def __init__(self, c):
        self.wrong = torch.ones(3, dtype=c.dtype)

class Default(Center):
    def __init__(self, c):
        self.wrong = torch.zeros(3, device=c.device)

class Promoted(Center):
    def __init__(self, c):
        self.wrong = c * torch.ones(3, device=c.device)

class Rounded(Center):
    def __init__(self, c):
        self.wrong = c * 0.0
        self.wrong[:] = torch.arange(3, device=c.device) / 3

class Exact(Center):
    def __init__(self, c):
        self.right = c * 0.0
        self.right[:] = torch.arange(3, device=c.device).to(c.dtype) / 3

for t in (Center, Rounded, Exact):
    _at(t.__init__)
    _kind(t.__name__, t(_tensor("d", "float64", True, 3)), "float64", True)
for t in (Center, Wrong, Default, Promoted):
    _at(t.__init__)
    _kind(t.__name__, t(_tensor("c", "float16", True, 3)), "float16", True)
"""


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=Obs, intr=INTR, domains=lambda: [Shapes(), Kinds()]))
    got = sorted({(f["rule"], f["construct"]) for f in pos["found"]})
    ctx.counts["positive_examples_matched"] = len(got)
    if got != [("data-type", "Default"), ("data-type", "Promoted"), ("device", "Wrong"), ("precision", "Rounded")]:
        ctx.errors.append(f"positive example: findings {got} {pos['counts']}; {pos['error']}")
    ts = tasks()
    for t in ts:
        t.dead_is_finding = "call with another data type or device"
    ctx.run(ts)
    ctx.need("tensors decided", ctx.counts.get("decided", 0), 300)
