"""P07: a seeded problem is the only source of randomness of what is bound to it."""
import ast

from ..base import Finding, Obs, Task, construct, finding, program, run_task, where
from ..vals import NONE, Abs, K, Ref
from .common import REAL_OPERATORS

EXPLANATION = (
    "provenance analysis of random generators: every random draw reached from operators, distributions, algorithms, problems and environment problems of a seeded problem "
    "must receive that problem's generator (or the one given by the caller) on every path, and nothing may read or seed the global random state; "
    "in addition, no random call of the library's classes may lack a generator argument altogether"
)

DRAWS = {
    "rand", "randn", "randint", "randperm", "normal", "multinomial", "bernoulli", "poisson", "rand_like", "randn_like", "randint_like", "binomial",
    "normal_", "uniform_", "random_", "bernoulli_", "exponential_", "cauchy_", "geometric_", "log_normal_",
}
SEEDERS = {"manual_seed", "seed", "initial_seed", "get_rng_state", "set_rng_state", "manual_seed_all", "seed_all", "fork_rng"}


def classify(q):
    """"draw", "global" or None for the qualified name of an external function."""
    p = q.split(".")
    if p[0] == "random" or q.startswith("numpy.random"):
        return "global"
    if p[0] in ("torch", "tensor", "super") and p[-1].split("@")[0] in DRAWS and "distributions" not in p:
        return "draw"
    if p[0] == "torch" and p[-1] in SEEDERS and p[-2] in ("torch", "random", "cuda"):
        return "global"
    if q.startswith("torch.nn.init.") or q.startswith("torch.distributions."):
        return "global"
    return None


class RngObs(Obs):
    def __init__(self):
        super().__init__()
        self.sites = set()
        self.allowed = set()
        self.reseeded = False

    def ext_call(self, it, q, recv, args, kwargs, node, res):
        if q.endswith(".CMAEvolutionStrategy") and len(args) > 2:
            self.count("foreign_strategies")
            for d in args[2]:
                h = it.st.heap.get(d.oid) if isinstance(d, Ref) else None
                v = h.items.get(K("seed", "str")) if h is not None and isinstance(h.items, dict) else None
                if h is not None and (not v or not all(it.facts(x).get("rng") for x in v)):
                    self.add(finding(it, "strategy-seed", node, "the wrapped strategy is not given a seed drawn from the generator of the problem"))
        if q.split(".")[-1] == "manual_seed" and isinstance(recv, Abs) and args and any(it.facts(a).get("own_seed") for a in args[0]):
            self.reseeded = True
        c = classify(q)
        if c is None or it.mute:
            return
        if any(getattr(f.fi, "cls", None) is not None and is_remote(f.fi.cls) for f in it.stack if getattr(f, "fi", None) is not None):
            return  # code of a worker process
        if c == "global":
            if q.split(".")[-1] in ("RandomState", "default_rng", "Random", "SeedSequence") and (args or kwargs):
                return
            self.add(finding(it, "global-random-state", node, f"{q} uses the global random state instead of the generator of the problem"))
            return
        if q == "torch.randint" and len(args) > 1 and all(len(v) == 1 and isinstance(next(iter(v)), K) for v in args[:2]) and next(iter(args[1])).v - next(iter(args[0])).v <= 1:
            return  # there is only one possible outcome
        self.sites.add(getattr(node, "_sid", 0))
        self.counts["draw_sites"] = len(self.sites)
        self.count("draws_resolved")
        g = kwargs.get("generator")
        if not g:
            self.add(finding(it, "draw-without-generator", node, f"{q} may be reached without the generator of the problem"))
            return
        for a in g:
            gid = dict(a.view).get("gid") if isinstance(a, Abs) and a.kind == "gen" else None
            if gid is None or gid not in self.allowed:
                self.add(finding(it, "foreign-generator", node, f"{q} may draw from a generator other than the one of the problem ({a if isinstance(a, K) else getattr(a, 'kind', type(a).__name__)})"))


def is_remote(ci):
    for d in getattr(ci.node, "decorator_list", ()):
        d = d.func if isinstance(d, ast.Call) else d
        if (d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")) == "remote":
            return True
    return False


def i_allow(it, a, kw, n):
    """_allow(g): g is the generator everything has to use."""
    for x in a[0]:
        gid = dict(x.view).get("gid") if isinstance(x, Abs) and x.kind == "gen" else None
        if gid is None:
            it.obs.add(finding(it, "no-generator", n, "a problem constructed with a seed has no generator of its own"))
        else:
            it.obs.allowed.add(gid)
            it.obs.count("generators_tracked")
    return NONE


class Taint:
    """rng: the value was computed from a draw of the problem's generator."""

    name = "rng"

    def op(self, it, name, args, kwargs, node):
        if name.split(".")[-1] in DRAWS:
            g = kwargs.get("generator")
            ok = bool(g) and all(isinstance(a, Abs) and dict(a.view).get("gid") in it.obs.allowed for a in g)
            return ({"rng": frozenset([True])}, {"rng": True}) if ok else None
        for v in args:
            if v and all(it.facts(a).get("rng") for a in v):
                return {"rng": frozenset([True])}, {"rng": True}
        return None


def i_seed(it, a, kw, n):
    return frozenset([Abs("int", frozenset(), False, frozenset([("own_seed", True)]))])


def i_reseeded(it, a, kw, n):
    it.obs.count("worker_obligations")
    if not it.obs.reseeded:
        it.obs.add(finding(it, "worker-not-seeded", n, "the copy of the problem in a worker does not get a seed of its own"))
    return NONE


def ray(it, t, q, args, kwargs, node):
    if q == "ray.cls.options" and t.recv is not None:
        return frozenset([t.recv])
    if q == "ray.cls.remote":
        it.obs.count("worker_obligations")
        seeds = [v for v in args if len(v) == 1 and isinstance(next(iter(v)), Ref) and it.st.heap[next(iter(v)).oid].kind in ("tuple", "list")]
        if not seeds:
            it.obs.count("workers_without_visible_seeds")
        for v in seeds:
            for w in it.st.heap[next(iter(v)).oid].all_elems():
                if not it.facts(w).get("rng"):
                    it.obs.add(finding(it, "worker-seed", node, "a worker may receive a seed which is not drawn from the generator of the problem"))
    return None


SEEDED = """
from evotorch import Problem, SolutionBatch
def fitness(x):
    return _input("fit")
prob = Problem({sense}, fitness, solution_length=5, initial_bounds=(-1.0, 1.0){bounds}, dtype={dtype}, seed=_int(), vectorized=True{extra})
_allow(prob.generator)
"""


def seeded(sense='"min"', bounds="", dtype='"float32"', extra=""):
    return SEEDED.format(sense=sense, bounds=bounds, dtype=dtype, extra=extra)


OPERATOR = """
from evotorch.operators import {cls}
op = {ctor}
b = {batch}
b.set_evals(_input("e"))
while _unk():
    c = op(b)
"""
ALGOS = {
    "SNES": "SNES(prob, stdev_init=1.0, popsize=10)",
    "SNES adaptive": "SNES(prob, radius_init=1.0, popsize=10, num_interactions=100, popsize_max=50)",
    "XNES": "XNES(prob, stdev_init=1.0, popsize=10)",
    "CEM": "CEM(prob, popsize=10, parenthood_ratio=0.5, stdev_init=1.0)",
    "PGPE": "PGPE(prob, popsize=10, center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=1.0)",
    "PGPE non-symmetric": "PGPE(prob, popsize=10, center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=1.0, symmetric=False)",
    "CMAES": "CMAES(prob, stdev_init=1.0, popsize=10)",
    "CMAES separable": "CMAES(prob, stdev_init=1.0, popsize=10, separable=True)",
    "GeneticAlgorithm": "GeneticAlgorithm(prob, operators=[OnePointCrossOver(prob, tournament_size=4), GaussianMutation(prob, stdev=0.1)], popsize=10)",
    "GeneticAlgorithm non-elitist": "GeneticAlgorithm(prob, operators=[OnePointCrossOver(prob, tournament_size=4), GaussianMutation(prob, stdev=0.1)], popsize=10, elitist=False)",
    "SteadyStateGA": "ssga()",
    "Cosyne": "Cosyne(prob, popsize=10, tournament_size=4, mutation_stdev=0.1, mutation_probability=0.5)",
    "Cosyne sbx": "Cosyne(prob, popsize=10, tournament_size=4, mutation_stdev=0.1, permute_all=True, num_elites=2, eta=20.0)",
    "MAPElites": 'MAPElites(prob, operators=[GaussianMutation(prob, stdev=0.1)], feature_grid=_input("grid"))',
    "PyCMAES": "PyCMAES(prob, stdev_init=1.0, popsize=10)",
}
ALGO = """
from evotorch.algorithms import SNES, XNES, CEM, PGPE, CMAES, GeneticAlgorithm, SteadyStateGA, Cosyne, MAPElites
from evotorch.algorithms.pycmaes import PyCMAES
from evotorch.operators import OnePointCrossOver, GaussianMutation
def ssga():
    s = SteadyStateGA(prob, popsize=10)
    s.use(OnePointCrossOver(prob, tournament_size=4))
    s.use(GaussianMutation(prob, stdev=0.1))
    return s
s = {ctor}
while _unk():
    s.step()
"""
DISTS = {
    "SeparableGaussian": 'SeparableGaussian({"mu": _input("mu"), "sigma": _input("sigma")})',
    "SymmetricSeparableGaussian": 'SymmetricSeparableGaussian({"mu": _input("mu"), "sigma": _input("sigma")})',
    "ExpSeparableGaussian": 'ExpSeparableGaussian({"mu": _input("mu"), "sigma": _input("sigma")})',
    "ExpGaussian": 'ExpGaussian({"mu": _input("mu"), "sigma": _input("sigma")})',
}
DIST = """
from evotorch.distributions import SeparableGaussian, SymmetricSeparableGaussian, ExpSeparableGaussian, ExpGaussian
d = CTOR
x = d.sample(10, generator=GEN)
d.sample(out=_input("out"), generator=GEN)
"""
MAKERS = """
prob.generate_values(10)
prob.generate_batch(10)
prob.generate_batch(10, empty=True)
prob.generate_batch(10, center=_input("c"), stdev=_num())
prob.generate_batch(10, center=_input("c"), stdev=_num(), symmetric=True)
prob.make_uniform(5)
prob.make_uniform(num_solutions=5, lb=_num(), ub=_num())
prob.make_uniform(out=_input("o"))
prob.make_gaussian(6)
prob.make_gaussian(num_solutions=6, center=_num(), stdev=_num(), symmetric=True)
prob.make_gaussian(out=_input("o"))
prob.make_randint(5, n=10)
prob.make_randint(tuple(), n=_int())
prob.make_uniform_shaped_like(_input("t"))
prob.make_gaussian_shaped_like(_input("t"))
SolutionBatch(prob, 10)
"""
FUNCS = """
from evotorch.tools import make_uniform, make_gaussian, make_randint
g = prob.generator
for gen in [g, prob]:
    make_uniform(5, generator=gen)
    make_uniform(5, lb=_num(), ub=_num(), dtype="int64", generator=gen)
    make_gaussian(6, generator=gen)
    make_gaussian(6, center=_num(), stdev=_num(), symmetric=True, generator=gen)
    make_randint(5, n=10, generator=gen)
"""
BAG = """
from evotorch.tools.structures import CBag
b = CBag(max_length=10, generator=prob)
b.push_(_input("x"))
b.pop_()
"""
ACTORS = """
prob.evaluate(prob.generate_batch(10))
"""
WORKER = """
from evotorch.core import EvaluationActor
e = EvaluationActor(prob, _int(), (_int(), _int(), _int(), _seed()), dict())
_reseeded()
"""
GYM = """
from evotorch.neuroevolution import {cls}
def make():
    from torch import nn
    return nn.Linear(3, 2)
prob = {cls}(_fn(), {net}, action_noise_stdev=_num(){extra})
prob.manual_seed(_int())
_allow(prob.generator)
prob.evaluate(prob.generate_batch(4))
"""
NE = """
from evotorch.neuroevolution import NEProblem
def make():
    from torch import nn
    return nn.Linear(3, 2)
prob = NEProblem("max", make, _fn(), seed=_int())
_allow(prob.generator)
prob.evaluate(prob.generate_batch(4))
"""
POSITIVE = """
import random
import torch
torch.rand(4)
torch.randn(4, generator=torch.Generator())
random.random()
torch.manual_seed(1)
"""
INTR = {"_allow": i_allow, "_seed": i_seed, "_reseeded": i_reseeded, "@ray": ray}


SCANNED = ("core", "operators", "algorithms", "neuroevolution.gymne", "neuroevolution.vecgymne", "neuroevolution.neproblem", "neuroevolution.baseneproblem", "tools.tensormaker", "tools.misc")


def scan(ctx, prog):
    """Random calls that lack a generator argument, or use a global generator, in code bound to a problem."""
    n = 0
    for m in prog.modules.values():
        short = m.name.split(".", 1)[-1]
        if not any(short == x or short.startswith(x + ".") for x in SCANNED):
            continue
        remote = set()
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef) and is_remote(type("C", (), {"node": c})):
                remote |= {x._sid for x in ast.walk(c)}
        owner = {}
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.ClassDef)):
                for x in ast.walk(f):
                    owner.setdefault(x._sid, []).append(f.name)
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.Call) or c._sid in remote:
                continue
            q = external_name(m, c.func)
            if q is None and isinstance(c.func, ast.Attribute) and c.func.attr in DRAWS and c.func.attr.endswith("_"):
                q = "tensor." + c.func.attr
            k = classify(q) if q else None
            if k is None:
                continue
            n += 1
            if k == "draw" and (any(x.arg in (None, "generator") for x in c.keywords)):
                continue
            if k == "draw" and len(c.args) > 1 and all(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in c.args[:2]) and c.args[1].value - c.args[0].value <= 1:
                continue
            if k == "global" and q.split(".")[-1] in ("RandomState", "default_rng", "Random") and c.args:
                continue
            fn = ".".join([m.name] + owner.get(c._sid, []))
            ctx.add(Finding(rule="random-call-without-generator", func=fn, construct=construct(c), where=where(c), detail=f"{q} is called without any generator", path=[]))
    ctx.counts["random_call_sites_scanned"] = n


def external_name(m, f):
    """Dotted name of an imported function, or None."""
    parts = []
    while isinstance(f, ast.Attribute):
        parts.append(f.attr)
        f = f.value
    if not isinstance(f, ast.Name):
        return None
    for kind, v in m.bindings.get(f.id, ()):
        if kind == "import":
            return ".".join([v] + parts[::-1])
        if kind == "from" and not str(v[0]).startswith("evotorch"):
            return ".".join([v[0], v[1]] + parts[::-1])
    return None


def run(ctx):
    scan(ctx, program())
    obs = RngObs
    tasks = []
    for name, cls, ctor, multi, obj in REAL_OPERATORS:
        s = '["min", "max"]' if multi else '"min"'
        batch = "prob.generate_batch(10)"
        src = seeded(s, ", bounds=(-2.0, 2.0)")
        if obj:
            src = src.replace('dtype="float32"', "dtype=object").replace("solution_length=5, initial_bounds=(-1.0, 1.0), bounds=(-2.0, 2.0), ", "")
            batch = "SolutionBatch(prob, 10, empty=True)"
        tasks.append(Task(f"operator {name}", src + OPERATOR.format(cls=cls, ctor=ctor, batch=batch), obs=obs, intr=INTR, max_recur=1 if obj else None))
    for name, ctor in ALGOS.items():
        bounds = "" if name.split()[0] in ("SNES", "XNES", "CEM", "PGPE", "CMAES") else ", bounds=(-2.0, 2.0)"
        extra = ", eval_data_length=2" if name == "MAPElites" else ""
        tasks.append(Task(f"algorithm {name}", seeded(bounds=bounds, extra=extra) + ALGO.format(ctor=ctor), obs=obs, intr=INTR, domains=(lambda: [Taint()]) if name == "PyCMAES" else None))
        if bounds == "" and "CMAES" not in name:
            tasks.append(Task(f"algorithm {name}, distributed", seeded(extra=", num_actors=2") + ALGO.format(ctor=ctor[:-1] + ", distributed=True)"), obs=obs, intr=INTR, domains=lambda: [Taint()]))
    for name, ctor in DISTS.items():
        for g in ("prob", "prob.generator"):
            tasks.append(Task(f"distribution {name}, {g}", seeded() + DIST.replace("CTOR", ctor).replace("GEN", g), obs=obs, intr=INTR))
    for dt in ('"float32"', '"int64"'):
        tasks.append(Task(f"tensors made by a problem of {dt}", seeded(dtype=dt) + MAKERS, obs=obs, intr=INTR))
    tasks.append(Task("tensor making functions", seeded() + FUNCS, obs=obs, intr=INTR))
    tasks.append(Task("bags", seeded() + BAG, obs=obs, intr=INTR))
    tasks.append(Task("workers", seeded(extra=", num_actors=4") + ACTORS, obs=obs, intr=INTR, domains=lambda: [Taint()]))
    tasks.append(Task("a worker", seeded(extra=", num_actors=4") + WORKER, obs=obs, intr=INTR))
    for extra in ("", ", observation_normalization=True"):
        tasks.append(Task("gym problem" + extra, GYM.format(cls="GymNE", net="make", extra=extra), obs=obs, intr=INTR))
        tasks.append(Task("vectorized gym problem" + extra, GYM.format(cls="VecGymNE", net="_fn()", extra=extra), obs=obs, intr=INTR))
    tasks.append(Task("neuroevolution problem", NE, obs=obs, intr=INTR))
    ctx.run(tasks)
    ctx.need("random draws resolved", ctx.counts.get("draws_resolved", 0), 60)
    r = run_task(Task("positive-example", seeded() + POSITIVE, obs=obs, intr=INTR))
    kinds = {f["rule"] for f in r["found"]}
    ctx.counts["positive_examples_matched"] = len(r["found"])
    if len(kinds) < 3 or len(r["found"]) < 4:
        ctx.errors.append(f"positive example: only {kinds} reported; {r['error']}")
