"""P13: steps and evaluations run their hooks in order, once, and refresh the status."""
from ..base import Obs, Task, run_task
from ..events import INTR

EXPLANATION = (
    "event-sequence analysis: hooks, steps and evaluations of small user programs emit events; the set of all event sequences possible on any path through the sources is compared with the "
    "specified order; step counters and status items are followed as constants through every step"
)

STEPS = """
from evotorch import Problem
from evotorch.algorithms import SearchAlgorithm

prob = Problem("min", _fn(), solution_length=5, initial_bounds=(-1.0, 1.0), seed=1)


class Alg(SearchAlgorithm):
    def __init__(self, problem):
        SearchAlgorithm.__init__(self, problem, x=self._get_x, w=self._get_w)
        self._n = 0

    def _step(self):
        _event("step")
        _const("step counter within the step", self.step_count, k)
        self._n += 1
        prob.evaluate(batch)

    def _get_x(self):
        return self._n

    def _get_w(self):
        return self._n


k = 0
alg = Alg(prob)
_at(alg.step)
batch = prob.generate_batch(4)
prob.after_eval_hook.append(lambda b: {{"p": k + 1}})


def before1():
    _event("before1")
    _const("status item in the before-step hooks", alg.status.get("x"), k)
    _const("step counter in the before-step hooks", alg.step_count, k)


def before2():
    _event("before2")


def after1():
    _event("after1")
    _const("step counter in the after-step hooks", alg.step_count, k + 1)
    _const("status item in the after-step hooks", alg.status.get("x"), k + 1)
    _const("iteration number in the status in the after-step hooks", alg.status.get("iter"), k + 1)
    if k < 1:
        return {{"y": k + 1, "z": 0}}
    return {{"z": 0}}


def after2():
    _event("after2")
    _const("item of an after-evaluation hook in the after-step hooks", alg.status.get("p"), k + 1)
    return {{"u": k + 1, "z": k + 1}}


def log(status):
    _event("log")
    _const("logged iteration number", status.get("iter"), k + 1)
    _const("logged status item", status.get("x"), k + 1)
    _const("logged status item, read by nobody before", status.get("w"), k + 1)
    _const("logged item of an after-step hook", status.get("z"), k + 1)
    _const("logged item of the last after-step hook", status.get("u"), k + 1)
    _const("logged item of an after-evaluation hook", status.get("p"), k + 1)


def log2(status):
    _event("log2")


def end(status):
    _event("end")
    _const("iteration number given to the end-of-run hooks", status.get("iter"), total)


def end2(status):
    _event("end2")


alg.before_step_hook.append(before1)
alg.before_step_hook.append(before2)
alg.after_step_hook.append(after1)
alg.after_step_hook.append(after2)
{log}
alg.end_of_run_hook.append(end)
alg.end_of_run_hook.append(end2)
_const("step counter before any step", alg.step_count, 0)
_const("status item before any step", alg.status.get("x"), 0)
alg.step()
_sequence("first step", "before1 before2 step after1 after2 {logs}")
_const("step counter after a step", alg.step_count, 1)
_const("status item after a step", alg.status.get("x"), 1)
_const("item of an after-step hook in the status", alg.status.get("y"), 1)
_const("iteration number in the status", alg.status.get("iter"), 1)
_forget()
k = 1
alg.step()
_sequence("second step", "before1 before2 step after1 after2 {logs}")
_const("step counter after two steps", alg.step_count, 2)
_const("status item after two steps", alg.status.get("x"), 2)
_const("item of an after-step hook of the first step", alg.status.get("y"), None)
_const("item of an after-step hook after two steps", alg.status.get("z"), 2)
_const("iteration number after two steps", alg.status.get("iter"), 2)
_forget()
"""

RUN = """
from evotorch import Problem
from evotorch.algorithms import SearchAlgorithm

prob = Problem("min", _fn(), solution_length=5, initial_bounds=(-1.0, 1.0), seed=1)


class Alg(SearchAlgorithm):
    def __init__(self, problem):
        SearchAlgorithm.__init__(self, problem)

    def _step(self):
        _event("step")


alg = Alg(prob)
alg.before_step_hook.append(lambda: _event("before"))
alg.after_step_hook.append(lambda: _event("after"))
alg.log_hook.append(lambda status: _event("log"))
alg.end_of_run_hook.append(lambda status: _event("end"))
_at(alg.run)
alg.run(3)
_sequence("run of 3 generations", "(before step after log ){{3}}end ")
_const("step counter after a run of 3 generations", alg.step_count, 3)
_const("iteration number after a run of 3 generations", alg.status.get("iter"), 3)
_forget()
alg.run(2, reset_first_step_datetime=False)
_sequence("second run, of 2 generations", "(before step after log ){{2}}end ")
_const("step counter after runs of 3 and 2 generations", alg.step_count, 5)
_forget()
alg.run(0)
_sequence("run of 0 generations", "end ")
_forget()
alg.run(1)
_sequence("run of 1 generation", "before step after log end ")
_forget()
n = _int()
while _unk():
    alg.step()
_event("x")
"""

EVAL = """
from evotorch import Problem


class P(Problem):
    def __init__(self, **kwargs):
        super().__init__({sense}, solution_length=5, initial_bounds=(-1.0, 1.0), seed=1, **kwargs)

    def _evaluate_batch(self, batch):
        _event("evaluate")
        batch.set_evals(_input("e"))


prob = P({extra})
k = 1


def before1(batch):
    _event("before1")


def before2(batch):
    _event("before2")


def after1(batch):
    _event("after1")
    {best}
    if k == 1:
        return {{"y": k, "z": k}}
    return {{"z": k}}


def after2(batch):
    _event("after2")
    return {{"u": k}}


prob.before_eval_hook.append(before1)
prob.before_eval_hook.append(before2)
prob.after_eval_hook.append(after1)
prob.after_eval_hook.append(after2)
b = prob.generate_batch(8)
_at(prob.evaluate)
_sequence("generating a batch", "")
prob.evaluate({arg})
_sequence("first evaluation", "before1 before2 evaluate after1 after2 ")
_const("item of an after-evaluation hook", prob.status.get("z"), 1)
_const("item of the last after-evaluation hook", prob.status.get("u"), 1)
_const("item of an after-evaluation hook given once", "y" in prob.status, True)
_forget()
k = 2
prob.evaluate({arg})
_sequence("second evaluation", "before1 before2 evaluate after1 after2 ")
_const("item of an after-evaluation hook after two evaluations", prob.status.get("z"), 2)
_const("item of an after-evaluation hook of the first evaluation", "y" in prob.status, False)
_forget()
"""

GRAD = """
from evotorch import Problem
from evotorch.algorithms import {cls}
{imports}


class P(Problem):
    def __init__(self, **kwargs):
        super().__init__("min", solution_length=5, initial_bounds=(-1.0, 1.0), seed=1, **kwargs)

    def _evaluate_batch(self, batch):
        _event("evaluate")
        batch.set_evals(_input("e"){data})


prob = P({extra})
prob.before_eval_hook.append(lambda batch: _event("eb"))
prob.after_eval_hook.append(lambda batch: _event("ea"))
alg = {ctor}
_at(alg._step)
alg.before_step_hook.append(lambda: _event("before"))
alg.after_step_hook.append(lambda: _event("after"))
alg.log_hook.append(lambda status: _event("log"))
alg.end_of_run_hook.append(lambda status: _event("end"))
_sequence("making {cls}", "(eb evaluate ea )*")
_forget()
alg.step()
_sequence("first step of {cls}", "before (eb evaluate ea )+after log ")
_const("step counter of {cls} after one step", alg.step_count, 1)
_forget()
alg.step()
_sequence("second step of {cls}", "before (eb evaluate ea )+after log ")
_const("step counter of {cls} after two steps", alg.step_count, 2)
_forget()
alg.run(2)
_sequence("run of {cls}", "(before (eb evaluate ea )+after log ){{2}}end ")
_const("step counter of {cls} after two steps and a run of two", alg.step_count, 4)
"""

HOOK = """
from evotorch import Problem
from evotorch.distributions import {cls}


class P(Problem):
    def __init__(self, **kwargs):
        super().__init__("min", solution_length=5, initial_bounds=(-1.0, 1.0), seed=1, **kwargs)

    def _evaluate_batch(self, batch):
        _event("evaluate")
        batch.set_evals(_input("e"))


prob = P({actors})
k = 1


def before():
    _event("before")


def after1(result):
    _event("after1")
    if k == 1:
        return {{"y": k, "z": k}}
    return {{"z": k}}


def after2(result):
    _event("after2")
    return {{"u": k}}


prob.before_grad_hook.append(before)
prob.after_grad_hook.append(after1)
prob.after_grad_hook.append(after2)
dist = {ctor}
_at(prob.sample_and_compute_gradients)
prob.sample_and_compute_gradients(dist, 10, ranking_method="centered"{extra})
_sequence("first gradient computation", "before (evaluate )+after1 after2 ")
_const("item of an after-gradient hook", prob.status.get("z"), 1)
_const("item of the last after-gradient hook", prob.status.get("u"), 1)
_const("item of an after-gradient hook given once", "y" in prob.status, True)
_forget()
k = 2
prob.sample_and_compute_gradients(dist, 10, ranking_method="centered"{extra})
_sequence("second gradient computation", "before (evaluate )+after1 after2 ")
_const("item of an after-gradient hook after two computations", prob.status.get("z"), 2)
_const("item of an after-gradient hook of the first computation", "y" in prob.status, False)
"""

DISTS = [
    ("SeparableGaussian", 'SeparableGaussian({"mu": _input("mu"), "sigma": _input("sigma")})'),
    ("SymmetricSeparableGaussian", 'SymmetricSeparableGaussian({"mu": _input("mu"), "sigma": _input("sigma")})'),
    ("ExpSeparableGaussian", 'ExpSeparableGaussian({"mu": _input("mu"), "sigma": _input("sigma")})'),
]

# class, constructor, and whether evaluations may happen without the problem's own hooks
ALGS = [
    ("SNES", "SNES(prob, stdev_init=1.0, popsize=10)"),
    ("SNES", "SNES(prob, stdev_init=1.0, popsize=10, num_interactions=100, popsize_max=40)"),
    ("SNES", "SNES(prob, stdev_init=1.0, popsize=10, distributed=True)", True),
    ("PGPE", "PGPE(prob, popsize=10, center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=1.0)"),
    ("XNES", "XNES(prob, stdev_init=1.0, popsize=10)"),
    ("CEM", "CEM(prob, popsize=10, parenthood_ratio=0.5, stdev_init=1.0)"),
    ("CMAES", "CMAES(prob, stdev_init=1.0, popsize=10)"),
    ("GeneticAlgorithm", "GeneticAlgorithm(prob, operators=[GaussianMutation(prob, stdev=0.1)], popsize=10)"),
    ("GeneticAlgorithm", "GeneticAlgorithm(prob, operators=[OnePointCrossOver(prob, tournament_size=4), GaussianMutation(prob, stdev=0.1)], popsize=10, elitist=False)"),
    ("GeneticAlgorithm", "GeneticAlgorithm(prob, operators=[GaussianMutation(prob, stdev=0.1)], popsize=10, re_evaluate=False)"),
    ("GeneticAlgorithm", "GeneticAlgorithm(prob, operators=[GaussianMutation(prob, stdev=0.1)], popsize=10, re_evaluate=True, re_evaluate_parents_first=True)"),
    ("SteadyStateGA", "SteadyStateGA(prob, popsize=10, operators=[OnePointCrossOver(prob, tournament_size=4), GaussianMutation(prob, stdev=0.1)])"),
    ("Cosyne", "Cosyne(prob, popsize=10, tournament_size=4, mutation_stdev=0.1)"),
    ("MAPElites", "MAPElites(prob, operators=[GaussianMutation(prob, stdev=0.1)], feature_grid=MAPElites.make_feature_grid([_num(), _num()], [_num(), _num()], num_bins=5, dtype='float32'))"),
    ("SNES", "IPOP(prob, SNES, {'stdev_init': 1.0, 'popsize': 10})"),
    ("SNES", "Restart(prob, SNES, {'stdev_init': 1.0, 'popsize': 10})"),
]

LIST = """
from evotorch.tools import Hook


def a(*args, **kwargs):
    _event("a")
    return {{"i": 1, "j": 1}}


def b(*args, **kwargs):
    _event("b")


def c(x, y=0):
    _event("c")
    _const("positional argument of a hooked function", x, 5)
    _const("keyword argument of a hooked function", y, 6)
    return {{"j": 2, "k": 2}}


def d(*args, **kwargs):
    _event("d")
    return [1, 2]


def e(*args, **kwargs):
    _event("e")
    return [3]


hook = Hook([a, b])
_at(hook.__call__)
hook.append(c)
_const("number of hooked functions", len(hook), 3)
r = hook(5, y=6)
_sequence("calling a hook", "a b c ")
_const("item of the first function", r.get("i"), 1)
_const("item given by two functions", r.get("j"), 2)
_const("item of the last function", r.get("k"), 2)
_forget()
r = hook.accumulate_dict(5, y=6)
_sequence("accumulating a dictionary", "a b c ")
_const("accumulated item given by two functions", r.get("j"), 2)
_const("accumulated item of the first function", r.get("i"), 1)
_forget()
hook.insert(0, b)
hook(5, y=6)
_sequence("calling a hook after an insertion at the front", "b a b c ")
_forget()
_const("no functions", len(Hook().accumulate_dict()), 0)
_const("no functions, sequence", len(Hook().accumulate_sequence()), 0)
_const("no functions, call", Hook()() is None, True)
_const("functions without results", len(Hook([b]).accumulate_dict()), 0)
_forget()
hook = Hook([d, b, e])
r = hook.accumulate_sequence()
_sequence("accumulating a sequence", "d b e ")
_const("length of the accumulated sequence", len(r), 3)
_const("first accumulated item", r[0], 1)
_const("last accumulated item", r[2], 3)
_forget()
hook = Hook([c], args=[5], kwargs={{"y": 6}})
hook()
_sequence("calling a hook that stores arguments", "c ")
"""

POSITIVE = """
from evotorch.algorithms import SearchAlgorithm
from evotorch import Problem
prob = Problem("min", _fn(), solution_length=5, initial_bounds=(-1.0, 1.0), seed=1)


class Alg(SearchAlgorithm):
    def _step(self):
        _event("step")

    def step(self):
        self.after_step_hook()
        if _unk():
            super().step()


alg = Alg(prob)
alg.after_step_hook.append(lambda: _event("after"))
alg.step()
_sequence("step", "step after ")
_const("count", alg.step_count, 1)
"""


def tasks():
    out = []
    for n, log, logs in (("logging", "alg.log_hook.append(log)\nalg.log_hook.append(log2)", "log log2 "), ("quiet", "", "")):
        out.append(("steps " + n, STEPS.format(log=log, logs=logs)))
    out.append(("run", RUN.format()))
    out.append(("lists", LIST.format()))
    for s in ("'min'", "'max'", "['min', 'max']"):
        for e, best in (("", ""), ("store_solution_stats=True", '_const("best solution in the status in the after-evaluation hooks", "best" in prob.status, True)'), ("store_solution_stats=False", "")):
            for arg in ("b", "b[2]"):
                out.append((f"evaluation {s} {e} {arg}", EVAL.format(sense=s, extra=e, best=best, arg=arg)))
        out.append((f"evaluation {s} with actors", EVAL.format(sense=s, extra="num_actors=2", best="", arg="b").replace("evaluate after1", "(evaluate )*after1")))
    for i, (cls, ctor, *rest) in enumerate(ALGS):
        imports = "\n".join(
            t
            for n, t in (
                ("Mutation", "from evotorch.operators import GaussianMutation, OnePointCrossOver"),
                ("IPOP", "from evotorch.algorithms.restarter.modify_restart import IPOP"),
                ("Restart(", "from evotorch.algorithms.restarter.restart import Restart"),
            )
            if n in ctor
        )
        me = cls == "MAPElites"
        src = GRAD.format(
            cls=cls,
            ctor=ctor,
            imports=imports,
            extra="eval_data_length=2" if me else "",
            data=", _input('d')" if me else "",
        )
        if rest:
            src = src.replace("(eb evaluate ea )+", "(evaluate |eb evaluate ea )+")
        out.append((f"steps of {cls} {i}", src))
    for cls, ctor in DISTS:
        for e in ("", ", with_stats=False"):
            out.append((f"gradients {cls} {e}", HOOK.format(cls=cls, ctor=ctor, extra=e, actors="")))
        out.append((f"gradients {cls} with actors", HOOK.format(cls=cls, ctor=ctor, extra="", actors="num_actors=2").replace("(evaluate )+", "(evaluate )*")))
    return [Task(n, s, obs=Obs, intr=INTR) for n, s in out]


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=Obs, intr=INTR))
    got = sorted(f["rule"] for f in pos["found"])
    ctx.counts["positive_examples_matched"] = len(got)
    if got != ["event-order", "wrong-value"]:
        ctx.errors.append(f"positive example: findings {got}; {pos['error']}")
    ctx.run(tasks())
    ctx.need("sequences decided", ctx.counts.get("sequences_decided", 0), 20)
    ctx.need("values decided", ctx.counts.get("values_decided", 0), 30)
