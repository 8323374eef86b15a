"""P02: distributions and optimizers leave inputs and parameters intact."""
from ..base import FreezeObs, Task, run_task

EXPLANATION = (
    "alias and effect analysis: for every distribution class and optimizer, all public operations are interpreted abstractly on a frozen "
    "distribution and frozen arguments; no reached in-place write, item or attribute assignment may target anything reachable from them"
)

DISTS = {
    "SeparableGaussian": [
        '{"mu": _input("mu"), "sigma": _input("sigma")}',
        '{"mu": _input("mu"), "sigma": _input("sigma"), "divide_mu_grad_by": "num_solutions", "divide_sigma_grad_by": "num_directions"}',
        '{"mu": _input("mu"), "sigma": _input("sigma"), "divide_mu_grad_by": "total_weight", "divide_sigma_grad_by": "weight_stdev"}',
        '{"mu": _input("mu"), "sigma": _input("sigma"), "parenthood_ratio": 0.5}',
    ],
    "SymmetricSeparableGaussian": [
        '{"mu": _input("mu"), "sigma": _input("sigma")}',
        '{"mu": _input("mu"), "sigma": _input("sigma"), "divide_mu_grad_by": "num_directions", "divide_sigma_grad_by": "num_directions"}',
        '{"mu": _input("mu"), "sigma": _input("sigma"), "parenthood_ratio": 0.5}',
    ],
    "ExpSeparableGaussian": ['{"mu": _input("mu"), "sigma": _input("sigma")}'],
    "ExpGaussian": [
        '{"mu": _input("mu"), "sigma": _input("sigma")}',
        '{"mu": _input("mu"), "sigma": _input("sigma"), "sigma_inv": _input("sinv")}',
    ],
}
RANKS = ['"centered"', '"linear"', '"nes"', '"normalized"', '"raw"', "None"]
LR = {
    "SeparableGaussian": '{"mu": _num(), "sigma": _num()}',
    "ExpGaussian": '{"mu": _num(), "sigma": _num()}',
}

DIST = """
from evotorch.distributions import {cls}
params = {params}
_freeze("the parameters given to the distribution", params)
d = {cls}(params{extra})
_freeze("the parameters given to the distribution", params)
_freeze("the distribution", d)
while _unk():
    x = d.sample(_int())
    d.sample(out=_input("out"), generator=_any())
    samples = _input("samples")
    fit = _input("fitnesses")
    _freeze("the samples", samples, x)
    _freeze("the fitnesses", fit)
    g = d.compute_gradients(samples, fit, objective_sense={sense}, ranking_method={rank})
    _freeze("the gradients", g)
    lr = {lr}
    _freeze("the learning rates", lr)
    d2 = d.update_parameters(g, learning_rates=lr)
    _freeze("the updated distribution", d2)
    d3 = d.modified_copy(mu=_input("mu2"))
    d4 = d.clone()
    d4.mu = _input("mu3")
    d5 = d.to(_any())
    _freeze("the distribution", d3, d5)
    d = d2
"""
TAIL = """
    e = d.relative_entropy(d2)
"""
SETTER = """
from evotorch.distributions import {cls}
params = {params}
_freeze("the parameters given to the distribution", params)
d = {cls}(params)
d.mu = _input("mu2")
d.sigma = _input("sigma2")
e = d.modified_copy(sigma=_input("sigma3"))
_freeze("the distribution", d)
e.mu = _input("mu3")
e.sigma = _input("sigma4")
f = d.clone()
f.mu = _input("mu3")
f.sigma = _input("sigma4")
"""
OPT = """
from evotorch.distributions import {cls}
from evotorch.optimizers import ClipUp, Adam, SGD
params = {params}
d = {cls}(params)
opts = {{"mu": {opt}}}
lr = {lr}
while _unk():
    g = d.compute_gradients(_input("samples"), _input("fitnesses"), objective_sense="max", ranking_method="centered")
    _freeze("the distribution", d)
    _freeze("the gradients", g)
    _freeze("the learning rates", lr)
    d = d.update_parameters(g, learning_rates=lr, optimizers=opts)
"""
ASCENT = """
from evotorch.optimizers import ClipUp, Adam, SGD
o = {opt}
while _unk():
    g = _input("grad")
    _freeze("the gradient given to the optimizer", g)
    r = o.ascent(g)
    _freeze("the step returned earlier", r)
    c = o.contained_optimizer
"""
FUNC = """
from evotorch.distributions import {cls}, make_functional_sampler, make_functional_grad_estimator
fixed = {{}}
req = ["mu", "sigma"]
_freeze("an argument", fixed, req, _input("mu"), _input("sigma"), _input("samples"), _input("fitnesses"))
smp = make_functional_sampler({cls}, required_parameters=req, fixed_parameters=fixed)
est = make_functional_grad_estimator({cls}, required_parameters=req, fixed_parameters=fixed, objective_sense="min")
est2 = make_functional_grad_estimator({cls}, function=_fn(), required_parameters=req, objective_sense="min", return_samples=True, return_fitnesses=True)
_freeze("the functional sampler or estimator", smp, est, est2)
while _unk():
    x = smp(_int(), mu=_input("mu"), sigma=_input("sigma"))
    y = smp(_int(), _input("mu"), _input("sigma"))
    g = est(_input("samples"), _input("fitnesses"), mu=_input("mu"), sigma=_input("sigma"), ranking_method={rank})
    h = est2(_int(), mu=_input("mu"), sigma=_input("sigma"))
"""
OPTS = {
    "clipup": 'ClipUp(solution_length=5, dtype="float32", stepsize=_num())',
    "clipup-ms": 'ClipUp(solution_length=5, dtype="float32", stepsize=_num(), momentum=_num(), max_speed=_num())',
    "adam": 'Adam(solution_length=5, dtype="float32", stepsize=_num(), beta1=_num(), beta2=_num(), epsilon=_num())',
    "sgd": 'SGD(solution_length=5, dtype="float32", stepsize=_num(), momentum=_num())',
}

POSITIVE = """
params = {"mu": _input("mu")}
_freeze("params", params)
def init(p):
    if "sigma" not in p:
        p["sigma"] = p["mu"]
init(params)
"""


def run(ctx):
    obs = lambda: FreezeObs("write-to-argument", module_state=True)
    tasks = []
    for cls, plist in DISTS.items():
        for i, ps in enumerate(plist):
            for j, rk in enumerate(RANKS):
                lr = LR.get(cls, LR["SeparableGaussian"])
                extra = ', dtype="float64", device="cpu"' if j % 2 else ""
                src = DIST.format(cls=cls, params=ps, extra=extra, sense='"min"' if j % 2 else '"max"', rank=rk, lr=lr)
                if cls != "ExpGaussian":
                    src += TAIL
                tasks.append(Task(f"{cls}-{i}-{rk.strip(chr(34))}", src, obs=obs))
            tasks.append(Task(f"{cls}-setters-{i}", SETTER.format(cls=cls, params=ps), obs=obs))
        ops = ("clipup", "adam", "sgd") if cls != "ExpGaussian" else ()
        for o in ops:
            tasks.append(Task(f"{cls}-{o}", OPT.format(cls=cls, params=plist[0], opt=OPTS[o], lr='{"sigma": _num()}'), obs=obs))
        for rk in RANKS[:5]:
            tasks.append(Task(f"functional-{cls}-{rk.strip(chr(34))}", FUNC.format(cls=cls, rank=rk), obs=obs))
    for o, s in OPTS.items():
        tasks.append(Task(f"ascent-{o}", ASCENT.format(opt=s), obs=obs))
    ctx.run(tasks)
    ctx.need("distribution_functions_reached", len([f for f in ctx.functions if f.startswith("evotorch.distributions.")]), 35)
    ctx.need("optimizer_functions_reached", len([f for f in ctx.functions if f.startswith("evotorch.optimizers.")]), 6)
    r = run_task(Task("positive-example", POSITIVE, obs=obs))
    ctx.counts["positive_examples_matched"] = len(r["found"])
    if not r["found"]:
        ctx.errors.append("the positive example was not reported")
