"""P10: search moves toward better solutions under either objective sense."""
from .. import rays
from ..base import Finding, Obs, Task, kconst, run_task
from ..direction import Direction
from ..polarity import Polarity, known
from ..vals import NONE

EXPLANATION = (
    "sign analysis of the search step: solutions, their deviations from the center, the weights derived from the fitnesses (and which solutions these favour) and sums of weighted deviations are followed "
    "through gradient estimation, optimizers and parameter updates; the center must move towards the better solutions and the spread must grow in the directions in which better solutions lie far away, "
    "for every distribution, ranking method, optimizer, algorithm and objective sense"
)


def i_leads(it, a, kw, n):
    """_leads(label, value, fact, expected)"""
    label, key, want = kconst(a[0]), kconst(a[2]), kconst(a[3])
    got = known(it, a[1], key, True)
    got = {z for z in got if z[0] != "="} if got else None
    if not got:
        it.obs.count("obligations_undecided")
        it.obs.count("undecided: " + label)
        return NONE
    it.obs.count("obligations_decided")
    if any(z != want for z in got):
        it.obs.add(Finding(rule="wrong-direction", func=label, construct=label, where="", detail=f"{label}: on some path the step leads away from the better solutions ({key}: {'/'.join(sorted(got))})", path=[]))
    return NONE


INTR = {"_leads": i_leads, **rays.INTR}
RANKS = ("centered", "linear", "nes", "normalized", "raw")
OTHER = {"+": "-", "-": "+"}
SENSES = (("max", "+"), ("min", "-"))

DIST = """
from evotorch.distributions import {cls}
d = {cls}({{"mu": _input("mu", role="mu"), "sigma": _input("sigma", role="sigma", sgn="+"){extra}}})
g = d.compute_gradients(_input("x", smp="+"), _input("f", pol="{pol}0"), objective_sense="{sense}", ranking_method={rank})
_leads("{cls} ({what}), gradient of the center", g["{gmu}"], "to", "+c")
_leads("{cls} ({what}), gradient of the spread", g["{gsigma}"], "to", "+s")
u = d.update_parameters(g, learning_rates={{"mu": 0.1, "sigma": 0.1}})
_leads("{cls} ({what}), new center", u.mu, "moved", "+c")
_leads("{cls} ({what}), new spread", u.sigma, "moved", "+s")
"""
OPT = """
from evotorch.distributions import SeparableGaussian
from evotorch.optimizers import ClipUp, Adam, SGD
d = SeparableGaussian({{"mu": _input("mu", role="mu"), "sigma": _input("sigma", role="sigma", sgn="+")}})
o = {opt}
g = d.compute_gradients(_input("x", smp="+"), _input("f", pol="{pol}0"), objective_sense="{sense}", ranking_method="centered")
_leads("{name}, step", o.ascent(g["mu"]), "to", "+c")
u = d.update_parameters(g, learning_rates={{"sigma": 0.1}}, optimizers={{"mu": {opt}}})
_leads("center after an update with {name}", u.mu, "moved", "+c")
"""
OPTS = {
    "ClipUp": 'ClipUp(solution_length=5, dtype="float32", stepsize=0.1, max_speed=0.2)',
    "ClipUp (momentum)": 'ClipUp(solution_length=5, dtype="float32", stepsize=0.1, momentum=0.9)',
    "Adam": 'Adam(solution_length=5, dtype="float32", stepsize=0.1)',
    "SGD": 'SGD(solution_length=5, dtype="float32", stepsize=0.1, momentum=0.9)',
}
FOPT = """
from evotorch.algorithms.functional import {fn}, {fn}_ask, {fn}_tell
s = {fn}(center_init=_input("mu", role="mu", ndim=1, dtype="float32"), center_learning_rate=0.1{kw})
t = {fn}_tell(s, follow_grad=_input("g", to="+c", ndim=1, dtype="float32"))
_leads("functional {fn}", {fn}_ask(t), "moved", "+c")
"""
FALG = """
from evotorch.algorithms.functional import {fn}, {fn}_ask, {fn}_tell
s = {fn}(center_init=_input("mu", role="mu", ndim=1, dtype="float32"), stdev_init=_input("sigma", role="sigma", sgn="+", ndim=1, dtype="float32"), objective_sense="{sense}"{kw})
t = {fn}_tell(s, _input("x", smp="+", ndim=2, dtype="float32"), _input("f", pol="{pol}0", ndim=1, dtype="float32"))
_leads("functional {fn} ({what}), center", {center}, "moved", "+c")
_leads("functional {fn} ({what}), spread", t.stdev, "moved", "+s")
"""
FGRAD = """
from evotorch.distributions import {cls}, make_functional_grad_estimator
est = make_functional_grad_estimator({cls}, required_parameters=["mu", "sigma"], objective_sense="{sense}", ranking_method={rank}{fixed})
g = est(_input("x", smp="+", ndim=2, dtype="float32"), _input("f", pol="{pol}0", ndim=1, dtype="float32"), mu=_input("mu", role="mu", ndim=1, dtype="float32"), sigma=_input("sigma", role="sigma", sgn="+", ndim=1, dtype="float32"))
_leads("functional gradient estimator of {cls}, center", g["mu"], "to", "+c")
_leads("functional gradient estimator of {cls}, spread", g["sigma"], "to", "+s")
"""
ALG = """
from evotorch import Problem
from evotorch.decorators import vectorized
from evotorch.algorithms import {cls}


@vectorized
def f(x):
    return _input("f", {pol})


prob = Problem({sense}, f, solution_length=5, initial_bounds=(-1.0, 1.0), dtype="float32", seed=1{actors})
alg = {cls}(prob, {kw})
alg.step()
{mid}
alg.step()
_leads("{cls} ({what}), center", alg.{center}, "{fact}", "+c")
"""

PYCMA = """
from evotorch import Problem
from evotorch.decorators import vectorized
from evotorch.algorithms import PyCMAES


@vectorized
def f(x):
    return _input("f", {pol})


prob = Problem({sense}, f, solution_length=5, initial_bounds=(-1.0, 1.0), dtype="float32", seed=1)
alg = PyCMAES(prob, stdev_init=1.0)
alg.step()
"""
CMA = """
_leads("CMAES ({sense}), solutions", alg.population.values, "smp", "+")
_leads("CMAES ({sense}), center after the first step", alg.status["center"], "moved", "+c")
alg.C = _input("sigma", role="sigma", sgn="+")
alg.step()
_leads("CMAES ({sense}), spread", getattr(alg, "C", None), "moved", "+s")
"""


def task(name, src):
    return Task(name, src, obs=Obs, intr=INTR, domains=lambda: [Polarity(), Direction()])


def tasks():
    out = []
    for sense, pol in SENSES:
        for rank in RANKS:
            for cls, extra in (
                ("SeparableGaussian", ""), ("SeparableGaussian", ', "divide_mu_grad_by": "num_solutions", "divide_sigma_grad_by": "num_directions"'),
                ("SeparableGaussian", ', "divide_mu_grad_by": "total_weight", "divide_sigma_grad_by": "weight_stdev"'), ("SeparableGaussian", ', "parenthood_ratio": 0.5'),
                ("SymmetricSeparableGaussian", ""), ("SymmetricSeparableGaussian", ', "divide_mu_grad_by": "num_directions", "divide_sigma_grad_by": "num_directions"'), ("SymmetricSeparableGaussian", ', "parenthood_ratio": 0.5'),
                ("ExpSeparableGaussian", ""), ("ExpGaussian", ""), ("ExpGaussian", ', "sigma_inv": _input("sinv", role="sinv")'),
            ):
                if extra and rank not in ("centered", "raw"):
                    continue
                gm, gs = ("d", "M") if cls == "ExpGaussian" else ("mu", "sigma")
                more = f'_leads("{cls} ({rank}, {sense}), inverse of the spread", u.parameters["sigma_inv"], "moved", "-s")\n' if "sinv" in extra else ""
                out.append(task(f"{cls}-{rank}-{sense}-{len(out)}", DIST.format(cls=cls, extra=extra, pol=pol, sense=sense, rank=f'"{rank}"', what=f"{rank}, {sense}", gmu=gm, gsigma=gs) + more))
        for name, opt in OPTS.items():
            out.append(task(f"opt-{name}-{sense}", OPT.format(opt=opt, name=name, pol=pol, sense=sense)))
        for cls in ("SeparableGaussian", "SymmetricSeparableGaussian", "ExpSeparableGaussian"):
            for rank in ('"centered"', '"raw"', "None"):
                out.append(task(f"fgrad-{cls}-{rank}-{sense}", FGRAD.format(cls=cls, sense=sense, pol=pol, rank=rank, fixed="")))
        out.append(task(f"fgrad-elites-{sense}", FGRAD.format(cls="SeparableGaussian", sense=sense, pol=pol, rank='"raw"', fixed=', fixed_parameters={"parenthood_ratio": 0.5}')))
        out.append(task(f"cem-{sense}", FALG.format(fn="cem", sense=sense, pol=pol, kw=", parenthood_ratio=0.5", what=sense, center="t.center")))
        out.append(task(f"cem-limits-{sense}", FALG.format(fn="cem", sense=sense, pol=pol, kw=", parenthood_ratio=0.5, stdev_max_change=0.1, stdev_min=0.1, stdev_max=3.0", what=sense, center="t.center")))
        for sym in (True, False):
            for opt in ("clipup", "adam", "sgd"):
                for rank in ("centered", "raw"):
                    kw = f', center_learning_rate=0.1, stdev_learning_rate=0.1, optimizer="{opt}", symmetric={sym}, ranking_method="{rank}"'
                    out.append(task(f"pgpe-{sym}-{opt}-{rank}-{sense}", FALG.format(fn="pgpe", sense=sense, pol=pol, kw=kw, what=f"{opt}, {rank}, {sense}", center="t.optimizer_state.center")))
        for cls, kw, what in (
            ("PGPE", 'popsize=20, center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=1.0, center_init=_input("mu", role="mu")', "symmetric"),
            ("PGPE", 'popsize=20, center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=1.0, center_init=_input("mu", role="mu"), symmetric=False, optimizer="adam"', "plain"),
            ("PGPE", 'popsize=20, center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=1.0, center_init=_input("mu", role="mu"), optimizer=None, ranking_method="raw"', "no optimizer"),
            ("SNES", 'popsize=20, stdev_init=1.0, center_init=_input("mu", role="mu")', "default"),
            ("CEM", 'popsize=20, parenthood_ratio=0.5, stdev_init=1.0, center_init=_input("mu", role="mu")', "default"),
            ("XNES", 'popsize=20, stdev_init=1.0, center_init=_input("mu", role="mu")', "default"),
        ):
            for extra in ("", ", distributed=True"):
                if extra and cls == "XNES":
                    continue
                for form, sn, pl, oi in ((sense, f'"{sense}"', f'pol="{pol}0"', ""), ("second objective " + sense, str(["min" if sense == "max" else "max", sense]), f'cols="{OTHER[pol]}{pol}"', ", obj_index=1")):
                    out.append(task(f"alg-{cls}-{what}-{form}-{bool(extra)}", ALG.format(cls=cls, kw=kw + extra + oi, what=f"{what}, {form}{extra.replace(', distributed=True', ', distributed')}", sense=sn, pol=pl, mid="", actors=", num_actors=2" if extra else "", center='status["center"]', fact="moved")))
        out.append(task(f"pycma-{sense}", PYCMA.format(sense=f'"{sense}"', pol=f'pol="{pol}0"')))
        mid = CMA.format(sense=sense)
        for sep in (True, False):
            for act in (True, False):
                out.append(task(f"cmaes-{sep}-{act}-{sense}", ALG.format(cls="CMAES", kw=f'stdev_init=0.5, popsize=10, separable={sep}, active={act}, center_init=_input("mu", role="mu")', what=sense, sense=f'"{sense}"', pol=f'pol="{pol}0"', mid=mid, actors="", center='status["center"]', fact="moved")))
    for fn, kw in (("adam", ""), ("clipup", ", max_speed=0.3"), ("clipup", ""), ("sgd", ""), ("sgd", ", momentum=0.9")):
        out.append(task(f"fopt-{fn}-{len(kw)}", FOPT.format(fn=fn, kw=kw)))
    return out


POSITIVE = """
import torch

mu, sigma = _input("mu", role="mu"), _input("sigma", role="sigma", sgn="+")
x, w, f = _input("x", smp="+"), _input("w", pol="+0"), _input("f", pol="-0")
_leads("good", mu + 0.1 * (w.unsqueeze(-1) * (x - mu)).sum(0), "moved", "+c")
_leads("good negated", mu - 0.1 * (f @ (x - mu)), "moved", "+c")
_leads("minimised", mu + 0.1 * (f @ (x - mu)), "moved", "+c")
_leads("reversed deviation", mu + 0.1 * (w @ (mu - x)), "moved", "+c")
_leads("wrong halves", (w[1::2] - w[0::2]) @ (x[0::2] - mu), "to", "+c")
_leads("good halves", (w[0::2] - w[1::2]) @ (x[0::2] - mu), "to", "+c")
_leads("worst elites", x[w.argsort()[:5]].mean(0) - mu, "to", "+c")
_leads("good spread", sigma * torch.exp(0.5 * (w @ ((x - mu) ** 2 - 1))), "moved", "+s")
_leads("inverted spread", sigma * torch.exp(-0.5 * (w @ ((x - mu) ** 2 - 1))), "moved", "+s")
"""
EXPECTED = ["inverted spread", "minimised", "reversed deviation", "worst elites", "wrong halves"]


def run(ctx):
    pos = run_task(task("positive", POSITIVE))
    got = sorted(f["func"] for f in pos["found"])
    ctx.counts["positive_examples_matched"] = len(got)
    if got != EXPECTED:
        ctx.errors.append(f"positive example: findings {got} instead of {EXPECTED}; {pos['error']}")
    ctx.run(tasks())
    ctx.need("steps decided", ctx.counts.get("obligations_decided", 0), 60)
