"""P18: batch items of the functional API do not influence each other."""
from itertools import product

from ..base import Obs, Task, run_task
from ..items import INTR
from ..flat import INTR as FLAT
from ..lanes import Typed

EXPLANATION = (
    "value numbering with constant shapes, batched calls followed one item at a time: the expression of each element of a result is expanded into elements of the inputs and random draws; "
    "an element must not depend on another item's inputs or draws, and its expression must not differ from the one obtained for the item alone in constants only"
)

HEAD = """
import torch
from evotorch.algorithms.functional import cem, cem_ask, cem_tell, pgpe, pgpe_ask, pgpe_tell, adam, adam_ask, adam_tell, clipup, clipup_ask, clipup_tell, sgd, sgd_ask, sgd_tell
from evotorch.decorators import expects_ndim, rowwise
from evotorch.tools.constraints import violation, log_barrier, penalty
from evotorch.tools import modify_vector
from evotorch.distributions import SeparableGaussian, SymmetricSeparableGaussian, ExpGaussian, make_functional_sampler, make_functional_grad_estimator

"""
# (batch dimensions of the results, of a second group of inputs)
BATCHES = [((2,), (2,)), ((2,), ()), ((3,), (3,)), ((2, 2), (2, 2)), ((3, 2), (2,)), ((2, 3), ())]


def setup(it):
    it.raw_ndim = True


def both(body, results, lead, inputs):
    """The same calls for batches and for one item. inputs: name -> (batch dimensions, sizes); results: label -> expression"""
    out = []
    for q, make in (("many", lambda n, l, s: f"_batched('{n}', {list(l)}, {list(s)})" if l else f"_vals('{n}', {', '.join(map(str, s))})" if s else f"_vals('{n}')"), ("one", lambda n, l, s: f"_single('{n}', {list(s)})" if l else f"_vals('{n}', {', '.join(map(str, s))})" if s else f"_vals('{n}')")):
        out.append(f"def {q}():")
        out += [f"    {n} = {make(n, l, s)}" for n, (l, s) in inputs.items()]
        out += ["    " + x for x in body]
        out.append("    return [" + ", ".join(results.values()) + "]")
    out += ["a = many()", "b = one()"]
    out += [f"_items('{label}', a[{j}], {list(lead)}, b[{j}])" for j, label in enumerate(results)]
    return HEAD + "\n".join(out) + "\n"


def tasks():
    out = []

    def add(name, body, results, lead, inputs, at):
        src = both(body, results, lead, inputs).replace("a = many()", f"_at({at})\na = many()")
        t = Task(name, src, obs=Obs, domains=lambda: [Typed()], intr=dict(FLAT, **INTR))
        t.setup = setup
        out.append(t)

    for (lead, more), sense in product(BATCHES, ("min", "max")):
        tag = f"batch {lead} {more} {sense}"
        for n, extra, ins in (
            ("stdev", "stdev_init=s", {"s": (more, (2,))}),
            ("scalar stdev", "stdev_init=0.5", {}),
            ("radius", "radius_init=r", {"r": (more, ())}),
            ("limits", "stdev_init=s, stdev_min=lo, stdev_max=hi, stdev_max_change=ch", {"s": (lead, (2,)), "lo": (more, (2,)), "hi": (more, (2,)), "ch": (more, (2,))}),
        ):
            add(f"cem, {n}, {tag}", [f"st = cem(center_init=c, parenthood_ratio=0.5, objective_sense='{sense}', {extra})", "p = cem_ask(st, popsize=4)", "st2 = cem_tell(st, v, e)", "p2 = cem_ask(st2, popsize=4)"],
                {"population of the cross entropy method": "p", "center of the cross entropy method": "st2.center", "standard deviation of the cross entropy method": "st2.stdev", "population after an update of the cross entropy method": "p2"},
                lead, dict({"c": (lead, (2,)), "v": (lead, (4, 2)), "e": (lead, (4,))}, **ins), "cem_tell")
        for ranking, symmetric, opt in product(("centered", "linear", "nes", "normalized", "raw"), (True, False), ("clipup", "adam", "sgd")):
            if (BATCHES.index((lead, more)) + ("centered", "linear", "nes", "normalized", "raw").index(ranking) + symmetric + (sense == "min")) % 2 and opt != "clipup":
                continue
            add(f"pgpe, {ranking}, symmetric={symmetric}, {opt}, {tag}", [f"st = pgpe(center_init=c, center_learning_rate=lr, stdev_learning_rate=sl, objective_sense='{sense}', ranking_method='{ranking}', optimizer='{opt}', stdev_init=s, symmetric={symmetric})", "p = pgpe_ask(st, popsize=4)", "st2 = pgpe_tell(st, v, e)", "p2 = pgpe_ask(st2, popsize=4)"],
                {"population of pgpe": "p", "center of pgpe": f"{opt}_ask(st2.optimizer_state)", "standard deviation of pgpe": "st2.stdev", "population after an update of pgpe": "p2"},
                lead, {"c": (lead, (2,)), "s": (more, (2,)), "lr": (more, ()), "sl": (more, ()), "v": (lead, (4, 2)), "e": (lead, (4,))}, "pgpe_tell")
    for lead, more in BATCHES:
        tag = f"batch {lead} {more}"
        for name, extra, ins in (
            ("adam", "center_learning_rate=lr", {"lr": (more, ())}), ("adam", "center_learning_rate=lr, beta1=b1, beta2=b2, epsilon=ep", {"lr": (more, ()), "b1": (more, ()), "b2": (lead, ()), "ep": (more, ())}), ("adam", "", {}),
            ("clipup", "center_learning_rate=lr", {"lr": (more, ())}), ("clipup", "center_learning_rate=lr, momentum=mo, max_speed=ms", {"lr": (lead, ()), "mo": (more, ()), "ms": (more, ())}), ("clipup", "max_speed=ms", {"ms": (more, ())}),
            ("sgd", "center_learning_rate=lr", {"lr": (more, ())}), ("sgd", "center_learning_rate=lr, momentum=mo", {"lr": (more, ()), "mo": (lead, ())}),
        ):
            for gl, cl in ((lead, lead), (lead, more), (more, lead)):
                add(f"{name}, {extra}, center {cl}, gradient {gl}, {tag}", [f"st = {name}(center_init=c, {extra})", f"st = {name}_tell(st, follow_grad=g)", f"x = {name}_ask(st)", f"st = {name}_tell(st, follow_grad=h)"],
                    {f"center after a step of {name}": "x", f"center after two steps of {name}": f"{name}_ask(st)"}, lead if lead in (gl, cl) or "lead" in extra else more,
                    dict({"c": (cl, (3,)), "g": (gl, (3,)), "h": (lead, (3,))}, **ins) if True else {}, f"{name}_tell")
        for op in (">=", "<=", "=="):
            for l, r in ((lead, more), (more, lead)):
                add(f"violation, {op}, {l} {r}", [f"x = violation(l, '{op}', r)"], {"violation": "x"}, lead, {"l": (l, ()), "r": (r, ())}, "violation")
                if op != "==":
                    for sign in "+-":
                        add(f"log_barrier, {op}, {sign}, {l} {r}", [f"x = log_barrier(l, '{op}', r, penalty_sign='{sign}', sharpness=s)"], {"log barrier": "x"}, lead, {"l": (l, ()), "r": (r, ()), "s": (more, ())}, "log_barrier")
                add(f"penalty, {op}, {l} {r}", [f"x = penalty(l, '{op}', r, penalty_sign='+', linear=a, step=t, exp=p, exp_inf=i)"], {"penalty": "x"}, lead, {"l": (l, ()), "r": (r, ()), "a": (more, ()), "t": (lead, ()), "p": (more, ()), "i": (more, ())}, "penalty")
        add(f"modify_vector, {tag}", ["x = modify_vector(o, t, lb=lo, ub=hi, max_change=ch)"], {"modified vector": "x"}, lead, {"o": (lead, (3,)), "t": (more, (3,)), "lo": (more, (3,)), "hi": (lead, (3,)), "ch": (more, (3,))}, "modify_vector")
        for a, b in ((lead, more), (more, lead)):
            tag = f"{a} {b}"
            add(f"expects_ndim, {tag}", ["@expects_ndim(2, 1)", "def f(x, y):", "    return torch.sum(x, dim=0) / torch.norm(y)", "z = f(x, y)"], {"result of a function of given dimensions": "z"}, lead, {"x": (a, (2, 3)), "y": (b, (3,))}, "expects_ndim")
            add(f"expects_ndim, scalar, {tag}", ["@expects_ndim(1, 0, None)", "def f(x, y, z):", "    return (x - torch.mean(x)) * y + z", "z = f(x, y, 3)"], {"result of a function of given dimensions": "z"}, lead, {"x": (a, (3,)), "y": (b, ())}, "expects_ndim")
            add(f"expects_ndim, results, {tag}", ["@expects_ndim(1, 1)", "def f(x, y):", "    return torch.argsort(x), torch.max(y)", "p, q = f(x, y)"], {}, lead, {"x": (lead, (3,)), "y": (lead, (3,))}, "expects_ndim")
            out[-1].src = both(["@expects_ndim(1, 1)", "def f(x, y):", "    return torch.argsort(x), torch.max(y)", "p, q = f(x, y)"], {"first result of a function of given dimensions": "p", "second result of a function of given dimensions": "q"}, lead, {"x": (lead, (3,)), "y": (lead, (3,))}).replace("a = many()", "_at(expects_ndim)\na = many()")
            add(f"expects_ndim, random, {tag}", ["@expects_ndim(1, 1, randomness='different')", "def f(x, y):", "    return x + y * torch.randn(3)", "z = f(x, y)"], {"random result of a function of given dimensions": "z"}, lead, {"x": (a, (3,)), "y": (b, (3,))}, "expects_ndim")
        add(f"rowwise, {tag}", ["@rowwise", "def f(x):", "    return torch.max(x) - x", "z = f(x)"], {"result of a rowwise function": "z"}, lead, {"x": (lead, (3,))}, "rowwise")
        add(f"rowwise, random, {tag}", ["@rowwise(randomness='different')", "def f(x):", "    return torch.sum(x) + torch.rand(2)", "z = f(x)"], {"random result of a rowwise function": "z"}, lead, {"x": (lead, (3,))}, "rowwise")
        for cls in ("SeparableGaussian", "SymmetricSeparableGaussian"):
            for a, b in ((lead, more), (more, lead)):
                add(f"sampler of {cls}, {a} {b}", [f"f = make_functional_sampler({cls}, required_parameters=['mu', 'sigma'])", "x = f(4, mu=m, sigma=s)"], {"samples": "x"}, lead, {"m": (a, (2,)), "s": (b, (2,))}, "make_functional_sampler")
                add(f"functional sample of {cls}, {a} {b}", [f"x = {cls}.functional_sample(4, {{'mu': m, 'sigma': s}})"], {"samples": "x"}, lead, {"m": (a, (2,)), "s": (b, (2,))}, f"{cls}.functional_sample")
            for ranking, sense in product(("None", "'centered'", "'nes'", "'normalized'"), ("min", "max")):
                more_p = "{'divide_mu_grad_by': 'num_directions', 'divide_sigma_grad_by': 'num_directions'}" if cls.startswith("Sym") else "{}"
                add(f"gradient of {cls}, {ranking}, {sense}, {tag}", [f"f = make_functional_grad_estimator({cls}, required_parameters=['mu', 'sigma'], objective_sense='{sense}', ranking_method={ranking}, fixed_parameters={more_p})", "g = f(v, e, mu=m, sigma=s)"], {"gradient of the center": "g['mu']", "gradient of the standard deviation": "g['sigma']"}, lead, {"m": (more, (2,)), "s": (more, (2,)), "v": (lead, (4, 2)), "e": (lead, (4,))}, "make_functional_grad_estimator")
    return out


POSITIVE = """
import torch

def good(x):
    return (x - x.mean(dim=-1, keepdim=True)) / torch.norm(x, dim=-1, keepdim=True)

def across(x):
    return x - torch.mean(x)

def ranked(x):
    return torch.argsort(x, dim=0)

def counted(x):
    return x / x.shape[0]

def drawn(x):
    return x + torch.randn(3)

def fresh(x):
    return x + torch.randn_like(x)

def nested(x):
    return torch.func.vmap(lambda y: y * torch.max(y) + torch.rand(3), randomness="different")(x) if x.ndim > 1 else x * torch.max(x) + torch.rand(3)

def repeated(x):
    return torch.func.vmap(lambda y: y + torch.rand(3), randomness="same")(x) if x.ndim > 1 else x + torch.rand(3)

for f, name in ((good, "good"), (across, "across"), (ranked, "ranked"), (counted, "counted"), (drawn, "drawn"), (fresh, "fresh"), (nested, "nested"), (repeated, "repeated")):
    _at(f)
    _items(name, f(_batched("x", [2], [3])), [2], f(_single("x", [3])))
"""


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=Obs, intr=dict(FLAT, **INTR), domains=lambda: [Typed()]))
    got = sorted({f["construct"] for f in pos["found"]})
    ctx.counts["positive_examples_matched"] = len(got)
    if got != ["across", "counted", "drawn", "ranked", "repeated"]:
        ctx.errors.append(f"positive example: findings {got} {pos['counts']}; {pos['error']}")
    ts = tasks()
    for t in ts:
        t.dead_is_finding = "call with batch dimensions"
    ctx.run(ts)
    ctx.need("elements decided", ctx.counts.get("elements_decided", 0), 300)
