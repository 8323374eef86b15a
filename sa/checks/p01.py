"""P01: functional ask/tell never modify what they are given."""
from ..base import FreezeObs, Task

EXPLANATION = (
    "alias and effect analysis: every usage pattern of the functional API (initializer, then any number of ask/tell in any order, "
    "all kept states) is interpreted abstractly; every in-place write site reached must not target a storage or object reachable from an "
    "argument or from an earlier state, nor module-level state"
)

ALGOS = {}


def algo(name, imports, init, ask, tell):
    ALGOS[name] = (imports, init, ask, tell)


F = "from evotorch.algorithms.functional import "
V = '_input("%s")'


def cem_init(**kw):
    d = dict(center_init='_input("center")', stdev_init='_input("stdev")', parenthood_ratio="0.5", objective_sense='"min"',
             stdev_min='_input("smin")', stdev_max='_input("smax")', stdev_max_change='_input("smc")')
    d.update(kw)
    return "cem(" + ", ".join(f"{a}={b}" for a, b in d.items() if b) + ")"


def pgpe_init(**kw):
    d = dict(center_init='_input("center")', center_learning_rate='_input("clr")', stdev_learning_rate='_input("slr")',
             stdev_init='_input("stdev")', objective_sense='"max"', ranking_method='"centered"', optimizer='"clipup"',
             stdev_min='_input("smin")', stdev_max='_input("smax")', stdev_max_change='_input("smc")', symmetric="True",
             optimizer_config="conf")
    d.update(kw)
    return "pgpe(" + ", ".join(f"{a}={b}" for a, b in d.items() if b) + ")"


def template(imports, init, ask, tell, conf="{}"):
    return f"""
{imports}
conf = {conf}
_freeze("the configuration given to the initializer", conf)
_freeze("an argument of the initializer", _input("center"), _input("stdev"), _input("smin"), _input("smax"), _input("smc"),
        _input("clr"), _input("slr"), _input("b1"), _input("b2"), _input("eps"), _input("mom"), _input("ms"))
s0 = {init}
state = s0
_freeze("a state", state)
kept = [s0]
while _unk():
    values = {ask}
    _freeze("the state given to ask/tell", state)
    if _unk():
        values = _input("values")
    evals = _input("evals")
    _freeze("the population given to tell", values)
    _freeze("the evaluation results given to tell", evals)
    new = {tell}
    _freeze("a state returned earlier", new)
    kept.append(new)
    if _unk():
        state = new
    elif _unk():
        state = s0
    else:
        state = kept[_int()]
"""


def harnesses():
    out = []
    for sense in ("min", "max"):
        out.append((f"cem-{sense}", template(F + "cem, cem_ask, cem_tell", cem_init(objective_sense=f'"{sense}"'),
                                             "cem_ask(state, popsize=10)", "cem_tell(state, values, evals)")))
    out.append(("cem-radius", template(F + "cem, cem_ask, cem_tell", cem_init(stdev_init="", radius_init='_input("stdev")', stdev_min="", stdev_max="", stdev_max_change=""),
                                       "cem_ask(state, popsize=10)", "cem_tell(state, values, evals)")))
    confs = {"clipup": '{"max_speed": _input("ms"), "momentum": _input("mom")}', "adam": '{"beta1": _input("b1"), "beta2": _input("b2"), "epsilon": _input("eps")}',
             "sgd": '{"momentum": _input("mom")}'}
    n = 0
    ranks = ["centered", "linear", "nes", "normalized", "raw"]
    for opt in confs:
        for sym in ("True", "False"):
            r = ranks[n % len(ranks)]
            sense = ("min", "max")[n % 2]
            n += 1
            out.append((f"pgpe-{opt}-{sym}-{r}-{sense}",
                        template(F + "pgpe, pgpe_ask, pgpe_tell", pgpe_init(optimizer=f'"{opt}"', symmetric=sym, ranking_method=f'"{r}"', objective_sense=f'"{sense}"'),
                                 "pgpe_ask(state, popsize=10)", "pgpe_tell(state, values, evals)", conf=confs[opt])))
    out.append(("pgpe-defaults", template(F + "pgpe, pgpe_ask, pgpe_tell", pgpe_init(stdev_init="", radius_init='_input("stdev")', stdev_min="", stdev_max="", optimizer_config="", optimizer=""),
                                          "pgpe_ask(state, popsize=10)", "pgpe_tell(state, values, evals)")))
    for r in ranks:
        for sym in ("True", "False"):
            out.append((f"pgpe-rank-{r}-{sym}", template(F + "pgpe, pgpe_ask, pgpe_tell", pgpe_init(ranking_method=f'"{r}"', symmetric=sym, optimizer_config=""),
                                                  "pgpe_ask(state, popsize=10)", "pgpe_tell(state, values, evals)")))
    for opt, args in (("adam", 'beta1=_input("b1"), beta2=_input("b2"), epsilon=_input("eps")'), ("clipup", 'momentum=_input("mom"), max_speed=_input("ms")'), ("sgd", 'momentum=_input("mom")')):
        for tag, a in (("full", args), ("default", "")):
            out.append((f"{opt}-{tag}", template(F + f"{opt}, {opt}_ask, {opt}_tell", f'{opt}(center_init=_input("center"), center_learning_rate=_input("clr"), {a})',
                                                 f"{opt}_ask(state)", f"{opt}_tell(state, follow_grad=evals)")))
    return out


# rules that expect zero matches must still match this one
POSITIVE = """
def tell(state, values):
    centre = state[0]
    v = values.reshape(-1)
    v -= 1.0
    return [centre]

x = _input("values")
_freeze("the population given to tell", x)
tell([_input("c")], x)
"""


def run(ctx):
    tasks = [Task(n, s, obs=lambda: FreezeObs("write-to-argument", module_state=True)) for n, s in harnesses()]
    res = ctx.run(tasks)
    ctx.need("functional_functions_reached", len([f for f in ctx.functions if ".algorithms.functional." in f]), 20)
    selftest(ctx)


def selftest(ctx):
    from ..base import run_task

    r = run_task(Task("positive-example", POSITIVE, obs=lambda: FreezeObs("write-to-argument", module_state=True)))
    ctx.counts["positive_examples_matched"] = len(r["found"])
    if not r["found"]:
        ctx.errors.append("the positive example was not reported")
