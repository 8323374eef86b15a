"""P16: standard deviation limits hold after every update of the search distribution."""
from ..base import Finding, Obs, Task, kconst, run_task
from ..bounds import Limits
from ..polarity import known
from ..vals import NONE, Abs

EXPLANATION = (
    "order analysis relative to symbolic limits: the configured minimum, maximum and relative change and the old standard deviation are followed through element-wise extremes, clippings and selections; "
    "the new standard deviation must respect every configured limit on every path, for every algorithm, execution mode and combination of limits"
)
NAMES = {"a": "the configured minimum", "b": "the configured maximum", "c": "the allowed relative decrease", "d": "the allowed relative increase"}


def report(it, label, want, got):
    it.obs.count("obligations_decided")
    for x in sorted(got):
        missing = [NAMES[c] for c in want if c not in x]
        if missing:
            it.obs.add(Finding(rule="limit-not-enforced", func=label, construct=label, where="", detail=f"{label}: on some path the standard deviation is not kept to {', '.join(missing)}", path=[]))


def i_limited(it, a, kw, n):
    """_limited(label, stdev, limits): the value respects the limits."""
    label, want = kconst(a[0]), kconst(a[2])
    got = known(it, a[1], "inb")
    if not got:
        it.obs.count("obligations_undecided")
        it.obs.count("undecided: " + label)
    else:
        report(it, label, want, got)
    return NONE


def i_limited_cov(it, a, kw, n):
    """_limited_cov(label, C, sigma, limits): sigma times the root of the diagonal of C respects the limits."""
    label, want = kconst(a[0]), kconst(a[3])
    var = known(it, a[1], "pow")
    sig = {Limits().one(it, frozenset([z]), "sid") or Limits.same(frozenset([z])) for z in a[2]}
    if not all(sig) or not var and known(it, a[1], "frompow"):
        it.obs.count("obligations_undecided")
        return NONE
    parts = [v.split("|") for v in var or ()]
    if not parts or any((float(v[1]), float(v[2])) != (2, -2) for v in parts):
        it.obs.count("obligations_decided")
        it.obs.add(Finding(rule="limit-not-enforced", func=label, construct=label, where="", detail=f"{label}: the covariance is not the square of limited standard deviations over the step size", path=[]))
    elif any(v[3] not in sig for v in parts):
        it.obs.count("obligations_decided")
        it.obs.add(Finding(rule="limit-not-enforced", func=label, construct=label, where="", detail=f"{label}: the covariance is limited relative to another step size than the current one", path=[]))
    else:
        report(it, label, want, {v[0] for v in parts})
    return NONE


def i_root_of(it, a, kw, n):
    """_root_of(label, A, C): A was computed from C."""
    label, root, c = kconst(a[0]), known(it, a[1], "root"), Limits().one(it, a[2], "sid") or Limits.same(a[2])
    if not root or not c:
        it.obs.count("obligations_undecided")
    else:
        it.obs.count("obligations_decided")
        if root != {c}:
            it.obs.add(Finding(rule="limit-not-enforced", func=label, construct=label, where="", detail=f"{label}: the next samples use a covariance from before the limits were applied", path=[]))
    return NONE


def i_old(it, a, kw, n):
    """_old(value): what follows is limited relative to this standard deviation."""
    for z in a[0]:
        if isinstance(z, Abs):
            for s in z.stors:
                it.st.content[s] = {**it.st.content.get(s, {}), "inb": frozenset(["abcd"]), "chg": frozenset(["old"])}
    return a[0]


INTR = {"_limited": i_limited, "_limited_cov": i_limited_cov, "_root_of": i_root_of, "_old": i_old}

LIMITS = {
    "a": {"stdev_min": '_input("smin", inb="abd"{nd})'},
    "b": {"stdev_max": '_input("smax", inb="abc"{nd})'},
    "cd": {"stdev_max_change": '_input("change", chg="ratio"{nd})'},
}
COMBOS = ("", "a", "b", "ab", "cd", "acd", "bcd", "abcd")


def limit_args(combo, nd=""):
    out = []
    for k, v in LIMITS.items():
        if k[0] in combo:
            out += [f"{n}={e.format(nd=nd)}" for n, e in v.items()]
    return ", ".join(out)


OO = """
from evotorch import Problem
from evotorch.algorithms import {cls}
prob = Problem("{sense}", _fn(), solution_length=5, initial_bounds=(-1.0, 1.0), dtype="float32", seed=1{actors})
alg = {cls}(prob, popsize=20, {kw}, stdev_init=_input("old", chg="old", inb="abcd"), {limits})
alg.step()
_limited("{label}, first update", alg.status["stdev"], "{want}")
while _unk():
    _old(alg.status["stdev"])
    alg.step()
    _limited("{label}", alg.status["stdev"], "{want}")
"""
ALGOS = {
    "PGPE": ["center_learning_rate=0.1, stdev_learning_rate=0.1", "center_learning_rate=0.1, stdev_learning_rate=0.1, symmetric=False, optimizer=None", "center_learning_rate=0.1, stdev_learning_rate=0.1, optimizer='adam'"],
    "SNES": ["center_learning_rate=0.1, stdev_learning_rate=0.1", ""],
    "CEM": ["parenthood_ratio=0.5"],
}

FUNC = """
import torch
from evotorch.algorithms.functional import {fn}, {fn}_ask, {fn}_tell
st = {fn}(center_init=_input("c0", ndim=1, dtype="float32"), {kw}, {limits})
x = {fn}_ask(st, popsize=10)
st = st._replace(stdev=_input("old", chg="old", inb="abcd", ndim={nd}, dtype="float32"))
st2 = {fn}_tell(st, x, _input("e", ndim={nd}))
_limited("{label}", st2.stdev, "{want}")
x = {fn}_ask(st2, popsize=10)
st2 = st2._replace(stdev=_input("old", chg="old", inb="abcd", ndim={nd}, dtype="float32"))
st3 = {fn}_tell(st2, x, _input("e", ndim={nd}))
_limited("{label}, later", st3.stdev, "{want}")
"""
FUNCS = {
    "cem": 'parenthood_ratio=0.5, stdev_init=_input("s0", ndim=1, dtype="float32"), objective_sense="{sense}"',
    "pgpe": 'center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=_input("s0", ndim=1, dtype="float32"), objective_sense="{sense}", ranking_method="centered"',
}

TOOL = """
import torch
from evotorch.tools import modify_tensor, modify_vector
old = _input("old", chg="old", inb="abcd", ndim=1, dtype="float32")
t = _input("target", inb="", ndim=1, dtype="float32")
_limited("modify_tensor", modify_tensor(old, t, lb={lb}, ub={ub}, max_change={ch}), "{want}")
_limited("modify_tensor, vectors", modify_tensor(old, t, lb={lbv}, ub={ubv}, max_change={chv}), "{want}")
o2 = old.clone()
_limited("modify_tensor, result of the in-place variant", modify_tensor(o2, t, lb={lb}, ub={ub}, max_change={ch}, in_place=True), "{want}")
_limited("modify_tensor, in place", o2, "{want}")
"""
VEC = """
_limited("modify_vector", modify_vector(old, t, lb={lb}, ub={ub}, max_change={ch}), "{want}")
_limited("modify_vector, vectors", modify_vector(old, t, lb={lbv}, ub={ubv}, max_change={chv}), "{want}")
"""

CMA = """
from evotorch import Problem
from evotorch.algorithms import CMAES
prob = Problem("min", _fn(), solution_length=5, initial_bounds=(-1.0, 1.0), dtype="float32", seed=1)
alg = CMAES(prob, stdev_init=0.5, popsize=10, separable={sep}, active={active}, limit_C_decomposition={lim}, {limits})
alg.step()
_limited_cov("{label}, first update", alg.C, alg.sigma, "{want}")
{root}
while _unk():
    alg.step()
    _limited_cov("{label}", alg.C, alg.sigma, "{want}")
"""

POSITIVE = """
import torch
lo, hi, r = _input("lo", inb="abd"), _input("hi", inb="abc"), _input("r", chg="ratio")
old = _input("old", chg="old", inb="abcd")
t = old + torch.randn_like(old)
_limited("a", torch.min(torch.max(t, lo), hi), "ab")
_limited("b", torch.max(t, lo), "ab")
_limited("c", torch.clamp(t, lo, hi), "ab")
_limited("d", torch.clamp(t, old - old * r, old + old * r), "cd")
_limited("e", torch.clamp(t, old - r, old + r), "cd")
_limited("f", torch.clamp(torch.clamp(t, old * (1 - r), old * (1 + r)), lo, hi), "abcd")
_limited("g", torch.clamp(t, min=lo) + old, "a")
_limited("h", torch.where(t < lo, lo, t), "a")
_limited("i", torch.where(t > lo, lo, t), "a")
s, c = _input("s"), _input("c")
v = torch.clamp(s * torch.sqrt(c), min=lo, max=hi)
_limited_cov("j", (v / s).pow(2), s, "ab")
_limited_cov("k", (v / s), s, "ab")
_limited_cov("l", (v / s) ** 2, s * 2, "ab")
_limited_cov("m", v**2 / s**2, s.clone(), "ab")
"""
EXPECTED = ["b", "e", "g", "i", "k", "l"]


def task(name, src):
    return Task(name, src, obs=Obs, intr=INTR, domains=lambda: [Limits()])


def tasks():
    out = []
    for combo in COMBOS[1:]:
        for cls, variants in ALGOS.items():
            for i, kw in enumerate(variants):
                for mode, actors, extra in (("", "", ""), ("distributed", ", num_actors=2", "distributed=True")):
                    if combo not in (("ab", "cd", "abcd") if i == 0 else ("abcd",)) + (("a", "b") if i == 0 and not mode else ()):
                        continue
                    args = ", ".join(z for z in (kw, extra) if z)
                    label = f"{cls} {mode}".strip() + f" ({limit_names(combo)})"
                    off = ", stdev_max_change=None" if cls == "PGPE" and "c" not in combo else ""
                    src = OO.format(cls=cls, sense="max" if i % 2 else "min", actors=actors, kw=args or "distributed=False", limits=limit_args(combo) + off, label=label, want=combo)
                    out.append(task(f"{cls}-{i}-{mode}-{combo}", src))
        for fn, kw in FUNCS.items():
            for nd in (1, 2):
                off = ", stdev_max_change=None" if fn == "pgpe" and "c" not in combo else ""
                label = f"functional {fn}{' batched' if nd == 2 else ''} ({limit_names(combo)})"
                src = FUNC.format(fn=fn, kw=kw.format(sense="max" if nd == 2 else "min"), limits=limit_args(combo, ', ndim=1, dtype="float32"') + off, label=label, want=combo, nd=nd)
                out.append(task(f"f{fn}-{nd}-{combo}", src))
        d = dict(
            lb='_input("smin", inb="abd")' if "a" in combo else "None",
            ub='_input("smax", inb="abc")' if "b" in combo else "None",
            ch='_input("change", chg="ratio")' if "c" in combo else "None",
        )
        d.update({k + "v": v.replace('")', '", ndim=1, dtype="float32")') for k, v in d.items()}, want=combo)
        src = TOOL.format(**d) + (VEC.format(**d) if ("a" in combo) == ("b" in combo) else "")
        out.append(task("tool-" + combo, src))
    for combo in ("a", "b", "ab"):
        for sep in (True, False):
            for active, lim in ((True, True), (False, False)):
                if combo == "ab" or lim:
                    label = f"CMAES{' separable' if sep else ''} ({limit_names(combo)})"
                    root = f'_root_of("{label}, sampling", alg.A, alg.C)' if not lim else "pass"
                    out.append(task(f"CMAES-{sep}-{active}-{lim}-{combo}", CMA.format(sep=sep, active=active, lim=lim, limits=limit_args(combo), label=label, want=combo, root=root)))
    return out


def limit_names(combo):
    return "+".join(n for c, n in (("a", "minimum"), ("b", "maximum"), ("c", "relative change")) if c in combo)


def run(ctx):
    pos = run_task(task("positive", POSITIVE))
    got = sorted(f["func"] for f in pos["found"])
    ctx.counts["positive_examples_matched"] = len(got)
    if got != EXPECTED:
        ctx.errors.append(f"positive example: findings {got} instead of {EXPECTED}; {pos['error']}")
    ctx.run(tasks())
    ctx.need("results decided", ctx.counts.get("obligations_decided", 0), 40)
