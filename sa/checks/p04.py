"""P04: tensors handed out as read-only cannot be used to change stored state."""
from ..base import Finding, FreezeObs, Task, finding, kconst, run_task
from ..vals import NONE, Abs, K, Ref, join_state
from .common import PROBLEM

EXPLANATION = (
    "read-only escape analysis: every value handed out by an accessor that promises read-only data is followed to the storages it may refer to, and each handle must be of the "
    "read-only kind, also after slicing, iterating, viewing and numpy conversion; every in-place entry point of the read-only classes must fail on all paths"
)
RO = "evotorch.tools.ReadOnlyTensor"


def setup(it):
    kind, it.ro_class = it.prog.public(RO)


def i_ro(it, a, kw, n):
    """_ro(label, v...): every tensor, array or object array in v is read-only."""
    label = kconst(a[0])
    for v in a[1:]:
        it.obs.count("read_only_obligations")
        known = False
        for x in v:
            bad = None
            if isinstance(x, Abs) and x.stors and x.kind in ("tensor", "ndarray", "any"):
                known = True
                if not x.ro:
                    bad = "a writable " + x.kind
            elif isinstance(x, Ref):
                h = it.st.heap.get(x.oid)
                if h is not None and "_read_only" in h.fields:
                    known = True
                    if h.fields["_read_only"] != frozenset([K(True, "bool")]):
                        bad = "a writable object array"
            if bad:
                f = finding(it, "writable-handle", n, f"{label}: {bad} referring to {', '.join(sorted(getattr(x, 'stors', ()))) or 'stored objects'} is handed out")
                f["func"] = f["construct"] = label
                it.obs.add(f)
        if known:
            it.obs.count("handles_resolved")
        else:
            it.obs.count("handles_unresolved")
    return NONE


def i_raises(it, a, kw, n):
    """_raises(label, f): f() fails on every path."""
    from ..interp import Dead

    label = kconst(a[0])
    it.obs.count("refusal_obligations")
    st0 = it.st.copy()
    fr = it.stack[-1]
    try:
        it.call(a[1], [], {}, n)
        it.obs.add(Finding(rule="not-refused", func=label, construct=label, where="", detail=f"{label}: some path does not raise", path=[]))
    except Dead:
        pass
    it.st = st0
    return NONE


INTR = {"_ro": i_ro, "_raises": i_raises}
DATA_OPS = (
    "abs_ absolute_ acos_ acosh_ add_ addbmm_ addcdiv_ addcmul_ addmm_ addmv_ addr_ apply_ arccos_ arctan2_ asin_ atan_ atan2_ baddbmm_ bernoulli_ bitwise_and_ bitwise_left_shift_ bitwise_not_ "
    "bitwise_or_ bitwise_right_shift_ bitwise_xor_ cauchy_ ceil_ clamp_ clamp_max_ clamp_min_ clip_ copy_ copysign_ cos_ cosh_ cumprod_ cumsum_ deg2rad_ digamma_ div_ divide_ eq_ erf_ erfc_ erfinv_ exp2_ "
    "exp_ expm1_ exponential_ fill_ fill_diagonal_ fix_ float_power_ floor_ floor_divide_ fmod_ frac_ gcd_ ge_ geometric_ greater_ greater_equal_ gt_ heaviside_ hypot_ i0_ index_add_ index_copy_ index_fill_ "
    "index_put_ index_reduce_ lcm_ ldexp_ le_ lerp_ less_ less_equal_ lgamma_ log10_ log1p_ log2_ log_ log_normal_ logical_and_ logical_not_ logical_or_ logical_xor_ logit_ lt_ map2_ map_ masked_fill_ "
    "masked_scatter_ mul_ multiply_ mvlgamma_ nan_to_num_ ne_ neg_ negative_ nextafter_ normal_ not_equal_ polygamma_ pow_ put_ rad2deg_ random_ reciprocal_ relu_ remainder_ renorm_ round_ rsqrt_ scatter_ "
    "scatter_add_ scatter_reduce_ sgn_ sigmoid_ sign_ sin_ sinc_ sinh_ sqrt_ square_ sub_ subtract_ tan_ tanh_ tril_ triu_ true_divide_ trunc_ uniform_ xlogy_ zero_"
).split()
DUNDERS = "__iadd__ __iand__ __ifloordiv__ __ilshift__ __imod__ __imul__ __ior__ __ipow__ __irshift__ __isub__ __itruediv__ __ixor__".split()
FUNCTIONAL = ["add_", "relu_", "clip_", "fill_", "zero_", "neg_", "sigmoid_", "copy_"]

CLASS = """
import torch
from evotorch.tools import ReadOnlyTensor, as_read_only_tensor
t = as_read_only_tensor(_input("x"))
other = _input("y")
_raises("item assignment to a read-only tensor", lambda: ReadOnlyTensor.__setitem__(t, 0, 1.0))
"""
for d in DUNDERS:
    CLASS += f'_raises("{d} of a read-only tensor", lambda: ReadOnlyTensor.{d}(t, 1.0))\n'
for d in DATA_OPS:
    CLASS += f'_raises("method {d} of a read-only tensor", lambda: ReadOnlyTensor.__getattribute__(t, "{d}"))\n'
CLASS += '_raises("out= given a read-only tensor", lambda: ReadOnlyTensor.__torch_function__(torch.add, (), (other, other), {"out": t}))\n'
CLASS += '_raises("out= given a tuple with a read-only tensor", lambda: ReadOnlyTensor.__torch_function__(torch.sort, (), (other,), {"out": (other, t)}))\n'
CLASS += '_raises("inplace=True on a read-only tensor", lambda: ReadOnlyTensor.__torch_function__(torch.nn.functional.relu, (), (t,), {"inplace": True}))\n'
for d in FUNCTIONAL:
    CLASS += f'_raises("function {d} applied to a read-only tensor", lambda: ReadOnlyTensor.__torch_function__(torch.{d}, (), (t, other), {{}}))\n'

VIEWS = """
from copy import copy, deepcopy
import numpy as np
from evotorch.tools import ReadOnlyTensor, as_read_only_tensor, read_only_tensor, make_tensor
x = _input("x")
t = {make}
_ro("{how}", t)
_ro("{how}: element", t[0])
_ro("{how}: slice", t[1:3])
_ro("{how}: whole slice", t[:])
_ro("{how}: column", t[:, 0])
_ro("{how}: ellipsis", t[..., 1:])
_ro("{how}: new axis", t[None])
_ro("{how}: slice of slice", t[1:5][2:3])
_ro("{how}: reshape", t.reshape(-1))
_ro("{how}: view", t.view(-1))
_ro("{how}: transpose", t.T)
_ro("{how}: flatten", t.flatten())
_ro("{how}: detach", t.detach())
_ro("{how}: numpy()", t.numpy())
_ro("{how}: numpy() of a slice", t[2:].numpy())
_ro("{how}: array interface", t.__array__())
_ro("{how}: numpy() of a reshape", t.reshape(-1).numpy())
for r in t:
    _ro("{how}: iteration", r)
    _ro("{how}: element in iteration", r[0])
_ro("{how}: read-only clone", t.clone(preserve_read_only=True))
_ro("{how}: copy", copy(t))
_ro("{how}: deepcopy", deepcopy(t))
_disjoint("{how}: writable clone", t, t.clone())
"""
BATCH = """
{pre}
b = prob.generate_batch(10)
b.set_evals(_input("e"))
c = {obj}
_ro("{name}.values", c.values)
_ro("{name}.evals", c.evals)
_ro("{name}.values[0]", c.values[0])
_ro("{name}.evals[:, 0]", c.evals[:, 0])
_ro("{name}.values.numpy()", c.values.numpy())
"""
SOLUTION = """
{pre}
b = prob.generate_batch(10)
b.set_evals(_input("e"))
s = {obj}
_ro("{name}.values", s.values)
_ro("{name}.evals", s.evals)
_ro("{name}.values[1:]", s.values[1:])
"""
STATUS = """
{pre}
from evotorch.algorithms import {alg}
s = {ctor}
while _unk():
    s.step()
    _ro("status of {alg}", s.status["{key}"])
    st = s.status
    v = st["{key}"]
    _ro("kept status of {alg}", v)
"""
REPORTER = """
from evotorch.algorithms.searchalgorithm import SearchAlgorithm
{pre}
class A(SearchAlgorithm):
    def __init__(self, problem):
        SearchAlgorithm.__init__(self, problem, thing=self.get_thing)
        self.x = _input("x")
    def get_thing(self):
        return self.x
    def _step(self):
        self.update_status({{"other": self.x}})
s = A(prob)
while _unk():
    s.step()
    _ro("computed status item", s.status["thing"])
    _ro("given status item", s.status["other"])
    for k, v in s.status.items():
        if k == "other":
            _ro("status item by iteration", v)
    _ro("status item by get()", s.status.get("other"))
"""
OBJARR = """
from copy import copy, deepcopy
from evotorch.tools import ObjectArray, as_read_only_tensor
a = ObjectArray(4)
a[0] = [1, 2]
a[1] = {"x": 1}
a[2] = 3
a[3] = "d"
r = a.get_read_only_view()
_ro("read-only view of an object array", r)
_ro("object array given to as_read_only_tensor", as_read_only_tensor(a))
_ro("slice of a read-only object array", r[1:3])
_ro("whole slice of a read-only object array", r[:])
_ro("slice of slice of a read-only object array", r[1:4][0:1])
_raises("item assignment to a read-only object array", lambda: r.__setitem__(0, 1))
_raises("slice assignment to a read-only object array", lambda: r.__setitem__(slice(0, 2), [1, 2]))
_raises("set_item of a read-only object array", lambda: r.set_item(0, 1))
_raises("set_item on a slice of a read-only object array", lambda: r[1:3].set_item(0, 1))
"""
MAKER = """
from evotorch.tools import make_tensor
{pre}
_ro("make_tensor(read_only=True)", make_tensor(_input("x"), dtype="float32", device="cpu", read_only=True))
_ro("Problem.make_tensor(read_only=True)", prob.make_tensor(_input("x"), read_only=True))
"""
POSITIVE = """
x = _input("x")
_ro("p", x)
_raises("q", lambda: x)
"""
ALGS = [
    ("SNES", "SNES(prob, stdev_init=1.0)", "center"),
    ("SNES", "SNES(prob, stdev_init=1.0)", "stdev"),
    ("PGPE", "PGPE(prob, popsize=10, center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=1.0)", "center"),
    ("PGPE", "PGPE(prob, popsize=10, center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=1.0)", "stdev"),
    ("CEM", "CEM(prob, popsize=10, parenthood_ratio=0.5, stdev_init=1.0)", "center"),
    ("CMAES", "CMAES(prob, popsize=10, stdev_init=1.0)", "center"),
    ("CMAES", "CMAES(prob, popsize=10, stdev_init=1.0)", "stdev"),
    ("XNES", "XNES(prob, stdev_init=1.0)", "center"),
]


def run(ctx):
    obs = lambda: FreezeObs("write")
    pr = PROBLEM.format(sense='"min"', extra="").replace("_fn()", "fitness").replace("from evotorch import Problem", "from evotorch import Problem\ndef fitness(x):\n    return _input('fit')").replace(", seed=1", ", vectorized=True, seed=1")
    prm = PROBLEM.format(sense='["min", "max"]', extra=", eval_data_length=2")
    srcs = [("in-place entry points", CLASS), ("object arrays", OBJARR), ("status of a user-defined algorithm", REPORTER.format(pre=pr)), ("make_tensor", MAKER.format(pre=pr))]
    for how, make in (("as_read_only_tensor", "as_read_only_tensor(x)"), ("read_only_tensor", "read_only_tensor(x)"), ("as_read_only_tensor with dtype", 'as_read_only_tensor(x, device="cpu")')):
        srcs.append(("views: " + how, VIEWS.format(make=make, how=how)))
    for pn, p in (("", pr), ("multi-objective ", prm)):
        for name, obj in (("batch", "b"), ("batch slice", "b[2:5]"), ("batch selection", "b[[0, 3]]"), ("taken batch", "b.take([1, 2])"), ("split piece", "b.split(2)[0]"), ("best of batch", "b.take_best(2, obj_index=0)"), ("concatenation", "b.concat([b])"), ("merged batch", "type(b)(merging_of=[b, b])"), ("cloned batch", "b.clone()"), ("empty batch", "prob.generate_batch(4, empty=True)")):
            srcs.append((f"{pn}{name}", BATCH.format(pre=p, obj=obj, name=pn + name)))
        for name, obj in (("solution", "b[3]"), ("last solution", "b[-1]"), ("solution of a slice", "b[2:5][0]"), ("cloned solution", "b[1].clone()")):
            srcs.append((f"{pn}{name}", SOLUTION.format(pre=p, obj=obj, name=pn + name)))
        srcs.append((f"{pn}solutions by iteration", SOLUTION.format(pre=p, obj="None", name="x").split("s = None")[0] + f'for s in b:\n    _ro("{pn}iterated solution.values", s.values)\n    _ro("{pn}iterated solution.evals", s.evals)\n'))
    for alg, ctor, key in ALGS:
        srcs.append((f"status {key} of {alg}", STATUS.format(pre=pr.replace(" bounds=(-2.0, 2.0),", ""), alg=alg, ctor=ctor, key=key)))
    ctx.run([Task(n, s, obs=obs, intr=INTR, setup=setup) for n, s in srcs])
    ctx.need("read-only obligations resolved", ctx.counts.get("handles_resolved", 0), 120)
    ctx.need("refusal obligations", ctx.counts.get("refusal_obligations", 0), 100)
    r = run_task(Task("positive-example", POSITIVE, obs=obs, intr=INTR, setup=setup))
    kinds = {f["rule"] for f in r["found"]}
    ctx.counts["positive_examples_matched"] = len(kinds)
    if len(kinds) < 2:
        ctx.errors.append(f"positive example: only {kinds} reported; {r['error']}")
