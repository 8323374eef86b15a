"""P24: flat parameter vectors map to network parameters one-to-one and in order."""
from itertools import product
from math import prod

from ..base import Obs, Task, run_task
from ..flat import INTR
from ..lanes import Typed

EXPLANATION = (
    "value numbering with constant shapes: the terms of parameters, flattened vectors and of what a network is called with are expanded into elements of the vector given, "
    "and compared with the elements due by the order of the network's parameters; the vectors given must keep their values"
)

# the shapes of the parameters of a network
NETS = [
    [(2, 3), (2,)],
    [(3,), (1, 2), (2, 2)],
    [(2, 2), (2, 2), (4,)],
    [(), (3,)],
    [(4,)],
    [(2, 1, 3), (3,), (1, 1)],
    [(1, 2, 2, 2), (2,), (2, 2), (1,)],
    [(2,), (2,), (2,)],
]
NAMES = ["weight", "bias", "memory", "gain"]


def size(shapes):
    return sum(prod(s) for s in shapes)


def made(name, shape):
    # the second parameter is frozen
    return f"_parameter({', '.join([repr(name), str(name != 'bias')] + [str(x) for x in shape])})"


def network(shapes, recurrent=False, buffers=False, record=False):
    """A module with parameters of the given shapes, which returns what it is called with."""
    ns = NAMES[:len(shapes)]
    out = ["import torch", "from torch import nn", "from evotorch.neuroevolution.net import fill_parameters, parameter_vector, count_parameters, make_functional_module, ModuleExpectingFlatParameters", "", "class Net(nn.Module):", "    def __init__(self, **kwargs):"]
    out += [f"        self.{n} = {made(n, s)}" for n, s in zip(ns, shapes)]
    if buffers:
        out.append("        self.kept = _vals('kept', 3)")
    out += ["    def parameters(self, recurse=True):"] + [f"        yield self.{n}" for n in ns]
    out += ["    def named_parameters(self, prefix='', recurse=True):"] + [f"        yield '{n}', self.{n}" for n in ns]
    out += ["    def named_buffers(self, prefix='', recurse=True):", "        return [('kept', self.kept)]" if buffers else "        return []"]
    out += ["    def buffers(self, recurse=True):", "        return [self.kept]" if buffers else "        return []"]
    d = ", ".join([f"('{n}', self.{n})" for n in ns] + (["('kept', self.kept)"] if buffers else []))
    out += ["    def state_dict(self):", f"        return dict([{d}])"]
    for m in ("to", "cpu", "eval", "train", "requires_grad_", "share_memory", "float"):
        out += [f"    def {m}(self, *args, **kwargs):", "        return self"]
    out += ["    def called_with(self, params, args, kwargs=None):"]
    out += ["        _const('parameters and buffers given to the network', len(params), %d)" % (len(ns) + bool(buffers))]
    for n, s in zip(ns, shapes):
        out.append(f"        _shape('parameter {n} given to the network', params['{n}'], {list(s)})")
    if buffers:
        out.append("        _elements('buffer given to the network', params['kept'], 'kept', 0, (3,))")
    flat = ", ".join(f"params['{n}'].reshape(-1)" for n in ns)
    out.append(f"        flat = torch.cat([{flat}])")
    if recurrent:
        out.append("        return flat, args[0] if len(args) == 1 else torch.cat([args[0], args[1]])")
    else:
        out.append("        return flat")
    out += ["net = Net()", ""]
    return "\n".join(out) + "\n"


def filled(shapes, net="net", name="v", first=0, label="filled network"):
    out, at = [], first
    for j, s in enumerate(shapes):
        out.append(f"_elements('parameter {j} of a {label}', {net}.{NAMES[j]}, '{name}', {at}, {tuple(s)})")
        at += prod(s)
    return out


def originals(shapes, net="net", label="a network read"):
    return [f"_elements('parameter {j} of {label}', {net}.{NAMES[j]}, '{NAMES[j]}', 0, {tuple(s)})" for j, s in enumerate(shapes)]


def tasks():
    out = []

    def add(name, head, lines):
        out.append(Task(name, head + "\n".join(lines) + "\n", obs=Obs, domains=lambda: [Typed()], intr=INTR))

    for q, shapes in enumerate(NETS):
        n = size(shapes)
        tag = f"network {q}"
        v = f"v = _vals('v', {n})"
        keep = f"_elements('vector given', _vals('v', {n}), 'v', 0, ({n},))"
        head = network(shapes)
        add(f"{tag}: counted", head, ["_at(count_parameters)", f"_const('number of parameters', count_parameters(net), {n})"] + originals(shapes))
        add(f"{tag}: filled", head, [v, "_at(fill_parameters)", "fill_parameters(net, v)"] + filled(shapes) + [keep])
        add(f"{tag}: filled twice", head, [v, "_at(fill_parameters)", f"fill_parameters(net, _vals('before', {n}))", "fill_parameters(net, v)"] + filled(shapes) + [keep, f"_elements('vector given before', _vals('before', {n}), 'before', 0, ({n},))"])
        add(f"{tag}: filled, then changed", head, [v, "_at(fill_parameters)", "fill_parameters(net, v)", "with torch.no_grad():", "    net.weight += 1", keep])
        add(f"{tag}: filled from a row", head, [f"w = _vals('w', 3, {n})", "_at(fill_parameters)", "fill_parameters(net, w[1])"] + filled(shapes, name="w", first=n) + [f"_elements('rows given', _vals('w', 3, {n}), 'w', 0, (3, {n}))"])
        cat = []
        at = 0
        for j, s in enumerate(shapes):
            cat.append(f"_elements('part {j} of the flattened parameters', x[{at}:{at + prod(s)}], '{NAMES[j]}', 0, ({prod(s)},))")
            at += prod(s)
        add(f"{tag}: flattened", head, ["_at(parameter_vector)", "x = parameter_vector(net)", f"_shape('flattened parameters', x, [{n}])"] + cat + originals(shapes))
        add(f"{tag}: flattened on a device", head, ["_at(parameter_vector)", "x = parameter_vector(net, device='cpu')", f"_shape('flattened parameters', x, [{n}])"] + cat)
        add(f"{tag}: flattened, then changed", head, ["_at(parameter_vector)", "x = parameter_vector(net)", "x += 1"] + originals(shapes, label="a network whose flattened parameters are changed"))
        add(f"{tag}: filled and flattened", head, [v, "_at(parameter_vector)", "fill_parameters(net, v)", "x = parameter_vector(net)", f"_elements('flattened parameters', x, 'v', 0, ({n},))", keep])
        for track in ("", ", disable_autograd_tracking=True"):
            for buffers in (False, True):
                h = network(shapes, buffers=buffers)
                add(f"{tag}: functional{track}{', with a buffer' if buffers else ''}", h, [v, "_at(ModuleExpectingFlatParameters.__call__)", f"f = make_functional_module(net{track})", f"_const('parameter length', f.parameter_length, {n})", "x = f(v, _vals('x', 4))", f"_elements('parameters given to the network', x, 'v', 0, ({n},))", f"y = f(_vals('u', {n}), _vals('x', 4))", f"_elements('parameters given to the network in a second call', y, 'u', 0, ({n},))", keep] + originals(shapes, label="a network made functional"))
        add(f"{tag}: functional over rows", head, [f"w = _vals('w', 3, {n})", "_at(ModuleExpectingFlatParameters.__call__)", "f = make_functional_module(net)", "x = torch.func.vmap(f)(w, _vals('x', 3, 4))", f"_elements('parameters given to the networks', x, 'w', 0, (3, {n}))", f"_elements('rows given', _vals('w', 3, {n}), 'w', 0, (3, {n}))"])
        out += policies(shapes, tag)
        out += problems(shapes, tag)
    return out


def policies(shapes, tag):
    out = []
    n = size(shapes)

    def add(name, head, lines):
        src = head + "from evotorch.neuroevolution.net.vecrl import Policy\n_at(Policy.__call__)\n" + "\n".join(lines) + "\n"
        out.append(Task(f"{tag}: policy, {name}", src, obs=Obs, domains=lambda: [Typed()], intr=INTR))

    for rec, make in product((False, True), ("Policy(net)", "Policy(Net)", "Policy(Net, width=3)")):
        r = ", recurrent" if rec else ""
        h = network(shapes, recurrent=rec)
        add(f"one network{r}, {make}", h, [f"p = {make}", f"_const('parameter length', p.parameter_length, {n})", f"p.set_parameters(_vals('v', {n}))", "x = p(_vals('x', 4))", f"_elements('parameters given to the network', x, 'v', 0, ({n},))", "x = p(_vals('y', 4))", f"_elements('parameters given to the network in a second call', x, 'v', 0, ({n},))", f"_elements('parameters of the policy', p.parameters, 'v', 0, ({n},))"])
        lines = [f"p = {make}", f"p.set_parameters(_vals('w', 3, {n}))", "x = p(_vals('x', 3, 4))", f"_elements('parameters given to the networks', x, 'w', 0, (3, {n}))"]
        if rec:
            lines += ["_elements('states after a call', p.h, 'x', 0, (3, 4))"]
        lines += ["x = p(_vals('y', 3, 4))", f"_elements('parameters given to the networks in a second call', x, 'w', 0, (3, {n}))", f"_elements('rows given', _vals('w', 3, {n}), 'w', 0, (3, {n}))"]
        add(f"three networks{r}, {make}", h, lines)
    h = network(shapes)
    for text, rows in (("[1]", [1]), ("torch.as_tensor([2])", [2]), ("[0, 2]", [0, 2]), ("torch.as_tensor([2, 0])", [2, 0]), ("torch.as_tensor([True, False, True])", [0, 2]), ("[False, True, False]", [1])):
        lines = ["p = Policy(net)", "_at(Policy.set_parameters)", f"w = _vals('w', 3, {n})", "p.set_parameters(w)", f"p.set_parameters(_vals('u', {len(rows)}, {n}), {text})", "x = p(_vals('x', 3, 4))"]
        for j in range(3):
            name, first = ("u", rows.index(j) * n) if j in rows else ("w", j * n)
            lines.append(f"_elements('parameters given to network {j} after replacing rows', x[{j}], '{name}', {first}, ({n},))")
        lines += [f"_elements('rows given', w, 'w', 0, (3, {n}))", f"_elements('replacing rows', _vals('u', {len(rows)}, {n}), 'u', 0, ({len(rows)}, {n}))"]
        add(f"replacing {text}", h, lines)
    add("replacing all", h, ["p = Policy(net)", f"p.set_parameters(_vals('w', 3, {n}))", f"p.set_parameters(_vals('u', 2, {n}))", "x = p(_vals('x', 2, 4))", f"_elements('parameters given to the networks', x, 'u', 0, (2, {n}))", f"_elements('rows given before', _vals('w', 3, {n}), 'w', 0, (3, {n}))"])
    add("as a module", h, ["p = Policy(net)", "_at(Policy.to_torch_module)", f"v = _vals('v', {n})", "m = p.to_torch_module(v)"] + filled(shapes, net="m", label="network made by a policy") + originals(shapes, label="the network of a policy") + [f"_elements('vector given', v, 'v', 0, ({n},))"])
    return out


def problems(shapes, tag):
    out = []
    n = size(shapes)
    h = network(shapes) + "from evotorch.neuroevolution import NEProblem\n"
    if len(shapes) % 2:
        h += "given = Net\n"
    else:
        h += "given = net\n"

    def add(name, lines):
        src = h + "\n".join(lines) + "\n"
        out.append(Task(f"{tag}: problem, {name}", src, obs=Obs, domains=lambda: [Typed()], intr=INTR))

    last = "\n".join(["def last(x):", f"    return x.{NAMES[len(shapes) - 1]}.reshape(-1)[-1]", "def first(x):", "    return x.weight.reshape(-1)[0]"])
    made = [last, "q = NEProblem('max', given, last)"]
    keep = f"_elements('vector given', _vals('v', {n}), 'v', 0, ({n},))"
    add("length", made + ["_at(NEProblem.__init__)", f"_const('solution length', q.solution_length, {n})"])
    add("parameterized", made + ["_at(NEProblem.parameterize_net)", f"m = q.parameterize_net(_vals('v', {n}))"] + filled(shapes, net="m", label="parameterized network") + [keep])
    add("parameterized twice", made + ["_at(NEProblem.parameterize_net)", f"q.parameterize_net(_vals('u', {n}))", f"m = q.parameterize_net(_vals('v', {n}))"] + filled(shapes, net="m", label="parameterized network") + [keep, f"_elements('vector given before', _vals('u', {n}), 'u', 0, ({n},))"])
    add("network made", made + ["_at(NEProblem.make_net)", f"m = q.make_net(_vals('v', {n}))"] + filled(shapes, net="m", label="network made") + [keep])
    add("networks made", made + ["_at(NEProblem.make_net)", f"m = q.make_net(_vals('v', {n}))", f"k = q.make_net(_vals('u', {n}))"] + filled(shapes, net="m", label="network made") + filled(shapes, net="k", name="u", label="network made later"))
    for f, at in (("last", n - 1), ("first", 0)):
        add(f"evaluated on the {f} parameter", [last, f"q = NEProblem('max', given, {f})", "_at(NEProblem.parameterize_net)", "b = q.generate_batch(2)", f"b.set_values(_vals('w', 2, {n}))", "q.evaluate(b)", f"_elements('evaluations by the networks', b.evals[:, 0], 'w', [{at}, {n + at}], (2,))", f"_elements('values evaluated', b.values, 'w', 0, (2, {n}))"])
    return out


POSITIVE = """
import torch

class Net:
    def __init__(self, name):
        self.a = _vals("a" + name, 2, 3)
        self.b = _vals("b" + name, 2)

def good(net, v):
    net.a.view(-1)[:] = v[:6]
    net.b.copy_(v[6:])

def skipping(net, v):
    net.a.view(-1)[:] = v[:6]
    net.b.copy_(v[5:7])

def turned(net, v):
    net.a[:] = v[:6].reshape(3, 2).T
    net.b.copy_(v[6:])

def writing(net, v):
    good(net, v)
    v[2:4] = net.b

for name, f in (("good", good), ("skipping", skipping), ("turned", turned), ("writing", writing)):
    _at(f)
    v = _vals(name, 8)
    net = Net(name)
    f(net, v)
    _elements(name, net.a, name, 0, (2, 3))
    _elements(name, net.b, name, 6, (2,))
    _elements(name, v, name, 0, (8,))
"""


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=Obs, intr=INTR, domains=lambda: [Typed()]))
    got = sorted({f["construct"] for f in pos["found"]})
    ctx.counts["positive_examples_matched"] = len(got)
    if got != ["skipping", "turned", "writing"]:
        ctx.errors.append(f"positive example: findings {got} {pos['counts']}; {pos['error']}")
    ts = tasks()
    for t in ts:
        t.dead_is_finding = "network of given parameters"
    ctx.run(ts)
    ctx.need("elements decided", ctx.counts.get("elements_decided", 0), 300)
