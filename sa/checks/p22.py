"""P22: every internal reference and call of the library resolves."""
from ..prog import Program
from ..refs import Refs

EXPLANATION = (
    "name, attribute and signature resolution over the whole package: scopes of every function, attributes of every object whose class is known (self, class objects, annotated parameters, "
    "constructed objects, attributes and results of known type, super()), module attributes and imports, and the arguments of every call whose target is known, including methods named in remote calls"
)

# every rule must match its example on every run
POSITIVE = '''
import math
from .core import Problem, no_such_name
from . import tools


class _A:
    def __init__(self, x, *, y=1):
        self._x = x

    @property
    def z(self):
        return self._x

    def one(self, a, b=2):
        return self._missing

    def two(self):
        self.z = 1
        self.one(1, 2, 3)
        return self.one(1, c=3)


class _B(_A):
    def one(self, a):
        return super().no_such_method(a)

    def three(self, prob: Problem):
        prob.no_such_attribute
        prob.evaluate()
        other = _A(1, w=2)
        other.nothing
        tools.no_such_tool
        math.no_such_function
        return undefined_name

    def four(self, actor):
        actor.no_such_worker_method.remote(1)
        return actor.call.remote("no_such_remote", [], {})
'''
EXPECTED = ["arguments", "arguments", "arguments", "arguments", "attribute", "attribute", "attribute", "attribute", "attribute", "attribute", "external-attribute", "import", "module-attribute", "no-setter", "undefined-name"]


def run(ctx):
    prog = Program()
    p2 = Program()
    p2.add_module("evotorch._positive", p2.root + "/_positive.py", POSITIVE)
    got = sorted(f["rule"] for f in Refs(p2, {"evotorch._positive"}).run().found)
    ctx.counts["positive_examples_matched"] = len(got)
    if got != EXPECTED:
        ctx.errors.append(f"positive examples: findings {got}")
    r = Refs(prog).run()
    for f in r.found:
        ctx.add(f)
    for n, k in r.counts.items():
        ctx.counts[n] = k
    ctx.functions.update(fi.qual for fi in prog.all_funcs)
    for name, least in (("modules", 40), ("functions", 700), ("names_resolved", 9000), ("attributes_resolved", 2000), ("calls_resolved", 700), ("imports_resolved", 400), ("remote_calls_resolved", 3)):
        ctx.need(name, r.counts.get(name, 0), least)
