"""P26: batched containers return what was stored in them."""
from itertools import product

from ..base import Obs, Task, run_task
from ..lanes import INTR, Folding
from .p14 import shape, text, vals

EXPLANATION = (
    "value numbering of the containers' contents with constant propagation of positions: sequences of operations on symbolic values are interpreted abstractly, and what reading returns is compared, "
    "as a term in normal form, with what a plain memory, dictionary or queue holds after the same operations"
)

HEAD = """
import torch
from evotorch.tools.structures import CMemory, CDict, CList, CBag
"""

POSITIVE = """
import torch

class Queue:
    def __init__(self):
        self.data = torch.empty(3, 4)
        self.items = torch.arange(3)
        self.begin = torch.zeros(3, dtype=torch.int64)
        self.length = torch.zeros(3, dtype=torch.int64)

    def append_(self, value):
        self.length = self.length + 1
        self.data[self.items, (self.begin + self.length - 1) % 4] = value

    def appendleft_(self, value):
        self.begin = (self.begin - 1) % 4
        self.length = self.length + 1
        self.data[self.items, self.begin] = value

    def pop_(self):
        self.length = self.length - 1

    def get(self, i):
        return self.data[self.items, (self.begin + (i if i >= 0 else self.length + i)) % 4]

class Shifted(Queue):
    def appendleft_(self, value):
        self.begin = (self.begin - 1) % 4
        self.length = self.length + 1
        self.data[self.items, (self.begin + 1) % 4] = value

class Stuck(Queue):
    def pop_(self):
        return self.get(-1)

for name, cls in (("shifted", Shifted), ("stuck", Stuck), ("good", Queue)):
    l = cls()
    l.append_(_vals('a', 3))
    l.append_(_vals('b', 3))
    l.appendleft_(_vals('c', 3))
    _equal(name, 1, l.get(0), _vals('c', 3))
    l.pop_()
    _equal(name, 1, l.length, 2)
    _equal(name, 1, l.get(-1), _vals('a', 3))
"""


def queue(capacity, batch, size, ops, more, last=False):
    """Harness for a sequence of operations on a list, checked after each (or only the last) of them."""
    b, dims = shape(batch, capacity, size)
    nb = len(b)
    out = [HEAD, f"l = CList({''.join(f'{x}, ' for x in size)}max_length={capacity}, batch_size={batch}{more})"]
    state = []
    made = 0
    for i, op in enumerate(ops):
        out.append(f"_at(l.{op})")
        if op in ("append_", "push_", "appendleft_"):
            v = vals("v%d" % made, b + size)
            made += 1
            out.append(f"l.{op}({v})")
            state = [v] + state if op == "appendleft_" else state + [v]
        elif op in ("pop_", "popleft_"):
            out.append(f"l.{op}()" if last and i < len(ops) - 1 else f"_equal('element returned by {op}', {nb}, l.{op}(), {state[-1] if op == 'pop_' else state[0]})")
            state = state[:-1] if op == "pop_" else state[1:]
        elif op == "clear":
            out.append("l.clear()")
            state = []
        else:
            # the middle element is replaced or combined with another value
            j = len(state) // 2
            v = vals("v%d" % made, b + size)
            made += 1
            out.append(f"l.{op}({j}, {v})")
            old = state[j]
            state[j] = {"set_": v, "add_": f"{old} + {v}", "multiply_": f"({old}) * {v}", "subtract_": f"{old} - {v}", "divide_": f"({old}) * (1 / {v})"}[op]
        if last and i < len(ops) - 1:
            continue
        out.append(f"_equal('length after {op}', {nb}, l.length, {len(state)})")
        for j, v in enumerate(state):
            out.append(f"_equal('element counted from the left after {op}', {nb}, l.get({j}), {v})")
            out.append(f"_equal('element counted from the right after {op}', {nb}, l[{j - len(state)}], {v})")
            out.append(f"_equal('element read with a default after {op}', {nb}, l.get({j}, default=7.0), {v})")
        for j in {len(state), capacity, -len(state) - 1, -capacity - 1, capacity + 1}:
            out.append(f"_equal('default for a missing element after {op}', {nb}, l.get({j}, default=7.0), 7.0)")
    return "\n".join(out) + "\n"


REFUSE = """
refused = False
_at({at})
try:
    _trying()
    {call}
    _accepted({label!r})
except {error}:
    refused = True
_refused({label!r}, refused)
"""


def refuse(what, call):
    at = call.split("(")[0]
    return REFUSE.format(at=what + ".get" if "[" in call else at, call=call, error="(IndexError, KeyError)", label="invalid " + call)


def refusals():
    """Operations which must be refused; that valid ones are accepted follows from the values read back."""
    for batch in (None, 3, (2, 3)):
        for capacity in (1, 2, 3):
            for first in (("append_",), ("appendleft_",), ("append_", "append_", "popleft_", "append_", "append_"), ("appendleft_", "append_", "pop_")):
                n = sum(1 if o.startswith("app") else -1 for o in first)
                most = max(sum(1 if o.startswith("app") else -1 for o in first[: i + 1]) for i in range(len(first)))
                if most > capacity:
                    continue
                head = HEAD + f"l = CList(max_length={capacity}, batch_size={batch})\n" + "\n".join(f"l.{o}({'1.0' if o.startswith('app') else ''})" for o in first) + "\n"
                for op in ("append_", "appendleft_", "push_") if n == capacity else ():
                    yield f"refusal {batch} {capacity} {' '.join(first)} {op}", head + refuse("l", f"l.{op}(1.0)")
                for op in ("pop_", "popleft_"):
                    yield f"refusal {batch} {capacity} {' '.join(first)} clear {op}", head + "l.clear()\n" + refuse("l", f"l.{op}()")
                for j in sorted({-capacity - 1, -n - 1, n, capacity, capacity + 1}):
                    yield f"refusal {batch} {capacity} {' '.join(first)} [{j}]", head + refuse("l", f"l[{j}]")
                    yield f"refusal {batch} {capacity} {' '.join(first)} set {j}", head + refuse("l", f"l.set_({j}, 2.0)")
        for cls in ("CMemory", "CDict"):
            for keys, offset, js in ((4, None, (-1, 4)), (4, 2, (1, 6)), (4, -2, (-3, 2))):
                head = HEAD + f"m = {cls}(num_keys={keys}, key_offset={offset}, batch_size={batch})\n"
                for j in js:
                    yield f"refusal {cls} {batch} {offset} {j}", head + refuse("m", f"m.set_({j}, 1.0)")
                    yield f"refusal {cls} {batch} {offset} [{j}]", head + refuse("m", f"m[{j}]")


def sequences(capacity, n):
    """Sequences of n operations which neither overfill the list nor empty it too far."""
    for ops in product(("append_", "appendleft_", "pop_", "popleft_"), repeat=n):
        k = 0
        for o in ops:
            k += 1 if o.startswith("app") else -1
            if not 0 <= k <= capacity:
                break
        else:
            yield ops


MEMORY = HEAD + """
m = CMemory({size}num_keys={keys}, batch_size={batch}{more})
m.data[:] = _vals('mem', {dims})
key = {key}
old = m.get(key).clone()
val = {val}
aside = m.get({other}).clone()
_at(m.{op})
m.{op}(key, val{extra})
if {constant}:
    _equal("value of another key after {op}", {nb}, m.get({other}), aside)
_equal("value after {op}", {nb}, m.get(key), {expected})
_equal("value after {op}", {nb}, m[key], {expected})
m.set_(key, old)
_equal("value after set_", {nb}, m[key], old)
m[key] = val
_equal("value after assignment", {nb}, m[key], val)
"""

DICT = HEAD + """
d = CDict({size}num_keys={keys}, batch_size={batch}{more})
d.data[:] = _vals('mem', {dims})
key = {key}
val = {val}
_at(d.contains)
_equal("existence in a new dictionary", {nb}, d.contains(key), False)
_equal("default for a missing key", {nb}, d.get(key, default=7.0), 7.0)
_at(d.{op})
old = d.get(key).clone()
d.{op}(key, val)
_equal("value after {op}", {nb}, d[key], {expected})
_equal("existence after {op}", {nb}, d.contains(key), {exists})
_equal("existence of another key after {op}", {nb}, d.contains({absent}), {absentexists})
d[key] = val
_equal("value after assignment", {nb}, d[key], val)
_equal("value read with a default", {nb}, d.get(key, default=7.0), val)
_equal("existence after assignment", {nb}, d.contains(key), True)
_at(d.clear)
d.clear()
_equal("existence after clear", {nb}, d.contains(key), False)
_equal("default after clear", {nb}, d.get(key, default=7.0), 7.0)
"""

FILL = HEAD + """
m = CMemory({size}num_keys={keys}, batch_size={batch}, fill_with=2.5)
_at(m.get)
_equal("filling value", {nb}, m.get({key}), 2.5)
b = CBag(max_length=4, batch_size={batch})
_at(b.push_)
b.push_({bval})
b.push_({bval})
_equal("length of a bag after two elements", {nb}, b.length, 2)
b.pop_()
_equal("length of a bag after one is taken", {nb}, b.length, 1)
b.pop_()
_equal("length of a bag after all are taken", {nb}, b.length, 0)
b.clear()
_equal("length of a bag after clear", {nb}, b.length, 0)
b.push_({bval})
_equal("length of a bag used again", {nb}, b.length, 1)
"""


def tasks():
    out = []
    for capacity, n in ((1, 2), (1, 3), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4), (3, 5)):
        for ops in sequences(capacity, n):
            out.append((f"CList capacity {capacity} {' '.join(ops)}", queue(capacity, 3, (), ops, "", True)))
    for batch, size, more in ((None, (), ""), (3, (2,), ""), ((2, 3), (), ""), (3, (), ", verify=False"), ((3, 3), (3,), ", verify=False")):
        for ops in (("append_", "append_", "popleft_", "append_", "append_", "popleft_", "append_", "pop_"), ("appendleft_", "appendleft_", "appendleft_", "pop_", "appendleft_", "popleft_", "clear", "push_", "appendleft_"), ("append_", "append_", "append_", "popleft_", "push_", "clear", "appendleft_", "append_")):
            out.append((f"CList {batch} {size}{more} {' '.join(ops)}", queue(3, batch, size, ops, more)))
    for op in ("set_", "add_", "subtract_", "multiply_", "divide_"):
        for first in (("append_", "append_"), ("append_", "append_", "append_", "popleft_", "append_"), ("appendleft_", "append_", "popleft_", "append_")):
            for more in ("", ", verify=False"):
                out.append((f"CList {' '.join(first)} {op}{more}", queue(3, 3, (), first + (op,), more)))
    for batch, keys, size in ((3, 4, ()), (None, 4, ()), (3, 4, (2,)), (3, (4, 5), ()), ((2, 3), 4, ()), ((3, 3), (3, 3), (3,))):
        b, dims = shape(batch, keys, size)
        kd = b + ((len(keys),) if isinstance(keys, tuple) else ())
        common = dict(nb=len(b), size="".join(f"{x}, " for x in size), keys=keys, batch=batch, dims=text(dims), val=vals("val", b + size))
        for key in (vals("key", kd), "(2, 1)" if isinstance(keys, tuple) else "2", "(0, 0)" if isinstance(keys, tuple) else "0", f"({keys[0]} - 1, {keys[1]} - 1)" if isinstance(keys, tuple) else f"{keys} - 1"):
            # only constant keys are certainly different
            common["other"] = "key" if "_vals" in key else "(1, 2)" if isinstance(keys, tuple) else "1"
            common["constant"] = "_vals" not in key
            common["absent"] = common["other"]
            if not kd and "_vals" in key:
                key = "torch.as_tensor(_vals('key', 1))[0]"
            for op, expected in (("set_", "val"), ("add_", "old + val"), ("subtract_", "old - val"), ("multiply_", "old * val"), ("divide_", "old * (1 / val)"), ("add_circular_", "(old + val) % 5")):
                for more in ("", ", verify=False", ", key_offset=1", ", dtype=torch.bool"):
                    if "offset" in more and "0" in key:
                        continue
                    ex = expected
                    if "bool" in more:
                        ex = {"set_": "val", "add_": "old | val", "multiply_": "old & val"}.get(op)
                        if ex is None:
                            continue
                    out.append((f"CMemory {batch} {keys} {size} {op} {key}{more}", MEMORY.format(key=key, op=op, expected=ex, extra=", 5" if op == "add_circular_" else "", more=more, **common)))
                    if "bool" not in more and op != "add_circular_":
                        out.append((f"CDict {batch} {keys} {size} {op} {key}{more}", DICT.format(key=key, op=op, expected=ex, exists=op == "set_", absentexists=op == "set_" and common["other"] == "key", more=more, **common)))
        out.append((f"filled {batch} {keys} {size}", FILL.format(key="(2, 1)" if isinstance(keys, tuple) else "2", bval=vals("x", b), **common)))
    out.extend(refusals())
    return [Task(n, s, obs=Obs, intr=INTR, domains=lambda: [Folding()]) for n, s in out]


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=Obs, intr=INTR, domains=lambda: [Folding()]))
    got = sorted({f["construct"] for f in pos["found"]})
    ctx.counts["positive_examples_matched"] = len(got)
    if got != ["shifted", "stuck"] or pos["counts"].get("values_decided") != 9:
        ctx.errors.append(f"positive example: findings {got} {pos['counts']}; {pos['error']}")
    ctx.run(tasks())
    ctx.need("refusals decided", ctx.counts.get("refusals_decided", 0), 100)
    ctx.need("values decided", ctx.counts.get("values_decided", 0), 1000)
