"""P14: masked operations of batched containers change only the selected items."""
from ..base import Obs, Task, run_task
from ..lanes import INTR, Typed

EXPLANATION = (
    "value numbering of the containers' contents; the resulting terms are simplified once for a batch item which the mask leaves out, where contents and lengths must be the term from before, "
    "and once for a selected item, where they must be the term of the operation without a mask"
)

HEAD = """
import torch
from evotorch.tools.structures import CMemory, CDict, CList, CBag

def memory(*dims):
    return _vals('mem', *dims)

w = _vals('mask', {b})
h = _vals('hist', {b})
"""

MEMORY = HEAD + """
ms = [CMemory({size}num_keys={keys}, batch_size={batch}{more}) for _ in range(2)]
for m in ms:
    m.data[:] = _vals('mem', {dims})
before = ms[0].data.clone()
key = {key}
val = {val}
_at(ms[0].{op})
ms[0].{op}({args}, w)
ms[1].{op}({args})
_masked("contents after {op}", {nb}, before, ms[0].data, ms[1].data)
"""

DICT = HEAD + """
ds = [CDict({size}num_keys={keys}, batch_size={batch}{more}) for _ in range(2)]
key = {key}
val = {val}
other = {other}
for d in ds:
    d.data[:] = _vals('mem', {dims})
    d.set_(other, val, h)
before = ds[0].data.clone()
flag = ds[0].contains(key).clone()
_at(ds[0].{op})
ds[0].{op}({args}w)
ds[1].{op}({args}{none})
{check}
"""

LIST = HEAD + """
ls = [CList({size}max_length={keys}, batch_size={batch}{more}) for _ in range(2)]
val = {val}
key = {key}
for l in ls:
    l.data[:] = _vals('mem', {dims})
    {history}
before = ls[0].data.clone()
length = ls[0].length.clone()
first = ls[0].get(0, default=0.0).clone()
_at(ls[0].{op})
ls[0].{op}({args}w)
ls[1].{op}({args}{none})
{check}
"""

BAG = HEAD + """
bs = [CBag(max_length=4, batch_size={batch}{more}) for _ in range(2)]
val = _vals('val', {b})
for b in bs:
    {history}
before = bs[0].data.clone()
length = bs[0].length.clone()
_at(bs[0].{op})
bs[0].{op}({args}w)
bs[1].{op}({args})
{check}
"""

POSITIVE = """
import torch

class Memory:
    def __init__(self):
        self.data = torch.empty(3, 4)
        self.items = torch.arange(3)

    def set_(self, key, value, where=None):
        address = (self.items, key)
        self.data[address] = value if where is None else torch.where(where, value, self.data[address])

class Leaky(Memory):
    def set_(self, key, value, where=None):
        self.data[self.items, key] = value

class Inverted(Memory):
    def set_(self, key, value, where=None):
        address = (self.items, key)
        old = self.data[address]
        self.data[address] = value if where is None else torch.where(where, old, value)

class Lame(Memory):
    def set_(self, key, value, where=None):
        address = (self.items, key)
        self.data[address] = self.data[address] if where is None else torch.where(where, value, self.data[address])

class Arithmetic(Memory):
    def set_(self, key, value, where=None):
        address = (self.items, key)
        old = self.data[address]
        self.data[address] = value if where is None else old + (value - old) * where

w = _vals('mask', 3)
for name, cls in (("leaky", Leaky), ("inverted", Inverted), ("lame", Lame), ("good", Memory), ("arithmetic", Arithmetic)):
    ms = [cls() for _ in range(2)]
    for m in ms:
        m.data[:] = _vals('mem', 3, 4)
    before = ms[0].data.clone()
    key = _vals('key', 3)
    ms[0].set_(key, _vals('val', 3), w)
    ms[1].set_(key, _vals('val', 3))
    _masked(name, 1, before, ms[0].data, ms[1].data)
"""


def shape(batch, keys, size):
    b = batch if isinstance(batch, tuple) else () if batch is None else (batch,)
    k = keys if isinstance(keys, tuple) else (keys,)
    return b, b + k + size


def text(dims):
    return ", ".join(str(x) for x in dims)


def vals(name, dims):
    return f"_vals('{name}', {text(dims)})" if dims else f"torch.as_tensor(_vals('{name}', 1))[0]"


def tasks():
    out = []
    shapes = [(3, 4, ()), (3, 4, (2,)), (3, 3, (3,)), (3, (4, 5), ()), ((2, 3), 4, ()), ((3, 3), 4, (2,))]
    ops = [("set_", "key, val"), ("add_", "key, val"), ("subtract_", "key, val"), ("multiply_", "key, val"), ("divide_", "key, val")]
    for batch, keys, size in shapes:
        b, dims = shape(batch, keys, size)
        kd = b + ((len(keys),) if isinstance(keys, tuple) else ())
        common = dict(b=text(b), nb=len(b), size="".join(f"{x}, " for x in size), keys=keys, batch=batch, dims=text(dims))
        for key, kname in ((vals("key", kd), "keys"), (("2" if not isinstance(keys, tuple) else "(2, 1)"), "one key")):
            for val, vname in ((vals("val", b + size), "values"), ("2.5", "one value")):
                for op, args in ops + [("add_circular_", "key, val, 3")]:
                    for more in ("", ", verify=False", ", key_offset=2", ", dtype=torch.bool", ", dtype=torch.int64"):
                        if "bool" in more and op not in ("set_", "add_", "multiply_") or "int64" in more and op == "divide_":
                            continue
                        if vname == "one value" and more or kname == "one key" and "dtype" in more:
                            continue
                        out.append((f"CMemory {batch} {keys} {size} {op} {kname} {vname}{more}", MEMORY.format(key=key, val=val, op=op, args=args, more=more, **common)))
        for op, args in ops:
            for more in ("", ", key_offset=2"):
                chk = f"_masked('values after {op}', {len(b)}, before, ds[0].data, ds[1].data)"
                if op == "set_":
                    chk += f"\n_masked('existence after {op}', {len(b)}, flag, ds[0].contains(key), ds[1].contains(key))"
                out.append((f"CDict {batch} {keys} {size} {op}{more}", DICT.format(key=vals("key", kd), other=vals("other", kd), val=vals("val", b + size), op=op, args=args + ", ", none="None", more=more, check=chk, **common)))
        chk = f"_masked('existence after clear', {len(b)}, flag, ds[0].contains(key), ds[1].contains(key))"
        out.append((f"CDict {batch} {keys} {size} clear", DICT.format(key=vals("key", kd), other=vals("other", kd), val=vals("val", b + size), op="clear", args="", none="", more="", check=chk, **common)))
        if isinstance(keys, tuple):
            continue
        histories = [("", "empty"), ("l.append_(_vals('first', %s))" % text(b + size), "one element"), ("l.append_(_vals('first', %s), h)" % text(b + size), "one element in some"), ("l.append_(_vals('first', %s)); l.appendleft_(_vals('second', %s), h)" % (text(b + size), text(b + size)), "several elements")]
        for hist, hname in histories:
            for more in ("", ", verify=False"):
                for op, args in [(o, a + ", ") for o, a in ops] + [("append_", "val, "), ("push_", "val, "), ("appendleft_", "val, "), ("pop_", ""), ("popleft_", ""), ("clear", "")]:
                    if not hist and op not in ("append_", "push_", "appendleft_"):
                        continue
                    chk = []
                    if args:
                        chk.append(f"_masked('contents after {op}', {len(b)}, before, ls[0].data, ls[1].data)")
                    if not args.startswith("key"):
                        chk.append(f"_masked('lengths after {op}', {len(b)}, length, ls[0].length, ls[1].length)")
                    out.append((f"CList {batch} {keys} {size} {hname} {op}{more}", LIST.format(history=hist or "pass", key="0", val=vals("val", b + size), op=op, args=args, none="", more=more, check="\n".join(chk), **common)))
    for batch in (3, (2, 3)):
        b = batch if isinstance(batch, tuple) else (batch,)
        for hist, hname in (("pass", "empty"), (f"b.push_(_vals('first', {text(b)}))", "one element"), (f"b.push_(_vals('first', {text(b)}), h)", "one element in some")):
            for op, args in (("push_", "val, "), ("pop_", "")):
                if hist == "pass" and op == "pop_":
                    continue
                chk = f"_masked('lengths after {op}', {len(b)}, length, bs[0].length, bs[1].length)"
                if args:
                    chk += f"\n_masked('contents after {op}', {len(b)}, before, bs[0].data, bs[1].data)"
                for more in ("", ", verify=False"):
                    out.append((f"CBag {batch} {hname} {op}{more}", BAG.format(b=text(b), batch=batch, history=hist, op=op, args=args, check=chk, more=more)))
    return [Task(n, s, obs=Obs, intr=INTR, domains=lambda: [Typed()]) for n, s in out]


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=Obs, intr=INTR, domains=lambda: [Typed()]))
    got = sorted({f["construct"] for f in pos["found"]})
    ctx.counts["positive_examples_matched"] = len(got)
    if got != ["inverted", "lame", "leaky"] or pos["counts"].get("items_decided") != 15:
        ctx.errors.append(f"positive example: findings {got} {pos['counts']}; {pos['error']}")
    ctx.run(tasks())
    ctx.need("items decided", ctx.counts.get("items_decided", 0), 300)
