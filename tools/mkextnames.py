#!/usr/bin/env python3
"""Write sa/data/ext_names.json: names defined by the external modules and base classes the package refers to.

Run once with an interpreter that has the dependencies installed; the checks only read the result.
"""
import ast
import importlib
import inspect
import json
import os

ROOT = "/repo/src/evotorch"
mods, out, sigs = set(), {}, {}
for dp, dn, fn in os.walk(ROOT):
    for f in fn:
        if f.endswith(".py"):
            for n in ast.walk(ast.parse(open(os.path.join(dp, f)).read())):
                if isinstance(n, ast.Import):
                    mods.update(a.name for a in n.names)
                elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module:
                    mods.add(n.module)
for m in sorted(mods | {"torch.nn.functional", "torch.distributions", "torch.optim", "torch.nn.init", "torch.linalg", "torch.utils.data", "torch.cuda", "torch.func", "numpy.random", "numpy.linalg", "os.path", "torch.random", "torch.jit"}):
    if m.startswith("evotorch"):
        continue
    try:
        mod = importlib.import_module(m)
    except Exception as e:
        print("skipped", m, type(e).__name__)
        continue
    if hasattr(mod, "__getattr__") and m not in ("torch", "numpy"):
        print("dynamic", m)
        continue
    out[m] = sorted(set(dir(mod)))
    for k in dir(mod):
        v = getattr(mod, k, None)
        if inspect.isclass(v) and k[:1].isupper():
            if not hasattr(v, "__getattr__") or v.__name__ in ("Module",):
                sigs[f"{m}.{k}"] = sorted(set(dir(v)))


def stored(v):
    """Attributes the methods of a class store on self."""
    r = set()
    for c in v.__mro__:
        try:
            t = ast.parse(inspect.cleandoc("\n" + inspect.getsource(c)))
        except Exception:
            continue
        r.update(n.attr for n in ast.walk(t) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self")
    return r


for q in list(sigs):
    m, _, k = q.rpartition(".")
    sigs[q] = sorted(set(sigs[q]) | stored(getattr(importlib.import_module(m), k)))
import torch.nn

sigs["torch.nn.Module"] = sorted(set(sigs["torch.nn.Module"]) | set(torch.nn.Module().__dict__) | {"training"})
# only the classes used as base classes or bound by name in the package
used = set()
for dp, dn, fn in os.walk(ROOT):
    for f in fn:
        if f.endswith(".py"):
            t = open(os.path.join(dp, f)).read()
            used.update(n.id for n in ast.walk(ast.parse(t)) if isinstance(n, ast.Name))
            used.update(n.attr for n in ast.walk(ast.parse(t)) if isinstance(n, ast.Attribute))
sigs = {k: v for k, v in sigs.items() if k.rpartition(".")[2] in used}
json.dump({"modules": out, "classes": sigs}, open("/verif/sa/data/ext_names.json", "w"), separators=(",", ":"))
print(len(out), "modules", len(sigs), "classes", os.path.getsize("/verif/sa/data/ext_names.json"))
