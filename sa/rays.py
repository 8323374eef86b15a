"""Model of ray: actors are objects of their own, made from copies; arguments and results of remote calls are copies; unordered maps return their results in another order."""
from .ext import pickle_clone
from .vals import ANY, BM, E, NONE, ClsA, V, join_v

SRC = '''
class ActorPool:
    def __init__(self, actors):
        self.actors = list(actors)

    def map(self, fn, values):
        out = []
        for i, v in enumerate(values):
            out.append(fn(_ray_actor(self.actors, i), v))
        return out

    def map_unordered(self, fn, values):
        return _ray_unordered(self.map(fn, values))
'''


def sent(it, vs, node):
    memo = {}
    return [pickle_clone(it, v, node, memo) for v in vs]


def model(it, t, q, args, kwargs, node):
    if q == "ray.cls.options":
        return V(t.recv)
    if q == "ray.cls.remote":
        names = sorted(kwargs)
        vs = sent(it, list(args) + [kwargs[n] for n in names], node)
        return it.instantiate(t.recv.ci, vs[: len(args)], dict(zip(names, vs[len(args):])), node)
    if q == "ray.bound":
        names = sorted(kwargs)
        vs = sent(it, list(args) + [kwargs[n] for n in names], node)
        r = it.call(V(t.recv), vs[: len(args)], dict(zip(names, vs[len(args):])), node)
        return sent(it, [r], node)[0]
    if q in ("ray.get", "ray.put"):
        return sent(it, [args[0]], node)[0]
    if q == "ray.util.ActorPool":
        m = it.prog.modules.get("h:ray") or it.prog.add_module("h:ray", "ray", SRC)
        return it.instantiate(m.classes["ActorPool"], args, kwargs, node)
    return None


def i_actor(it, a, kw, n):
    ex = it.exact_items(a[0])
    i = [x.v for x in a[1] if hasattr(x, "v")]
    if ex and len(i) == 1 and len(a[1]) == 1 and isinstance(i[0], int):
        return ex[i[0] % len(ex)]
    return it.iter_elem(a[0], n)


def i_unordered(it, a, kw, n):
    ex = it.exact_items(a[0])
    return it.mk_list(n, ex[::-1]) if ex is not None else a[0]


INTR = {"@ray": model, "_ray_actor": i_actor, "_ray_unordered": i_unordered}
