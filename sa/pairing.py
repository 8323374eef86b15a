"""Whether evaluation results and values of solutions belong together: value numbers compared row by row."""
from . import rays, valnum
from .base import kconst
from .events import INTR as EVENTS
from .events import found
from .vals import NONE, HObj, Ref, absv
from .valnum import TERMS, Columns, Rows, agree, intern, shaped, tell


def domain(it):
    return next(d for d in it.domains if d.name == "vn")


def i_vals(it, a, kw, n):
    """_vals(name, rows, columns): values of new solutions."""
    c = [kconst(x) for x in a]
    i = shaped(intern(("in", c[0])), tuple(c[1:]))
    nm = "in:" + c[0]
    if it.st.content.get(nm) is None:
        it.st.content[nm] = {"vn": frozenset([i]), "dims": frozenset([tuple(c[1:])])}
    return absv("tensor", [nm])


def i_index(it, a, kw, n):
    """_index(name, length): a tensor of indices; _index(name, length, True): a mask."""
    c = [kconst(x) for x in a]
    ik = "bool" if len(c) > 2 else "int"
    i = shaped(intern(("in", c[0])), (c[1],))
    valnum.INDEX[i] = ik
    nm = "in:" + c[0]
    if it.st.content.get(nm) is None:
        it.st.content[nm] = {"vn": frozenset([i]), "dims": frozenset([(c[1],)]), "ik": frozenset([ik])}
    return absv("tensor", [nm])


def i_evalof(it, a, kw, n):
    """_evalof(values, columns=None, first=0): results of evaluating the solutions with these values; `first` is the number of the first of them."""
    d = domain(it)
    x, dims = d.of(it, a[0]), d.dims(it, a[0])
    m = kconst(a[1]) if len(a) > 1 else None
    off = (kconst(a[2]),) if len(a) > 2 else ()
    c = {}
    if dims is not None:
        dims = dims[:-1] + ((m,) if m is not None else ())
        c["dims"] = frozenset([dims])
    if x is not None:
        c["vn"] = frozenset([shaped(intern(("eval", x) + ((m,) if m is not None else ()) + off), dims)])
    return it.fresh(n, "tensor", "evalof", c)


def same(x, e):
    """Whether `e` holds the results of evaluating all of `x`, however many solutions these are."""
    t = TERMS[e]
    if t[0] in ("reshape", "view", "unsqueeze"):
        e, t = t[1], TERMS[t[1]]
    return t[:2] == ("eval", x) or t[0] == TERMS[x][0] == "getitem" and t[2] == TERMS[x][2] and same(TERMS[x][1], t[1])


def i_paired(it, a, kw, n):
    """_paired(label, values, evals, evaluated=False): each row of `evals` belongs to the solution in that row of `values`."""
    d = domain(it)
    label = kconst(a[0])
    must = len(a) > 3
    vs, es = a[1], a[2]
    x, e = d.of(it, vs), d.of(it, es)
    rows = Rows()
    rx = rows.of(x) if x is not None else None
    re = rows.of(e) if e is not None else None
    und = rx is None or re is None or rx[0] == "nan" or re[0] != "nan" and len(rx) != len(re)
    if und and x is not None and e is not None and same(x, e):
        und = False
    elif not und:
        es = [("nan",)] * (len(rx) - 1) if re[0] == "nan" else re[1:]
        for j, (p, q) in enumerate(zip(rx[1:], es)):
            ok = agree(p, q)
            if must and q == ("nan",):
                ok = False
            if ok is None:
                und = True
            elif not ok:
                found(it, "wrong-result" if must else "mispaired", label, f"row {j}: values of {tell(p)}, evaluation results: {tell(q)}")
                return NONE
    cols = Columns().of(e) if e is not None else None
    de = d.dims(it, a[2])
    if cols is not None and de is not None and len(de) == 2 and len(cols) == de[1]:
        for j, c in enumerate(cols):
            if c == "mix" or isinstance(c, int) and c != j:
                found(it, "wrong-result" if must else "mispaired", label, f"column {j} of the evaluation results holds " + ("different results" if c == "mix" else f"result number {c}"))
                return NONE
            if must and c == "-" and "all" in [kconst(x) for x in a[3:]]:
                found(it, "wrong-result", label, f"column {j} of the evaluation results is left without results")
                return NONE
        if not und:
            it.obs.count("columns_decided")
    it.obs.count("pairs_undecided" if und else "pairs_decided")
    if und:
        it.obs.count("undecided: " + label)
    return NONE


def i_each(it, a, kw, n):
    """_each(x): the objects that x may be, in a tuple."""
    out = []
    for v in [frozenset([x]) for x in sorted(a[0], key=repr) if isinstance(x, Ref)]:
        h = it.st.heap.get(next(iter(v)).oid)
        if h is not None and h.kind in ("list", "tuple"):
            out += [frozenset([z]) for y in (h.items if h.items is not None else [h.elem]) for z in y if isinstance(z, Ref)]
        else:
            out.append(v)
    return frozenset([it.alloc(n, "each", HObj("tuple", items=tuple(out)))])


INTR = dict(EVENTS, **rays.INTR)
INTR.update(_vals=i_vals, _index=i_index, _evalof=i_evalof, _paired=i_paired, _each=i_each)
