"""How the population of the next generation is chosen: value numbers with the generation of each evaluation."""
from .base import kconst
from .events import found
from .pairing import INTR as PAIRING
from .pairing import domain
from .valnum import TERMS, Rows, intern, shaped
from .vals import NONE


class Stamped(Rows):
    """Rows of evaluation results, each with the generation in which it was evaluated."""

    def compute(self, i):
        t = TERMS[i]
        if t[0] == "eval" and len(t) == 5:
            b = Rows().of(t[1])
            return None if b is None or b[0] == "nan" else b[:1] + tuple(("at", t[4], r) for r in b[1:])
        return Rows.compute(self, i)


def i_evalat(it, a, kw, n):
    """_evalat(values, columns, generation): results of evaluating the solutions in a generation."""
    d = domain(it)
    x, dims, m, g = d.of(it, a[0]), d.dims(it, a[0]), kconst(a[1]), kconst(a[2])
    c = {}
    if dims is not None:
        dims = dims[:-1] + (m,)
        c["dims"] = frozenset([dims])
    if x is not None and g is not None:
        c["vn"] = frozenset([shaped(intern(("eval", x, m, 0, g)), dims)])
    return it.fresh(n, "tensor", "evalof", c)


def ages(r):
    """Generations of the evaluations in a row of results; "-" for one not evaluated, "?" for one not understood."""
    if r[:1] == ("nan",):
        return {"-"}
    if r[:1] == ("at",):
        return {r[1]}
    if r[:1] == ("?",) or r[:1] == ("opaque",):
        return {"?"}
    out = {y for x in r if isinstance(x, tuple) and x for y in ages(x)}
    return out or ({"?"} if r[:1] not in (("rows",), ("one",)) else set())


def grounds(i, seen=None):
    """What an index is computed from: generations of evaluations, "-" for results which are not there."""
    seen = set() if seen is None else seen
    if i in seen or not isinstance(i, int) or i >= len(TERMS):
        return set()
    seen.add(i)
    t = TERMS[i]
    if t[0] == "eval":
        return {t[4]} if len(t) == 5 else {"?"}
    if t[0] == "put" and TERMS[t[1]][0] == "nan":
        return grounds(t[2], seen) | grounds(t[3], seen)
    if t[0] == "nan":
        return {"-"}
    if t[0] in ("made", "random", "any"):
        return {"?"}
    if t[0] in ("k", "in"):
        return set()
    return {y for x in t[1:] for z in (x if isinstance(x, tuple) else (x,)) if isinstance(z, int) for y in grounds(z, seen)}


def first_of(i):
    """How many of the foremost items an index leaves out; None when it is not an order cut to its beginning."""
    t = TERMS[i]
    if t[0] in ("argsort", "sort.indices", "topk.indices"):
        return 0
    if t[0] == "getitem":
        b = first_of(t[1])
        s = TERMS[t[2]]
        if b is not None and s[0] == "s" and TERMS[s[3]] == ("k", None):
            k = TERMS[s[1]]
            if k == ("k", None) or k[0] == "k" and isinstance(k[1], int) and k[1] >= 0:
                return b + (k[1] or 0)
    return None


def among_children(after, before, picks, children):
    """What is wrong with a population of children, completed by the best solutions before when there are fewer of them."""
    n = len(after)
    if children > n:
        if not picks:
            return "some children are left out without regard to fitness"
        for r in picks:
            if any(x in before for x in r[1][1:]):
                return "solutions of the population before take part although there are children enough"
            if len(r[1]) - 1 != children:
                return f"only {len(r[1]) - 1} of the {children} children take part in the selection"
            if first_of(r[2]):
                return f"the best {first_of(r[2])} of the children are left out"
    elif children < n:
        if len(picks) != n - children:
            return f"{len(picks)} solutions are chosen by fitness where {n - children} are missing"
        for r in picks:
            if set(r[1][1:]) != set(before):
                return "the missing solutions are not chosen among all solutions of the population before"
            if first_of(r[2]):
                return f"the best {first_of(r[2])} of the solutions of the population before are left out"
    return None


def i_kept(it, a, kw, n):
    """_kept(label, values before, values after, results after, generation, elitist, renewed[, number of children[, number of elites]])"""
    d = domain(it)
    label, g, elitist, renewed = kconst(a[0]), kconst(a[4]), kconst(a[5]), kconst(a[6])
    children, elites = (kconst(a[j]) if len(a) > j else None for j in (7, 8))
    before, after, res = (d.of(it, v) for v in a[1:4])
    rows = Rows()
    rb, ra = (rows.of(x) if x is not None else None for x in (before, after))
    re = Stamped().of(res) if res is not None else None
    bad = None
    decided = True
    if re is None or re[0] == "nan":
        decided = re is not None
        bad = "the population is not evaluated" if re is not None else None
    else:
        got = {x for r in re[1:] for x in ages(r)}
        if "-" in got:
            bad = "the population contains solutions which are not evaluated"
        elif renewed and got - {"?", g}:
            bad = f"the population contains results of generation {min(got - {'?', g})} in generation {g}"
        decided = bad is not None or "?" not in got
    if bad is None and ra is not None and ra[0] == "rows" and rb is not None and rb[0] == "rows":
        picks = [r for r in ra[1:] if r[0] == "pick"]
        for r in picks:
            w = grounds(r[2])
            if w and "?" not in w and ("-" in w or renewed and g not in w):
                bad = "solutions are chosen by " + ("results which are not there" if "-" in w else f"results of generation {min(w)} in generation {g}")
                break
        if elitist and bad is None:
            if not picks and all(r[0] in ("opaque", "made", "sampled") or len(r) == 2 for r in ra[1:]):
                bad = "the population is not chosen by fitness" if any(r in rb[1:] for r in ra[1:]) else "no solution of the population before is considered"
            for r in picks:
                f = first_of(r[2])
                missing = [x for x in rb[1:] if x not in r[1][1:]]
                if missing and not any(x[0] == "mix" for x in r[1][1:]):
                    bad = f"{len(missing)} of the {len(rb) - 1} solutions of the population before do not take part in the selection"
                elif all(x in rb[1:] for x in r[1][1:]):
                    bad = "the children do not take part in the selection"
                elif f:
                    bad = f"the best {f} of the solutions are left out"
                if bad:
                    break
            if len(picks) != len(ra) - 1 and bad is None:
                decided = False
        if children is not None and bad is None and not elitist and all(r[0] in ("opaque", "made", "pick", "where") for r in ra[1:]) and all(first_of(r[2]) is not None for r in picks):
            bad = among_children(ra[1:], rb[1:], picks, children)
        if elites and bad is None:
            pools = [r[1][1:] for r in picks]
            best = [{x[3] for x in p if x[0] == "pick" and x[1] == rb and first_of(x[2]) == 0} for p in pools]
            if not pools or any(x[0] == "mix" for p in pools for x in p):
                decided = False
            elif not all(set(range(elites)) <= b for b in best):
                bad = f"the best {elites} of the solutions of the population before do not take part in the selection"
    elif bad is None and (elitist or children is not None or elites):
        decided = False
    it.obs.count("selections_decided" if decided else "selections_undecided")
    if bad:
        found(it, "selection", label, bad)
    elif not decided:
        it.obs.count("undecided: " + label)
    return NONE


INTR = dict(PAIRING, _evalat=i_evalat, _kept=i_kept)
