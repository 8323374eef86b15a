"""P09: the best and worst solutions on record are sense-correct independent copies."""
import re

from ..base import Finding, Obs, Task, finding, kconst, run_task
from ..polarity import Polarity, known
from ..vals import NONE, Abs, Ref
from .common import PROBLEM
from .p08 import i_expect

EXPLANATION = (
    "sign analysis with control dependence: evaluation results carry the direction in which they are better; a stored record of the best (worst) solution may only be written where the last "
    "comparison of scores on every path says that the new one is strictly better (worse) than the record; the records' direction and storages are compared with the batch's"
)


class RecordObs(Obs):
    """Writes of solutions or scores known to be the best / worst of a batch into objects marked as records."""

    def write(self, it, ids, node, how, val):
        if it.mute or val is None:
            return
        if not any("record" in it.st.frozen.get(i, ()) for i in ids if isinstance(i, str)):
            return
        pick = picked(it, val)
        if not pick:
            self.count("record_writes_undecided")
            return
        guard = it.st.dom.get("guard") or frozenset(["none"])
        if "unknown" in guard:
            self.count("record_writes_undecided")
            return
        self.count("record_writes_decided")
        for p in pick:
            m = re.match(r"(best|worst)(\d*)$", p)
            if not m:
                continue
            ok = {"init", f"best:better{m[2]}" if m[1] == "best" else f"worst:worse{m[2]}"}
            if guard & ok:
                # the value before the first evaluation is one of the alternatives
                ok |= {g + " than a constant" for g in ok}
            bad = sorted(guard - ok)
            if bad:
                says = {"none": "no comparison at all"}
                self.add(finding(it, "record-replaced", node, f"the record is replaced by the {m[1]} solution of the batch (objective {m[2]}) where the comparison of scores says: {', '.join(says.get(b, b) for b in bad)}"))


def picked(it, v):
    r = known(it, frozenset(a for a in v if isinstance(a, Abs)), "pick")
    if r:
        return r
    for a in v:
        if isinstance(a, Ref):
            h = it.st.heap.get(a.oid)
            if h is None or h.kind != "inst":
                continue
            for f, x in h.fields.items():
                if not f.startswith("$"):
                    p = picked(it, frozenset(y for y in x if isinstance(y, Abs)))
                    if not p:
                        for y in x:
                            hy = it.st.heap.get(y.oid) if isinstance(y, Ref) else None
                            if hy is not None and hy.kind == "inst":
                                for g, z in hy.fields.items():
                                    p = p or known(it, frozenset(b for b in z if isinstance(b, Abs)), "pick")
                    if p:
                        return p
    return None


def start(it):
    it.st.dom["guard"] = frozenset(["none"])


def i_both(it, a, kw, n):
    """_both(label, value): the record after a second evaluation may stem from the first and from the second batch."""
    label = kconst(a[0])
    src = known(it, a[1], "src")
    if not src:
        it.obs.count("records_undecided")
        return NONE
    it.obs.count("records_decided")
    for w, what in (("old", "of an earlier evaluation is never kept"), ("new", "of a later evaluation is never taken")):
        if w not in src:
            it.obs.add(Finding(rule="record-origin", func=label, construct=label, where="", detail=f"{label}: the solution {what} on record", path=[]))
    return NONE


INTR = {"_expect": i_expect, "_both": i_both}


SRC = """
from evotorch import Problem


class P(Problem):
    turn = 0

    def __init__(self, **kwargs):
        super().__init__({sense}, solution_length=5, initial_bounds=(-1.0, 1.0), dtype="float32", seed=1, **kwargs)

    def _evaluate_batch(self, batch):
        if self.turn == 0:
            batch.set_evals(_input("e", cols="{cols}", src="old"))
        else:
            batch.set_evals(_input("e2", cols="{cols}", src="new"))


prob = P({extra})
b = prob.generate_batch(8)
prob.evaluate(b)
{expect}
_mark(prob)
prob.turn = 1
c = prob.generate_batch(6)
prob.evaluate(c)
{expect}
{both}
{disjoint}
"""


def i_mark(it, a, kw, n):
    """_mark(prob): everything reachable from the problem counts as its record from now on."""
    for i in it.reach(a[0]):
        if isinstance(i, str):
            it.st.frozen[i] = it.st.frozen.get(i, frozenset()) | {"record"}
    return NONE


INTR["_mark"] = i_mark


def harnesses():
    out = []
    for ss in [("min",), ("max",), ("min", "max"), ("max", "min"), ("min", "min"), ("max", "max"), ("max", "min", "max")]:
        cols = "".join("+" if s == "max" else "-" for s in ss)
        lb = ",".join(ss)
        ex, dj, bo = [], [], []
        if len(ss) == 1:
            for w in ("best", "worst"):
                ex.append(f'_expect("status[{w}] ({lb})", prob.status["{w}"].evals, "pick", "{w}0")')
                ex.append(f'_expect("status[{w}_eval] ({lb})", prob.status["{w}_eval"], "pick", "{w}0")')
                bo.append(f'_both("status[{w}] ({lb})", prob.status["{w}"].evals)')
                dj.append(f'_disjoint("recorded {w} solution and the evaluated batch ({lb})", prob.status["{w}"], [b, c])')
        else:
            for i in range(len(ss)):
                for w in ("best", "worst"):
                    ex.append(f'_expect("status[{w}][{i}] ({lb})", prob.status["{w}"][{i}].evals, "pick", "{w}{i}")')
                    bo.append(f'_both("status[{w}][{i}] ({lb})", prob.status["{w}"][{i}].evals)')
                    dj.append(f'_disjoint("recorded {w} solution and the evaluated batch ({lb})", prob.status["{w}"][{i}], [b, c])')
        sense = repr(ss[0]) if len(ss) == 1 else repr(list(ss))
        for en, extra in (("", ""), (" stats", "store_solution_stats=True")):
            out.append((f"record {lb}{en}", SRC.format(sense=sense, cols=cols, extra=extra, expect="\n".join(ex), both="\n".join(bo), disjoint="\n".join(dj))))
    return out


POSITIVE = '''
import torch


class Keeper:
    def __init__(self):
        self.best = torch.empty(2)
        self.last = torch.empty(2)
        self.tie = torch.empty(2)

    def update(self, e):
        s = e[:, 0]
        i = torch.argmax(s)
        if s[i] > self.best[0]:
            self.best[0] = s[i]
        if s[i] < self.last[0]:
            self.last[0] = s[i]
        if s[i] >= self.tie[0]:
            self.tie[0] = s[i]
        self.tie[1] = s[i]


k = Keeper()
_mark(k)
k.update(_input("e", cols="+"))
'''


def tasks():
    return [Task(n, s, obs=RecordObs, intr=INTR, domains=lambda: [Polarity()], setup=start) for n, s in harnesses()]


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=RecordObs, intr=INTR, domains=lambda: [Polarity()], setup=start))
    n = len(pos["found"])
    ctx.counts["positive_examples_matched"] = n
    if n != 3:
        ctx.errors.append(f"positive example: {n} findings instead of 3")
    ctx.run(tasks())
    ctx.need("directions decided", ctx.counts.get("obligations_decided", 0), 20)
    ctx.need("record writes decided", ctx.counts.get("record_writes_decided", 0), 8)
