"""P08: sorting, selection and utilities of a batch respect the objective sense."""
from ..base import Finding, Task, kconst, Obs, run_task
from ..polarity import Polarity, known
from ..vals import NONE
from .common import PROBLEM

EXPLANATION = (
    "sign analysis: every operation on evaluation results is interpreted in a domain which tracks in which direction of a number (or of an ordering) the better solutions lie, "
    "for each objective and each combination of senses; the results of sorting, selection, comparison and utility methods must point the right way"
)


def i_expect(it, a, kw, n):
    """_expect(label, value, fact, expected): if the fact is known about the value, it is the expected one."""
    label, key, want = kconst(a[0]), kconst(a[2]), kconst(a[3])
    got = known(it, a[1], key)
    if known(it, a[1], "scr"):
        it.obs.count("obligations_decided")
        it.obs.add(Finding(rule="scrambled", func=label, construct=label, where="", detail=f"{label}: numbers are assigned to the wrong solutions (an ordering is used as if it were ranks, or counts of different kinds are mixed)", path=[]))
        return NONE
    if not got:
        it.obs.count("obligations_undecided")
        it.obs.count("undecided: " + label)
        return NONE
    it.obs.count("obligations_decided")
    for x in got:
        if x != want and not (not want[-1:].isdigit() and x.rstrip("0123456789") == want):
            it.obs.add(Finding(rule="wrong-direction", func=label, construct=label, where="", detail=f"{label}: the result is {key}={'/'.join(sorted(got))}, expected {want}", path=[]))
    return NONE


INTR = {"_expect": i_expect}
RANKINGS = ("centered", "linear", "nes", "normalized", "raw")

ONE = """
{pre}
b = prob.generate_batch(8)
b.set_evals(_input("e", cols="{cols}"))
"""


TOURNAMENT = """
from evotorch.operators import CrossOver


class Tournament(CrossOver):
    def _do_cross_over(self, parents1, parents2):
        _expect("tournament ({t}) picks the best, first parents", parents1, "pick", "{want}")
        _expect("tournament ({t}) picks the best, second parents", parents2, "pick", "{want}")
        return self._make_children_batch(parents1)


op = Tournament(prob, tournament_size=4{kw})
op(b)
op = Tournament(prob, tournament_size=4, num_children=6{kw})
op(b)
"""


def batch_src(senses, device=""):
    cols = "".join("+" if s == "max" else "-" for s in senses)
    sense = repr(senses[0]) if len(senses) == 1 else repr(list(senses))
    return ONE.format(pre=PROBLEM.format(sense=sense, extra=""), cols=cols)


def label(senses):
    return ",".join(senses)


def harnesses():
    out = []
    combos = [("min",), ("max",), ("min", "max"), ("max", "min"), ("min", "min"), ("max", "max"), ("max", "min", "max")]
    for ss in combos:
        base = batch_src(ss)
        lb = label(ss)
        sel = []
        for i in range(len(ss)):
            for arg in [str(i)] + (["-%d" % (len(ss) - i)] if len(ss) > 1 else [""]):
                t = f"{lb}; objective {arg or 'default'}"
                kw = f"obj_index={arg}" if arg else ""
                sel.append(f'_expect("argsort ({t}) lists the best first", b.argsort({arg}), "perm", "bw{i}")')
                sel.append(f'_expect("argbest ({t})", b.argbest({arg}), "pick", "best{i}")')
                sel.append(f'_expect("argworst ({t})", b.argworst({arg}), "pick", "worst{i}")')
                sel.append(f'_expect("take_best ({t})", b.take_best(3{", " + kw if kw else ""}).evals, "pick", "best{i}")')
        out.append(("select " + lb, base + "\n".join(sel)))
        for m in (None,) + RANKINGS:
            us = []
            for i in range(len(ss)):
                for arg in [str(i)] + (["-%d" % (len(ss) - i)] if len(ss) > 1 else [""]):
                    a = ", ".join(x for x in (arg, f"ranking_method={m!r}" if m else "") if x)
                    us.append(f'_expect("utility({a}) ({lb})", b.utility({a}), "pol", "+{i}")')
                    us.append(f'_expect("utility({a}, using_values_dtype) ({lb})", b.utility({a}{", " if a else ""}using_values_dtype=True), "pol", "+{i}")')
                us.append(f'_expect("utils column {i} {m} ({lb})", b.utils({f"ranking_method={m!r}" if m else ""})[:, {i}], "pol", "+")')
            out.append((f"utility {m} {lb}", base + "\n".join(us)))
        # pairwise comparison
        cm = []
        cols = "".join("+" if s == "max" else "-" for s in ss)
        pre = base + f'c = prob.generate_batch(8)\nb.set_evals(_input("ea", cols="{cols}", who="a"))\nc.set_evals(_input("eb", cols="{cols}", who="b"))\nx, y = b[1], c[2]\n'
        for i in range(len(ss)):
            for arg in [str(i)] + (["-%d" % (len(ss) - i)] if len(ss) > 1 else [""]):
                t = f"{lb}; objective {arg or 'default'}"
                a = f", {arg}" if arg else ""
                cm.append(f'_expect("compare_solutions ({t}) grows with the first solution", prob.compare_solutions(x, y{a}), "adv", "a")')
                cm.append(f'_expect("is_better ({t})", prob.is_better(x, y{a}), "says", "a")')
                cm.append(f'_expect("is_worse ({t})", prob.is_worse(x, y{a}), "says", "b")')
        out.append(("compare " + lb, pre + "\n".join(cm)))
        if len(ss) > 1:
            out.append(("pareto " + lb, base + f'''
_expect("take_best without objective ({lb})", b.take_best(3).evals, "pick", "best")
for cr in (True, False):
    r = b.compute_pareto_ranks(crowdsort=cr)
    _expect("compute_pareto_ranks ({lb})", r[0], "pol", "-")
    _expect("arg_pareto_sort ranks ({lb})", b.arg_pareto_sort(crowdsort=cr).ranks, "pol", "-")
'''))
        derived = [
            ("slice", "b[2:6]"), ("picked", "b[[0, 3]]"), ("clone", "b.clone()"), ("concat", "b.concat(b2)"), ("cat", "SolutionBatch.cat([b, b2])"),
            ("take", "b.take([1, 2])"), ("merge", "SolutionBatch(merging_of=[b, b2])"), ("piece", "b.split(2)[0]"), ("moved", 'b.to("cpu")'),
            ("best of best", f"b.take_best(4{', obj_index=0' if len(ss) > 1 else ''})"),
        ]
        for dn, dx in derived:
            ex = [f"from evotorch import SolutionBatch\nb2 = prob.generate_batch(4)\nb2.set_evals(_input('e2', cols='{cols}'))\nd = {dx}"]
            for i in range(len(ss)):
                t = f"{dn} of a batch; {lb}; objective {i}"
                ex.append(f'_expect("argsort ({t}) lists the best first", d.argsort({i}), "perm", "bw{i}")')
                ex.append(f'_expect("argbest ({t})", d.argbest({i}), "pick", "best{i}")')
                ex.append(f'_expect("argworst ({t})", d.argworst({i}), "pick", "worst{i}")')
                ex.append(f'_expect("utility ({t})", d.utility({i}), "pol", "+{i}")')
                ex.append(f'_expect("utility centered ({t})", d.utility({i}, ranking_method="centered"), "pol", "+{i}")')
            out.append((f"{dn} {lb}", base + "\n".join(ex)))
        # tournaments
        for oi in [None] + list(range(len(ss))):
            want = "best" if oi is None and len(ss) > 1 else f"best{oi or 0}"
            kw = "" if oi is None else f", obj_index={oi}"
            out.append((f"tournament {oi} {lb}", base + TOURNAMENT.format(kw=kw, want=want, t=f"{lb}; objective {'default' if oi is None else oi}")))
    for hb in (True, False):
        for m in RANKINGS:
            out.append((f"rank {m} {hb}", f'''
from evotorch.tools import rank
_expect("rank {m}, higher_is_better={hb}", rank(_input("f", pol="{'+' if hb else '-'}0"), "{m}", higher_is_better={hb}), "pol", "+0")
'''))
            out.append((f"ranking.{m} {hb}", f'''
from evotorch.tools.ranking import {m}
_expect("{m}, higher_is_better={hb}", {m}(_input("f", pol="{'+' if hb else '-'}0"), higher_is_better={hb}), "pol", "+0")
'''))
    return out


POSITIVE = '''
import torch
e = _input("e", cols="+-")
_expect("first column descending", torch.argsort(e[:, 0], descending=True), "perm", "bw0")
_expect("second column", torch.argsort(e[:, 1], descending=True), "perm", "bw1")
_expect("worst as best", torch.argmin(e[:, 0]), "pick", "best0")
_expect("negated", -e[:, 0], "pol", "+0")
u = e[:, 0] * -1.0
_expect("order used as ranks", (torch.arange(5) / 4)[torch.argsort(u)], "pol", "+0")
_expect("scaled", (u - torch.mean(u)) / torch.std(u), "pol", "+0")
'''


def tasks():
    return [Task(n, s, obs=Obs, intr=INTR, domains=lambda: [Polarity(report=True)]) for n, s in harnesses()]


def run(ctx):
    pos = run_task(Task("positive", POSITIVE, obs=Obs, intr=INTR, domains=lambda: [Polarity(report=True)]))
    n = len(pos["found"])
    ctx.counts["positive_examples_matched"] = n
    if n != 5:
        ctx.errors.append(f"positive example: {n} findings instead of 5")
    ctx.run(tasks())
    ctx.need("directions decided", ctx.counts.get("obligations_decided", 0), 60)
