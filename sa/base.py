"""Shared machinery of the checks: harness runs, intrinsics, reports, evidence, exit codes."""
import ast
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import sys
import time
import traceback

from . import ext, valnum
from .interp import Interp, Observer
from .prog import AnchorError, Program, where
from .vals import ANY, BOOL, INT, NONE, NUM, STR, E, Abs, K, Ref, V, absv, k

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# --------------------------------------------------------------------------- findings
def construct(node):
    """Normalised text of the construct a finding is about (no line numbers)."""
    if node is None:
        return ""
    n = node
    # a bare expression inside a small statement is reported as it is
    try:
        t = ast.unparse(n)
    except Exception:
        t = type(n).__name__
    t = " ".join(t.split())
    return t if len(t) <= 160 else t[:157] + "..."


class Finding(dict):
    """rule, func (qualified function), construct, where (file:line), detail, path (call chain)."""

    def key(self):
        return (self["rule"], self["func"], self["construct"])


def finding(it, rule, node, detail):
    fi = it.cur_func() if it is not None else None
    fn = fi.qual if fi is not None else ""
    chain = it.stack_desc() if it is not None else []
    return Finding(
        rule=rule,
        func=fn,
        construct=construct(node),
        where=where(node) if node is not None else "",
        detail=detail,
        path=chain[-12:],
    )


# --------------------------------------------------------------------------- intrinsics
def kconst(v, default=None):
    if v is None:
        return default
    for a in v:
        if isinstance(a, K):
            return a.v
    return default


def _strip_fact(v):
    return frozenset(a.v for a in v if isinstance(a, K))


def i_input(it, a, kw, n):
    """_input(name, kind='tensor', **facts): caller-owned value with its own storage."""
    nm = "in:" + str(kconst(a[0]))
    kind = kconst(a[1], "tensor") if len(a) > 1 else "tensor"
    if nm not in it.st.content or it.st.content.get(nm) is None:
        it.st.content[nm] = {q: _strip_fact(v) for q, v in kw.items()}
    return absv(kind, [nm])


def i_unk(it, a, kw, n):
    return BOOL


def i_num(it, a, kw, n):
    return NUM


def i_int(it, a, kw, n):
    return INT


def i_str(it, a, kw, n):
    return STR


def i_any(it, a, kw, n):
    return ANY


def i_fn(it, a, kw, n):
    return absv("callable")


def i_freeze(it, a, kw, n):
    """_freeze(label, obj...): everything reachable must not be written from now on."""
    label = kconst(a[0])
    skip = it.intr.get("$freeze_skip")
    for v in a[1:]:
        ids = it.reach(v) if skip is None else it.reach(v, set(skip(it)))
        for i in ids:
            if isinstance(i, str):
                it.st.frozen[i] = it.st.frozen.get(i, E) | {label}
        it.obs.nfrozen += len(ids)
    return NONE


def i_thaw(it, a, kw, n):
    label = kconst(a[0])
    fz = dict(it.st.frozen)
    for i, l in list(fz.items()):
        l = l - {label}
        if l:
            fz[i] = l
        else:
            del fz[i]
    it.st.frozen = fz
    return NONE


def i_dump(it, a, kw, n):
    for v in a:
        for x in v:
            print("DUMP", x, it.facts(x), file=sys.stderr)
            if isinstance(x, Ref):
                h = it.st.heap[x.oid]
                print("   ", h.kind, h.cls, h.fields, h.items, h.elem, file=sys.stderr)
    return NONE


COMMON = {
    "_input": i_input,
    "_unk": i_unk,
    "_num": i_num,
    "_int": i_int,
    "_str": i_str,
    "_any": i_any,
    "_fn": i_fn,
    "_freeze": i_freeze,
    "_thaw": i_thaw,
    "_dump": i_dump,
}


class Obs(Observer):
    """Collects findings of one harness."""

    def __init__(self):
        self.found = []
        self.seen = set()
        self.counts = {}
        self.nfrozen = 0
        self.hname = ""

    def add(self, f):
        kx = f.key()
        if kx in self.seen:
            return
        self.seen.add(kx)
        f["harness"] = self.hname
        self.found.append(f)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n


class FreezeObs(Obs):
    """Reports writes to frozen storages/objects and to state outliving the call."""

    rule = "write-to-input"
    module_state = False

    def __init__(self, rule=None, module_state=False):
        super().__init__()
        if rule:
            self.rule = rule
        self.module_state = module_state
        self.sites = set()

    def write(self, it, ids, node, how, val):
        if it.mute:
            return
        self.sites.add(getattr(node, "_sid", 0))
        self.counts["write_sites"] = len(self.sites)
        fz = it.st.frozen
        labels = set()
        for i in ids:
            if i in fz:
                labels |= fz[i]
        if labels:
            self.add(finding(it, self.rule, node, f"{how} may modify {', '.join(sorted(labels))}"))
        if self.module_state and len(it.stack) > 1 and not any(f.fid[0] == "m" for f in it.stack):
            for i in ids:
                if i in it.global_ids or isinstance(i, tuple) and i[0] in ("glob", "fn", "cls") and "." not in i[1].replace(it.stack[-1].module.name + ".", "", 1):
                    self.add(finding(it, "persistent-state", node, f"{how} modifies state that outlives the call ({i})"))


# --------------------------------------------------------------------------- context
class Task:
    """One harness to interpret."""

    def __init__(self, name, src, obs=None, intr=None, domains=None, must_finish=True, post=None, max_recur=None, setup=None):
        self.name = name
        self.src = src
        self.obs = obs or (lambda: FreezeObs())
        self.intr = intr or {}
        self.domains = domains or (lambda: [])
        self.must_finish = must_finish
        self.post = post
        self.max_recur = max_recur
        self.dead_is_finding = False
        self.setup = setup


_PROG = None


def program():
    global _PROG
    if _PROG is None:
        _PROG = Program()
    return _PROG


def run_task(t):
    t0 = time.time()
    prog = program()
    valnum.clear()
    obs = t.obs()
    obs.hname = t.name
    intr = dict(COMMON)
    intr.update(t.intr)
    it = Interp(prog, obs, intr, t.domains())
    if t.max_recur is not None:
        it.max_recur = t.max_recur
    for f in it.domains:
        f.obs = obs
    if t.setup:
        t.setup(it)
    it.deadline = t0 + float(os.environ.get("SA_TASK_LIMIT", "400"))
    out = {"name": t.name, "error": None}
    try:
        st = it.run_harness(t.src, t.name)
        if t.post:
            t.post(it, st, obs)
        if st is None and t.must_finish:
            if t.dead_is_finding:
                obs.add(Finding(rule="unusable", func=t.name, construct=t.dead_is_finding, where=str(it.deads[-1][0]) if it.deads else "", detail="every path fails: " + "; ".join(str(d) for d in it.deads[-3:]), path=[]))
            else:
                out["error"] = "no path through the harness survives: " + "; ".join(str(d) for d in it.deads[-3:])
    except AnchorError as e:
        out["error"] = "anchor: " + str(e)
    except RecursionError:
        out["error"] = "recursion limit"
    except Exception:
        out["error"] = "internal: " + traceback.format_exc(limit=-5)
    out.update(
        found=obs.found,
        counts=dict(obs.counts),
        functions=sorted(it.visited),
        calls=it.ncalls,
        stmts=it.nstmts,
        cuts=dict(it.cuts),
        frozen=obs.nfrozen,
        wall=time.time() - t0,
    )
    return out


def _worker(tasks, conn):
    """Interpret the tasks whose numbers arrive on the pipe, one after another."""
    sys.setrecursionlimit(20000)
    while True:
        i = conn.recv()
        if i is None:
            return
        conn.send((i, run_task(tasks[i])))


def _failed(t, why):
    return {"name": t.name, "error": why, "found": [], "counts": {}, "functions": [], "calls": 0, "stmts": 0, "cuts": {}, "frozen": 0, "wall": 0.0}


def _run_parallel(tasks, n):
    """Fork n workers and hand out tasks; a worker that dies or hangs fails only the task it held."""
    ctx = mp.get_context("fork")
    limit = float(os.environ.get("SA_TASK_LIMIT", "400")) + 60
    res = [None] * len(tasks)
    todo = list(range(len(tasks)))[::-1]
    busy = {}

    def start():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(tasks, there), daemon=True)
        p.start()
        there.close()
        give(p, here)

    def give(p, conn):
        if todo:
            i = todo.pop()
            conn.send(i)
            busy[conn] = (p, i, time.time())
        else:
            conn.send(None)
            conn.close()
            p.join(5)

    for _ in range(n):
        start()
    while busy:
        ready = mp.connection.wait(list(busy), timeout=1.0)
        for conn in ready:
            p, i, t = busy.pop(conn)
            try:
                i, r = conn.recv()
                res[i] = r
                give(p, conn)
            except (EOFError, OSError):
                res[i] = _failed(tasks[i], "the analysis process ended unexpectedly")
                conn.close()
                if todo:
                    start()
        for conn in [c for c, (p, i, t) in busy.items() if time.time() - t > limit]:
            p, i, t = busy.pop(conn)
            p.kill()
            conn.close()
            res[i] = _failed(tasks[i], "time limit")
            if todo:
                start()
    return res


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.findings = []
        self.counts = {}
        self.errors = []
        self.functions = set()
        self.tasks = []
        self.info = {}
        self.assumptions = []

    def add(self, f):
        self.findings.append(f)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, got, least):
        """Fail (error exit) when fewer instances than confirmed by hand were analysed."""
        self.counts[name] = got
        if got < least:
            self.errors.append(f"only {got} {name} analysed, expected at least {least}")

    def run(self, tasks):
        """Interpret the harnesses in parallel; merge what they found."""
        program()
        n = min(8, len(tasks), int(os.environ.get("SA_JOBS", "8")))
        if n <= 1:
            res = [run_task(t) for t in tasks]
        else:
            res = _run_parallel(tasks, n)
        for r in res:
            self.functions |= set(r["functions"])
            self.count("harnesses_interpreted")
            self.count("calls_interpreted", r["calls"])
            self.count("statements_interpreted", r["stmts"])
            for q, v in r["counts"].items():
                self.count(q, v)
            if r["error"]:
                self.errors.append(f"harness {r['name']}: {r['error']}")
            for f in r["found"]:
                self.add(f)
            self.tasks.append({"harness": r["name"], "functions": len(r["functions"]), "statements": r["stmts"], "wall_s": round(r["wall"], 2), "cuts": sum(r["cuts"].values())})
        return res


# --------------------------------------------------------------------------- runner
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["known"]


def main(pid, runner, explanation, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    try:
        runner(ctx)
    except AnchorError as e:
        ctx.errors.append("anchor: " + str(e))
    except Exception:
        ctx.errors.append("internal: " + traceback.format_exc(limit=-6))
    known = [e for e in load_known() if e["property"] == pid]
    uniq = {}
    for f in ctx.findings:
        uniq.setdefault(f.key() if isinstance(f, Finding) else (f["rule"], f["func"], f["construct"]), f)
    viol, knownhit = [], []
    for kx, f in uniq.items():
        e = next((e for e in known if (e["rule"], e["func"], e["construct"]) == kx), None)
        if e is not None:
            knownhit.append((e, f))
        else:
            viol.append(f)
    evid = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    rep = os.path.join(evid, f"{pid}.findings.json")
    prog = program()
    cov = {"explanation": explanation}
    cov["program_modules"] = len([m for m in prog.modules if not m.startswith("h:")])
    cov["functions_reached"] = len(ctx.functions)
    cov.update(ctx.counts)
    cov.update(ctx.info)
    if ctx.tasks:
        cov["harnesses"] = ctx.tasks
    cov["findings_reported"] = len(viol)
    cov["known_findings_seen"] = len(knownhit)
    if ctx.errors:
        cov["errors"] = ctx.errors
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": ctx.assumptions,
        "violations": len(viol),
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(evid, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    with open(rep, "w") as f:
        json.dump(viol, f, indent=1, default=str)
    for e, f in knownhit:
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    print(f"{pid}: {len(ctx.functions)} functions reached, " + ", ".join(f"{a}={b}" for a, b in sorted(ctx.counts.items())))
    for f in viol:
        print(f"  [{f['rule']}] {f['where']} in {f['func']}: {f['construct']}\n      {f['detail']}" + (f"  (harness {f['harness']})" if f.get("harness") else ""))
    if viol:
        print(f"VIOLATION property={pid} replay={rep}")
        for e in ctx.errors:
            print("note:", e)
        return 1
    if ctx.errors:
        for e in ctx.errors:
            print("ERROR:", e)
        return 2
    print(f"{pid}: held on everything analysed ({time.time() - t0:.1f}s)")
    return 0


# --------------------------------------------------------------------------- assertions used in harnesses
def harness_site(it, n):
    return n


def i_disjoint(it, a, kw, n):
    """_disjoint(label, x, y): the tensors reachable from x and from y share no storage."""
    label = kconst(a[0])
    it.obs.count("disjointness_obligations")
    x = {i for i in it.reach(a[1]) if i in it.st.content}
    y = {i for i in it.reach(a[2]) if i in it.st.content}
    both = x & y
    if both:
        origin = []
        for i in sorted(both):
            nd = it.idinfo.get(i.rstrip("*"))
            origin.append(f"storage made at {where(nd[0])} in {nd[1].qual if nd[1] else '?'}" if nd and nd[0] is not None else i)
        f = Finding(rule="shared-storage", func=origin[0] if origin else "", construct=label, where="", detail=f"{label}: " + "; ".join(origin[:4]), path=[])
        it.obs.add(f)
    if not y and kw.get("nonempty"):
        it.obs.count("empty_operands")
    return NONE


def i_nan(it, a, kw, n):
    """_nan(label, t): every element of t is certainly NaN ('not evaluated')."""
    label = kconst(a[0])
    it.obs.count("typestate_obligations")
    d = next(x for x in it.domains if x.name == "regions")
    for t in a[1]:
        if isinstance(t, Abs) and t.stors:
            if not d.all_nan(it, t):
                it.obs.add(Finding(rule="stale-evaluation", func=label, construct=label, where=_maker(it, t), detail=f"{label}: the evaluation storage is not certainly NaN on every path", path=[]))
        else:
            it.obs.add(Finding(rule="stale-evaluation", func=label, construct=label, where="", detail=f"{label}: evaluation storage cannot be identified ({t})", path=[]))
    return NONE


def _maker(it, t):
    for s in sorted(t.stors):
        nd = it.idinfo.get(s.rstrip("*"))
        if nd and nd[0] is not None:
            return where(nd[0])
    return ""


COMMON["_disjoint"] = i_disjoint
COMMON["_nan"] = i_nan
