"""Sequences of events along all paths: the abstract state carries the set of possible sequences."""
import re

from .base import Finding, kconst, where
from .vals import BM, NONE, FnA, K

MOST = 200
LONG = 1500


def seqs(it):
    return it.st.dom.get("events", frozenset([""]))


def emit(it, name):
    s = seqs(it)
    if len(s) > MOST or any(len(x) > LONG for x in s) or "?" in s:
        it.st.dom["events"] = frozenset(["?"])
    else:
        it.st.dom["events"] = frozenset(x + name + " " for x in s)


def i_at(it, a, kw, n):
    """_at(function): the following obligations are about this function of the library."""
    for x in a[0]:
        f = x.fn if isinstance(x, BM) else x
        if isinstance(f, FnA):
            it.at = (f.fi.qual, where(f.fi.node))
    return NONE


def found(it, rule, label, detail):
    fn, wh = getattr(it, "at", ("", ""))
    it.obs.add(Finding(rule=rule, func=fn, construct=label, where=wh, detail=detail, path=it.stack_desc()[-12:]))


def i_event(it, a, kw, n):
    """_event(name): the event happens here."""
    emit(it, kconst(a[0]))
    return NONE


def i_forget(it, a, kw, n):
    it.st.dom["events"] = frozenset([""])
    return NONE


def i_sequence(it, a, kw, n):
    """_sequence(label, pattern): every possible sequence of events up to here matches the pattern."""
    label, pat = kconst(a[0]), kconst(a[1])
    s = seqs(it)
    if "?" in s:
        it.obs.count("sequences_undecided")
        it.obs.count("undecided: " + label)
        return NONE
    it.obs.count("sequences_decided")
    it.obs.count("possible_sequences", len(s))
    for x in sorted(s):
        if not re.fullmatch(pat, x):
            found(it, "event-order", label, f"possible sequence of events '{x.strip()}', expected {pat}")
            break
    return NONE


def i_const(it, a, kw, n):
    """_const(label, value, expected): a value known to the analysis is the expected one."""
    label = kconst(a[0])
    if not all(isinstance(x, K) for x in a[1]) or not all(isinstance(x, K) for x in a[2]) or not a[1]:
        it.obs.count("values_undecided")
        it.obs.count("undecided: " + label)
        return NONE
    it.obs.count("values_decided")
    got, want = {x.v for x in a[1]}, {x.v for x in a[2]}
    if not got <= want:
        found(it, "wrong-value", label, ", ".join(map(repr, sorted(got, key=repr))) + " instead of " + ", ".join(map(repr, sorted(want, key=repr))))
    return NONE


INTR = {"_at": i_at, "_event": i_event, "_sequence": i_sequence, "_const": i_const, "_forget": i_forget}
