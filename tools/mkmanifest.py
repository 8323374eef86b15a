#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per claimed property, a reason for every other one."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = "flow- and context-sensitive abstract interpretation of the sources from public-API entry points (never executed)"

# property -> (technique, what exactly is decided)
CLAIMED = {
    "P01": ("effect and alias analysis by abstract interpretation", "every write site reachable from init/ask/tell over all histories, ranking methods, optimizers and senses; may-alias storages; no write may reach caller-owned or module-level state"),
    "P02": ("effect and alias analysis by abstract interpretation", "every write site reachable from the operations of every distribution class and optimizer; no write may reach the distribution, its parameters or the caller's arguments"),
    "P03": ("effect, alias and typestate analysis by abstract interpretation", "no reached write targets the parents; children's storages are disjoint from the parents' and certainly NaN-evaluated; CutAndSplice (object data) is left out"),
    "P04": ("escape analysis of read-only tensors by abstract interpretation", "every handle the public API hands out as read-only (batches, solutions, problems, status items, states, views made from them) is resolved to the tensor class it carries; every in-place method, operator, out= argument and functional in-place call on it must end in an exception before any write"),
    "P05": ("typestate analysis of evaluation results by abstract interpretation", "for every way of setting or giving writable access to decision values or results, which rows and columns of the results tensor are certainly not-evaluated, replaced or untouched afterwards"),
    "P06": ("ownership and completeness analysis by abstract interpretation", "object graph of every clone/copy/deep copy/pickled state compared with the original's: each field carried over with the same origin, no shared mutable object or storage; copies of an evaluated NEProblem can be used"),
    "P07": ("taint analysis of random draws by abstract interpretation, plus a scan of all random calls", "every random draw reached from operators, distributions, algorithms, problems, workers and tensor makers is resolved to the generator object it uses; seeds handed to workers and to the wrapped external strategy must come from a draw of that generator; every syntactic random call of the package names a generator"),
    "P08": ("sign (direction-of-improvement) analysis by abstract interpretation", "evaluation matrices carry per column the direction in which they are better; every index, ordering, comparison, utility, front and tournament winner derived from them must come out in the right direction for all combinations of senses of up to three objectives; results whose direction the analysis loses are counted, not judged"),
    "P09": ("sign analysis with control dependence by abstract interpretation", "records after one and two evaluations for all combinations of senses of up to three objectives: their direction, the comparison of scores that guards every write to them, their origin, and their storages' disjointness from the batches"),
    "P10": ("sign analysis of the search step by abstract interpretation", "solutions, their deviations from the center, weights derived from fitnesses and weighted sums are followed through gradient estimation, optimizers and updates; center and spread must move towards better solutions for every distribution, ranking, optimizer, algorithm and sense"),
    "P11": ("value numbering with constant shapes by abstract interpretation", "decision values and evaluation results are followed as terms through every batch operation (slices, lists, masks, index tensors, best-of, pieces, concatenation, copies, pickling, setters), the records and three generations of every algorithm, for one and several objectives and extra data; each row and column of the results must come from evaluating the values in the same row, or be not evaluated"),
    "P12": ("value numbering and event-sequence analysis by abstract interpretation with a model of remote workers", "workers are separate objects that receive copies and answer in reverse order; for 2-4 workers, numbers and sizes of pieces, batches of 4-9 solutions, one and several objectives and extra data, each row and column must receive its own result; the order and number of the synchronisation calls, and the state each worker has at evaluation, are compared with the specified ones"),
    "P13": ("event-sequence (typestate) and constant-propagation analysis by abstract interpretation", "hooks, steps and evaluations of small user programs emit events; the set of all event sequences possible on any path must match the specified order, and step counters and status items followed as constants must be the current ones, for user-defined and built-in algorithms, evaluations, gradient computations and hook lists"),
    "P15": ("interval analysis relative to symbolic bounds by abstract interpretation", "children of every real-valued operator, setting and kind of bounds: each value must be provably at least the lower and at most the upper bound of its own variable"),
    "P16": ("order analysis relative to symbolic limits by abstract interpretation", "every algorithm with standard deviation limits, execution mode and combination of limits (taken to be consistent, the old standard deviation respecting them): the new standard deviation must be provably on the right side of each; for CMA-ES, the step size times the root of the covariance's diagonal"),
    "P22": ("name, attribute and signature resolution with type inference over the whole package", "every name, import, attribute of an object of known class and call with a known target, including methods named in remote calls, must resolve; references on values of unknown type are not judged"),
    "P21": ("ownership and escape analysis by abstract interpretation", "object graphs of containers and object arrays before and after conversion: no shared writable object, only immutable kinds at every depth and in every handed-out part, no write by any operation, mutable copies share nothing"),
}
CLAIMED["P23"] = ("value numbering with constant shapes by abstract interpretation", "values and evaluation results, stamped with the generation of their evaluation, are followed through three generations of every genetic algorithm for 10 operator lists, two population sizes, both senses and several objectives, and each elitism and re-evaluation setting; the size of the population, the age of its results, the candidates of each selection and the results it is based on are compared with the specified ones")
CLAIMED["P14"] = ("value numbering of one batch item (predication analysis) by abstract interpretation", "every operation of the four structures, with batches of one and two dimensions, value shapes, several keys, booleans and histories: the contents after the operation, as terms in normal form, must equal the contents before for an item left out by the mask, and those after the unmasked operation for an item selected")
CLAIMED["P26"] = ("value numbering with constant propagation of positions by abstract interpretation", "all sequences of up to five queue operations on lists of capacity one to three, chosen longer ones, and every operation of memories and dictionaries, on symbolic values: what reading returns, lengths, existence and defaults, as terms in normal form, must equal what a plain queue, dictionary or memory holds; certainly invalid operations must not pass")
CLAIMED["P19"] = ("value numbering with normal forms of polynomials by abstract interpretation", "count, sum and sum of squares after sequences of updates (single, batched, masked), merges, copies and resets of the two collectors are compared, as polynomials in the observations' rows, with the observations given; the caller's observations and collectors must keep their values")
CLAIMED["P24"] = ("value numbering of tensor elements by abstract interpretation", "for networks of eight sets of parameter shapes, the elements of filled parameters, flattened vectors and of what a network is called with (functional form, policies with one or several vectors, problems) are compared with the elements due by the parameters' order; the vectors given must keep their values")
CLAIMED["P17"] = ("data type and device inference by abstract interpretation", "for five pairs of floating-point data types and a device other than the default one: every tensor of states, samples, populations, results, utilities, gradients, parameters and made tensors gets its data type and device inferred by torch's rules (defaults of makers, promotion by category and number of dimensions, in-place operations), and must have the one due; mixed devices and rounding through the default data type are reported")
CLAIMED["P18"] = ("dependence analysis of tensor elements by abstract interpretation (value numbering with constant shapes)", "for six combinations of batch dimensions over the arguments, all ranking methods, optimizers and senses, the expression of each element of each result is expanded into elements of the inputs and random draws; an element that depends on another batch item's input or draw, or differs from the item's own expression in constants, is reported")
NOT_YET = "no check registered yet"
NOT_APPLICABLE = {
    "P20": "the step loop's masks depend on which environments an external simulator reports as finished; deciding who is credited needs the relation between these masks, episode counters and rewards carried through a loop of unknown length, which none of the domains here expresses",
    "P90": "convergence is a statement about numeric limits of random processes; no static abstraction of this code bounds it",
    "P91": "moments of samples are numeric, distributional facts; the source decides only which generator calls are made, not their distribution",
    "P92": "equality of floating-point formulas with published mathematics needs algebraic reasoning or numeric evaluation, not dataflow",
}

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, note = CLAIMED[i]
        checks.append(
            {
                "property": i,
                "quick_cmd": f"python3 -m sa.check {i}",
                "thorough_cmd": f"python3 -m sa.check {i} --tier thorough",
                "technique": t,
                "level": "other",
                "level_note": f"{note}; method: {ENGINE}",
            }
        )
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, NOT_YET)})
m = {"version": 1, "setup_cmd": "python3 -m sa.check --selftest", "checks": checks, "not_applicable": na,
     "notes": "Pure standard-library Python static analyser in sa/; the sources in /repo are parsed on every run and never imported or executed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
