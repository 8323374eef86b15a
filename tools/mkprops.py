#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the texts)."""
import json, os

SRC = "src/evotorch/"
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe_at, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": [SRC + f for f in files],
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                "observe_at": list(observe_at),
                "hook_needed": None,
            },
        }
    )


prop(
    "P01",
    "Functional ask/tell never modify what they are given",
    "Calling the initializer, the ask or the tell of a functional algorithm or functional optimizer (CEM, PGPE, Adam, "
    "ClipUp, SGD) leaves every tensor, state and configuration object it receives unchanged. All progress is carried "
    "by the returned state: nothing is remembered between calls, so an old state can be told again, branched or kept.",
    ["inputs", "histories", "configurations"],
    "every state reachable by any history of ask/tell, every batch shape, ranking method, optimizer and objective sense",
    "The tests run each algorithm forward and check that it improves; they never compare an old state before and "
    "after a tell, and do so for only a few configurations.",
    ["algorithms/functional/funccem.py", "algorithms/functional/funcpgpe.py", "algorithms/functional/funcadam.py",
     "algorithms/functional/funcclipup.py", "algorithms/functional/funcsgd.py", "distributions.py", "tools/ranking.py",
     "tools/misc.py", "decorators.py"],
    [("ask/tell functions", "algorithms/functional/func*.py"), ("functional sampler and gradient estimator", "distributions.py"),
     ("ranking functions", "tools/ranking.py"), ("modify_tensor / modify_vector", "tools/misc.py")],
    ["arguments and results of *_ask / *_tell"],
)
prop(
    "P02",
    "Search distributions and optimizers leave their inputs and parameters intact",
    "Sampling from a search distribution, computing gradients, applying a gradient update, computing a divergence, or "
    "moving or copying the distribution never changes the distribution itself, nor the samples, fitnesses, gradients, "
    "learning rates or parameter dictionaries given by the caller. A step-size optimizer likewise never changes the "
    "gradient it is given.",
    ["inputs", "histories", "configurations"],
    "every distribution class, parameter set, ranking method, update path and optimizer",
    "Tests look at the returned values only; a mutated input shows up in a later generation, for one distribution class "
    "and one configuration.",
    ["distributions.py", "optimizers.py", "tools/misc.py", "tools/ranking.py"],
    [("Distribution subclasses", "distributions.py"), ("ascent", "optimizers.py")],
    ["parameters of the distribution and the arguments after the call"],
)
prop(
    "P03",
    "Variation operators keep parents intact; children are unshared and unevaluated",
    "Applying any mutation, cross-over or permutation operator of the library to a batch of solutions leaves the values and "
    "the evaluation results of that batch unchanged. The children it returns share no memory with the parents, and "
    "are marked as not evaluated.",
    ["inputs", "histories", "configurations"],
    "every operator class, every batch (evaluated or not), every hyperparameter setting",
    "The tests check shapes and bounds of children; aliasing or a stale evaluation needs a later write or a selection "
    "that trusts the stale result to become visible.",
    ["operators/base.py", "operators/real.py", "operators/sequence.py", "core.py"],
    [("CopyingOperator / CrossOver", "operators/base.py"), ("mutation and cross-over classes", "operators/real.py"),
     ("CutAndSplice", "operators/sequence.py")],
    ["values and evals of the given and of the returned batch"],
)
prop(
    "P04",
    "Tensors handed out as read-only cannot be used to change stored state",
    "The decision values and evaluation results read from a solution or a batch, the tensors obtained from a status "
    "dictionary, and every tensor or array made read-only by the library reject in-place modification, also through "
    "views, slices, iteration and numpy conversion of them. Stored state changes only through the explicitly "
    "writable access methods.",
    ["inputs", "programs", "histories"],
    "every in-place operation a user can write on such a tensor, and every chain of views of it",
    "A test can try a handful of in-place operations; the guarantee is about all of them and about every accessor.",
    ["tools/readonlytensor.py", "core.py", "algorithms/searchalgorithm.py", "tools/objectarray.py", "algorithms/mapelites.py"],
    [("ReadOnlyTensor", "tools/readonlytensor.py"), ("values / evals", "core.py"), ("LazyStatusDict", "algorithms/searchalgorithm.py"),
     ("ObjectArray read-only views", "tools/objectarray.py")],
    ["values / evals properties, status items, read-only tensors"],
)
prop(
    "P05",
    "Evaluation results never outlive the decision values they belong to",
    "Whenever decision values of a batch or a solution are set, or writable access to them is given, the evaluation results of "
    "exactly the affected solutions become 'not evaluated', unless the caller explicitly asked to keep them. A newly "
    "created batch is not evaluated, and giving new evaluation results replaces all old results of those solutions.",
    ["inputs", "histories"],
    "every sequence of writes through the public batch/solution API, with any subset of rows",
    "Tests cover one or two access paths; a forgotten invalidation only shows when stale fitnesses steer a later "
    "selection.",
    ["core.py"],
    [("access_values / set_values / forget_evals / set_evals", "core.py")],
    ["evals / is_evaluated after each write"],
)
prop(
    "P06",
    "Clones, copies and pickles are complete and share no mutable state",
    "Cloning, copying, deep-copying or pickling a problem, batch, solution, search algorithm component or container yields an object with all the "
    "state of the original, such that no later change of either is visible in the other. Only process-bound resources "
    "(remote actors, instantiated networks and environments) are left out, and the object can recreate them.",
    ["histories", "configurations"],
    "every object of a cloneable class in every state reachable through the API",
    "Tests clone freshly created objects and compare a few fields; sharing shows only when one side changes later.",
    ["tools/cloning.py", "core.py", "tools/objectarray.py", "tools/immutable.py", "tools/hook.py", "neuroevolution/neproblem.py"],
    [("deep_clone, Clonable, Serializable", "tools/cloning.py"), ("_get_cloned_state", "core.py")],
    ["clone(), copy.copy, copy.deepcopy, pickle round trip"],
)
prop(
    "P07",
    "A seeded problem is the only source of randomness of all that is bound to it",
    "Initial solutions, variation operators, search distributions, search algorithms, action noise, and the seeds of remote workers draw "
    "all their random numbers from the generator of the problem they work on (or the one given explicitly). In the main process "
    "they neither take numbers from nor re-seed the global random state of torch, numpy or python, so a fixed seed determines the run.",
    ["inputs", "histories", "configurations"],
    "every problem with its own seed and every algorithm/operator bound to it",
    "Tests fix one seed for one or two algorithms; an unseeded draw in a rarely used branch never fails a test.",
    ["core.py", "tools/misc.py", "tools/tensormaker.py", "distributions.py", "operators/real.py", "operators/base.py", "operators/sequence.py",
     "algorithms/cmaes.py", "algorithms/pycmaes.py", "neuroevolution/gymne.py", "neuroevolution/vecgymne.py"],
    [("generator forwarding of the tensor makers", "tools/tensormaker.py"), ("manual_seed, actor seeds", "core.py")],
    ["random draws reachable from the public API"],
)
prop(
    "P08",
    "Sorting, selection and utilities of a batch respect the objective sense",
    "For minimization as for maximization, the best index, worst index, sort order, best-n selection, pairwise comparison, utilities and "
    "Pareto ordering of a batch rank better solutions first (utilities: higher), and tournaments of the cross-over operators are won by better "
    "solutions. For several objectives each is judged by its own sense.",
    ["inputs", "configurations"],
    "every batch of evaluated solutions, every number of objectives and combination of senses",
    "Tests use a few fixed batches, mostly minimization and single-objective.",
    ["core.py", "tools/ranking.py", "operators/base.py"],
    [("_do_tournament", "operators/base.py"), ("argsort, argbest, argworst, take_best, utility, utils, compute_pareto_ranks", "core.py"), ("ranking methods", "tools/ranking.py")],
    ["results of the sorting/selection/utility methods"],
)
prop(
    "P09",
    "The best and worst solutions on record are sense-correct independent copies",
    "A problem that keeps solution statistics reports, for each objective, the best and the worst solution evaluated so far according to "
    "that objective's sense, and replaces its record only by a strictly better (worse) one. The recorded solutions are "
    "copies that later changes of the population cannot alter.",
    ["histories", "configurations"],
    "every sequence of evaluated batches, every number of objectives and combination of senses",
    "Tests run a single objective for a few generations.",
    ["core.py"],
    [("_get_best_and_worst", "core.py"), ("evaluate", "core.py")],
    ["best / worst / *_eval items of the status"],
)
prop(
    "P10",
    "Search moves toward better solutions under either objective sense",
    "The gradient estimates, distribution updates and recombination weights of the distribution-based algorithms (object-oriented and "
    "functional) favour better solutions: with 'max' higher, with 'min' lower fitnesses. Swapping the sense and negating every fitness leaves the direction of the update unchanged.",
    ["inputs", "configurations"],
    "every population and fitness vector, ranking method, algorithm and optimizer",
    "Tests check improvement on one simple function per algorithm, mostly minimization.",
    ["distributions.py", "algorithms/distributed/gaussian.py", "algorithms/cmaes.py", "algorithms/pycmaes.py", "algorithms/functional/funccem.py",
     "algorithms/functional/funcpgpe.py", "optimizers.py", "tools/ranking.py", "algorithms/mapelites.py"],
    [("compute_gradients / _compute_gradients", "distributions.py"), ("update_parameters", "distributions.py"), ("get_population_weights", "algorithms/cmaes.py")],
    ["center of the distribution after an update"],
)
prop(
    "P11",
    "Values and evaluation results of a solution always stay paired",
    "Slicing, selecting, sorting, splitting, concatenating, copying or moving batches, and archive or population replacement in the algorithms, "
    "always carry each solution's decision values together with that same solution's own evaluation results.",
    ["inputs", "histories"],
    "every index, mask, slice, split and sequence of batch operations",
    "Tests check sizes and a few rows; a permuted pairing has all the right marginals.",
    ["core.py", "algorithms/mapelites.py", "algorithms/ga.py"],
    [("SolutionBatch constructors, take, take_best, cat, split, to", "core.py"), ("archive update", "algorithms/mapelites.py")],
    ["values and evals of the resulting batch"],
)
prop(
    "P12",
    "Parallel evaluation returns each result to its own solution and syncs state once",
    "However a batch is split over sub-batches and remote workers, and in whatever order they finish, every solution "
    "receives the result computed from its own values. Before each parallel evaluation workers receive the main process's shared state, and what each "
    "worker collected is merged into the main process exactly once.",
    ["schedules", "configurations", "histories"],
    "every number of actors and sub-batches, every completion order, every number of evaluations",
    "The tests use at most a few actors, on batches whose results hardly depend on order.",
    ["core.py", "neuroevolution/gymne.py", "neuroevolution/vecgymne.py"],
    [("_evaluate_all, EvaluationActor, sync methods", "core.py"), ("sync data of the RL problems", "neuroevolution/gymne.py, neuroevolution/vecgymne.py")],
    ["evals after evaluate; counters and observation statistics"],
)
prop(
    "P13",
    "Steps and evaluations run their hooks in order, once, and refresh the status",
    "Each search step runs: before-step hooks, one algorithm step, the step counter raised by one, then status items, after-step hooks and "
    "logging; each evaluation or gradient computation runs its before hooks, itself, the bookkeeping, then its after hooks, hooks of one kind in the order of their list, a later one's item overriding an earlier one's. "
    "Status items computed in an earlier step or evaluation are never reported for a later one, and a "
    "run of n generations performs exactly n steps followed by the end-of-run hooks.",
    ["histories", "configurations"],
    "every algorithm, number of generations and set of registered hooks",
    "Tests look at the presence of status keys after a few steps, not at ordering and freshness.",
    ["algorithms/searchalgorithm.py", "core.py", "tools/hook.py", "logging.py"],
    [("SearchAlgorithm.step / run, LazyReporter", "algorithms/searchalgorithm.py"), ("Problem.evaluate", "core.py"), ("Hook", "tools/hook.py")],
    ["hook calls, status"],
)
prop(
    "P14",
    "Masked container operations change only the selected batch items",
    "For the batched memory, dictionary, list and bag structures, an operation given a mask changes only the batch items "
    "selected by the mask: contents and lengths of all other items stay as they were. Without a mask every item is affected.",
    ["inputs", "histories"],
    "every structure, operation, key, value and mask",
    "Tests try some operations with some masks; each operation has its own masked code path.",
    ["tools/structures.py"],
    [("CMemory, CDict, CList, CBag", "tools/structures.py")],
    ["contents of the structure after the operation"],
)
prop(
    "P15",
    "Real-valued operators never leave the bounds of the problem",
    "Given parents within the bounds of the problem, every real-valued variation operator returns children within "
    "the same lower and upper bounds.",
    ["inputs", "configurations"],
    "every batch within bounds, every operator and hyperparameter setting, scalar and per-variable bounds",
    "Tests sample a few populations with one operator.",
    ["operators/base.py", "operators/real.py"],
    [("bound clipping", "operators/base.py"), ("operators", "operators/real.py")],
    ["values of the returned batch"],
)
prop(
    "P16",
    "Standard deviation limits hold after every update of the search distribution",
    "When a minimum, a maximum or a maximum relative change of the standard deviation is configured, the standard deviation after "
    "every update obeys it, in the object-oriented, the distributed and the functional variants alike, whatever the update wanted.",
    ["inputs", "histories", "configurations"],
    "every gradient, limit (scalar or vector) and execution mode",
    "Tests exercise the helper on small vectors, not its use on every update path.",
    ["algorithms/distributed/gaussian.py", "algorithms/functional/funccem.py", "algorithms/functional/funcpgpe.py", "algorithms/cmaes.py", "tools/misc.py"],
    [("_update_distribution", "algorithms/distributed/gaussian.py"), ("modify_tensor / modify_vector", "tools/misc.py"), ("_limit_stdev", "algorithms/cmaes.py")],
    ["standard deviation after a step / tell"],
)
prop(
    "P17",
    "Data types and devices follow the problem or the given center",
    "Populations (also those produced by operators), evaluation results, utilities, search distributions with their samples and gradients, and tensors made through a problem have the data type (for results the evaluation data type) and device of "
    "that problem, also when these are not the defaults; floating-point tensors of a functional algorithm's or optimizer's state and samples have those of the given initial center. "
    "Numbers of such a tensor are not computed in the default data type on the way, and no step needs tensors on two devices.",
    ["inputs", "configurations"],
    "floating-point data types of values and of results, a device other than the default one; every Gaussian search algorithm, genetic algorithm, operator, distribution, optimizer, ranking method and tensor maker",
    "Tests run float32 on the cpu nearly everywhere, where the fallback is invisible.",
    ["algorithms/functional/misc.py", "algorithms/functional/funccem.py", "algorithms/functional/funcpgpe.py", "distributions.py", "core.py", "tools/tensormaker.py", "tools/misc.py", "tools/ranking.py", "optimizers.py", "operators/real.py", "algorithms/mapelites.py"],
    [("tensor creation sites", "algorithms/functional/*.py, distributions.py, core.py")],
    ["dtype / device of states, samples, populations"],
)
prop(
    "P18",
    "Batch items of the functional API do not influence each other",
    "When a functional algorithm (sampling or update), functional optimizer, functional sampler, gradient estimator or constraint penalty, or a function decorated for batching, receives "
    "tensors with extra leftmost batch dimensions on some or all arguments, the result for each batch item is what that item alone would give: nothing is reduced, sorted, ranked or "
    "normalized across batch items. Random draws are not shared between batch items, unless the decorated function asks for it.",
    ["inputs", "configurations"],
    "every number and size of batch dimensions on every argument; every ranking method, objective sense and optimizer",
    "Tests compare a few batched shapes for a few functions.",
    ["decorators.py", "algorithms/functional/funccem.py", "algorithms/functional/funcpgpe.py", "algorithms/functional/funcadam.py",
     "algorithms/functional/funcclipup.py", "algorithms/functional/funcsgd.py", "tools/ranking.py", "tools/constraints.py", "distributions.py", "tools/misc.py"],
    [("expects_ndim", "decorators.py"), ("reductions", "tools/ranking.py, tools/constraints.py")],
    ["results of batched calls"],
)
prop(
    "P19",
    "Observation statistics count exactly the observations folded in",
    "Running observation statistics hold the count, sum and sum of squares of exactly the observations given so far: masked-out rows do not count, merging adds the other "
    "collector's data, and resetting forgets all. Updating never changes the observations or the other collector given by the caller.",
    ["inputs", "histories"],
    "every sequence of single, batched, masked updates, merges and resets",
    "Tests update with a few random arrays and compare mean and stdev.",
    ["neuroevolution/net/runningnorm.py", "neuroevolution/net/runningstat.py"],
    [("RunningNorm.update", "neuroevolution/net/runningnorm.py"), ("RunningStat", "neuroevolution/net/runningstat.py")],
    ["count, sum, sum_of_squares, mean, stdev; the caller's arrays"],
)
prop(
    "P20",
    "Vectorized rollouts credit rewards only to unfinished episodes",
    "In vectorized reinforcement learning evaluation, only environments whose solution still has episodes to play contribute rewards, "
    "bonuses, interactions and observation statistics; the recurrent state is reset exactly where an episode ended, and padding environments never affect any fitness.",
    ["inputs", "histories", "configurations"],
    "every pattern of episode lengths over environments, numbers of episodes and of solutions",
    "Tests have one or two environments that end together.",
    ["neuroevolution/vecgymne.py", "neuroevolution/net/vecrl.py"],
    [("_evaluate_subbatch", "neuroevolution/vecgymne.py"), ("SyncVectorEnv", "neuroevolution/net/vecrl.py")],
    ["fitnesses, interaction counts, observation statistics"],
)
prop(
    "P21",
    "Immutable containers stay immutable all the way down",
    "Converting a container into its immutable form copies everything in it that is still writable: no operation on the result, nor a later change of the source, alters its contents at any depth. "
    "Object arrays store such immutable copies, and a mutable copy shares nothing with its immutable source.",
    ["inputs", "programs"],
    "every nesting of containers, arrays and tensors, and every operation on the result",
    "Tests try a few nestings and a few mutating methods.",
    ["tools/immutable.py", "tools/objectarray.py"],
    [("as_immutable, mutable_copy, Immutable* classes", "tools/immutable.py"), ("ObjectArray", "tools/objectarray.py")],
    ["contents of the container after operations on related objects"],
)
prop(
    "P22",
    "Every internal reference and call of the library resolves",
    "No public operation fails because the library's own code refers to a name, attribute or method that does not exist, or calls one of its own functions with arguments that "
    "function does not accept.",
    ["inputs", "configurations", "programs"],
    "every branch of every function, including rarely taken configurations and error paths",
    "A test sees only the branches it takes; many configuration branches are never executed by the suite.",
    ["core.py", "tools/structures.py", "tools/misc.py", "distributions.py", "algorithms/searchalgorithm.py", "neuroevolution/vecgymne.py"],
    [("all modules", "src/evotorch")],
    ["AttributeError / NameError / TypeError raised from library code"],
)
prop(
    "P23",
    "Genetic algorithms keep the best and their population size",
    "Each generation of a genetic algorithm ends with exactly the configured population size; when elitist, the next population is chosen as the best among parents and children together, "
    "so the best fitness never worsens for deterministic problems; when not, the children come first: the best of them, or all of them together with the best parents. "
    "The parents take part with the results of the current evaluation, never with missing or earlier ones when re-evaluation is asked for.",
    ["histories", "configurations"],
    "every operator list, population size, elitism and re-evaluation setting",
    "Tests run one or two default configurations.",
    ["algorithms/ga.py", "core.py"],
    [("GeneticAlgorithm._step, Cosyne._step, ExtendedPopulationMixin", "algorithms/ga.py")],
    ["population after each step"],
)
prop(
    "P24",
    "Flat parameter vectors map to network parameters one-to-one and in order",
    "Filling a network from a flat vector, flattening it back, counting its parameters, and the functional form of the network all use the same order and cover every parameter exactly once; "
    "a policy given several vectors gives each of its networks the vector of its own row. Filling, evaluating and replacing rows leave the vectors given earlier unchanged.",
    ["inputs", "programs"],
    "every network architecture and vector (decided for networks with up to four parameters of zero to four dimensions)",
    "Tests use a few small feed-forward networks, often with symmetric shapes.",
    ["neuroevolution/net/misc.py", "neuroevolution/net/functional.py", "neuroevolution/net/vecrl.py", "neuroevolution/neproblem.py"],
    [("fill_parameters, parameter_vector, count_parameters", "neuroevolution/net/misc.py"), ("ModuleExpectingFlatParameters", "neuroevolution/net/functional.py")],
    ["outputs of the parameterized network"],
)
# --- not decidable by static analysis here ---
prop(
    "P26",
    "Batched containers return what was stored in them",
    "Reading a key of a batched memory or dictionary returns the value last set for it, combined with what was added, subtracted, multiplied or divided since, and other keys keep theirs; a key of a dictionary exists exactly from being set until the dictionary is cleared. "
    "A batched list behaves as a queue: after any appends and pops on either side its length and its elements, counted from either end, are those of a plain queue, also after wrapping around its capacity, a bag counts its elements likewise, and missing elements give the default. "
    "With verification on, invalid keys, indices, appends to full and pops from empty lists raise.",
    ["histories", "inputs"],
    "every structure, sequence of operations, capacity, batch shape and value",
    "Tests follow one or two histories; wrapping around the capacity depends on the exact history.",
    ["tools/structures.py"],
    [("CMemory, CDict, CList, CBag", "tools/structures.py")],
    ["values, lengths and existence flags read from the structures"],
)
prop(
    "P90",
    "Search algorithms converge on well-behaved problems",
    "On smooth problems with a reachable optimum, repeated steps of each search algorithm bring the best fitness arbitrarily close to the optimum.",
    ["inputs", "histories"],
    "every smooth problem, seed and sensible configuration",
    "Convergence depends on numbers of steps and random draws; tests check a few problems for a few steps.",
    ["algorithms/distributed/gaussian.py", "algorithms/cmaes.py", "algorithms/ga.py"],
    [("search algorithms", "algorithms")],
    ["best_eval in the status"],
)
prop(
    "P91",
    "Samples follow the configured search distribution",
    "Solutions sampled from a search distribution have the mean, standard deviation and covariance given by its parameters.",
    ["inputs", "configurations"],
    "every distribution and parameter set",
    "A statistical statement over random draws; tests check moments with tolerances for a few parameters.",
    ["distributions.py", "algorithms/cmaes.py", "tools/misc.py"],
    [("sampling methods", "distributions.py")],
    ["sampled values"],
)
prop(
    "P92",
    "Gradient estimates equal the published formulas",
    "The natural-gradient estimates of the Gaussian distributions equal the formulas of the cited papers up to rounding.",
    ["inputs"],
    "every sample set and weights",
    "Numerical equality over all inputs; tests compare a few examples.",
    ["distributions.py"],
    [("_compute_gradients", "distributions.py")],
    ["gradients"],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
