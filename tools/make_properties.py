"""Writes properties.jsonl. Run: /opt/venv/bin/python tools/make_properties.py"""

import json
import os

P = []
S = "src/evotorch/"


def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {
        "files": [S + f for f in files],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe_at,
        "hook_needed": None,
    }
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": anchors,
        }
    )


prop(
    "C01",
    "Evaluation gives each solution its own fitness, however the work is split",
    "After a problem evaluates a batch, every row of the batch holds exactly the objective values (and extra evaluation data) which the user's function returns for that row's decision values, and the decision values are unchanged. This is the same whether the function works on one solution or on a batch, on whichever device it asks for, and whatever the number of sub-batches, the sub-batch size, or the number of actors. Before-evaluation and after-evaluation hooks run once per evaluate call on the whole batch, in registration order.",
    ["inputs", "configurations", "schedules"],
    "all batches (including sizes 1 and sizes not divisible by the number of pieces), objective counts, evaluation data lengths, element-wise or vectorized fitness functions, sub-batch/actor configurations",
    "The tests evaluate a few fixed batches with one or two configurations; the guarantee is over every batch size, split and function kind.",
    ["core.py"],
    [("Problem.evaluate and its splitting into pieces / actor pool", S + "core.py"), ("SolutionBatch.split, SolutionBatchPieces", S + "core.py"), ("SolutionBatch.set_evals", S + "core.py")],
    ["SolutionBatch.values / evals after Problem.evaluate", "Problem.status", "hook call log"],
)
prop(
    "C02",
    "Best and worst solutions reported by a problem are the true extremes so far",
    "At every point of a history of evaluations, the best and the worst solution and fitness a problem reports for each objective are extremes (in that objective's sense) over all solutions evaluated so far, with the decision values that produced that fitness. They are private copies: later changes to evaluated batches never alter them. Tracking can be switched off when the problem is made, and then nothing is reported.",
    ["histories", "inputs", "configurations"],
    "all sequences of evaluate / modify-in-place / re-evaluate operations over all objective senses and numbers of objectives, including ties and infinite fitnesses",
    "Tests look at one short run; staleness, aliasing and sense mistakes show only over particular histories.",
    ["core.py"],
    [("Problem best/worst bookkeeping after evaluation", S + "core.py")],
    ["Problem.status: best, worst, best_eval, worst_eval, objN_best, ..."],
    [("best/worst solutions per objective", "copies of the extreme solutions", S + "core.py")],
)
prop(
    "C03",
    "Solution batches keep decision values and fitnesses aligned; stale never shown",
    "Decision values, fitnesses and evaluation data of a batch always stay aligned row by row through indexing, slicing, splitting, concatenating, cloning, taking and copying of solutions. Writing decision values clears exactly the fitnesses of the rows of the written batch (unless told to keep them), and writing fitnesses sets exactly the intended rows and columns and nothing else. Slices, pieces and single solutions are views through which changes reach the original and back; clones, concatenations and taken batches are independent copies.",
    ["histories", "inputs"],
    "all operation sequences over a family of related batches, checked after each operation against a row-store model",
    "The tests exercise single operations; wrong aliasing or stale fitness appears only after several related views are modified.",
    ["core.py"],
    [("SolutionBatch, Solution, SolutionBatchPieces", S + "core.py")],
    ["values / evals / is_evaluated of every live batch and view"],
)
prop(
    "C04",
    "Single-objective ordering, selection and utilities are right for both senses",
    "Sorting a batch by an objective yields a permutation ordered from best to worst in the sense of that objective; the best/worst queries return a solution attaining the extreme; taking the best n returns the n best solutions. Utilities are never higher for a worse solution than for a better one, and agree with the requested ranking method applied in the direction of the objective.",
    ["inputs", "configurations"],
    "all fitness vectors (ties, infinities, negative values), senses, objective counts and objective indices, batch sizes from 1 up",
    "Tests use a handful of fixed fitness vectors with distinct values.",
    ["core.py", "tools/ranking.py"],
    [("SolutionBatch.argsort/argbest/argworst/take_best/utility/utils", S + "core.py")],
    ["returned indices, batches and utilities"],
)
prop(
    "C05",
    "Pareto fronts, crowding and multi-objective selection follow dominance",
    "For every set of multi-objective fitnesses and every combination of senses, the Pareto fronts reported are those obtained by repeatedly removing the non-dominated solutions, and the reported ranks number them from the best front on. Multi-objective sorting and selection never prefer a solution to another lying in a better front, and among the solutions of one front prefer those with larger crowding distance.",
    ["inputs", "configurations"],
    "all fitness matrices with 2 or more objectives (ties, duplicates), all sense combinations, all selection sizes",
    "Tests check a few fixed point sets in fixed senses.",
    ["core.py"],
    [("SolutionBatch.arg_pareto_sort/compute_pareto_ranks/take_best", S + "core.py")],
    ["returned fronts, ranks, selected batches, utilities"],
)
prop(
    "C06",
    "Fitness shaping preserves order, matches its definition, treats rows apart",
    "Every ranking method (centered, linear, nes, normalized, raw) returns utilities equal to its documented definition with higher utility for better fitness in the requested direction, for every vector of distinct fitnesses. A fitness tensor of any shape is ranked as one collection, and under batched (vectorized-map) use each vector is ranked as if it were alone. Reversing the direction is the same as negating the fitnesses, and the inputs are not modified.",
    ["inputs", "configurations"],
    "all fitness vectors and stacks of vectors (any batch dimensions), both directions, all methods",
    "Tests compare a few fixed vectors.",
    ["tools/ranking.py"],
    [("rank and the ranking functions", S + "tools/ranking.py")],
    ["rank(...) results"],
)
prop(
    "C07",
    "Generated solutions and random numbers respect bounds, shape and data type",
    "Solutions generated by a problem, and random values generated by the problem and tool functions, always have the requested shape and data type and lie within the requested inclusive bounds (for a problem the initial bounds, or the strict bounds when no initial ones are given); for integer types every value of the range and no other is possible. Gaussian values follow the requested center and standard deviation, in exact mirror pairs when symmetric sampling is requested. Bounds whose length or shape does not fit the problem, and incomplete requests (only one of two bounds, only one of center and deviation), are rejected.",
    ["inputs", "configurations"],
    "all shapes, data types, scalar or per-element bounds, one-sided requests, integer ranges up to the limits of the type, in-place and out-of-place generation",
    "Sampling tests look at a few seeds and wide ranges; off-by-one at the ends of ranges and dtype overflows need specific bounds.",
    ["core.py", "tools/misc.py", "tools/tensormaker.py"],
    [("Problem.generate_values/generate_batch, bounds handling", S + "core.py"), ("make_uniform, make_gaussian, make_randint", S + "tools/misc.py"), ("TensorMakerMixin", S + "tools/tensormaker.py")],
    ["generated tensors"],
)
prop(
    "C08",
    "Variation operators give valid children made from the selected parents",
    "Crossover operators produce the documented number of children whose every element comes from (or, for arithmetic crossovers, stays within the documented reach of) the two parents of that child at that position, and never invent or misplace values; mutation follows its stated law and probability, and the permutation operator moves values only within their own position. Results respect the strict bounds and data type of the problem, and the operators leave their input batch unmodified. Tournament selection always prefers the better competitor in the sense of the objective.",
    ["inputs", "configurations", "histories"],
    "all population sizes, solution lengths, dtypes, bounds, operator parameters and senses",
    "Tests run operators once on typical sizes and check shapes; boundary violations and misplaced genes need generated populations.",
    ["operators/base.py", "operators/real.py", "operators/sequence.py"],
    [("CrossOver, tournament", S + "operators/base.py"), ("GaussianMutation, SBX, polynomial mutation, multi-point/cosyne operators", S + "operators/real.py"), ("CutAndSplice", S + "operators/sequence.py")],
    ["returned batches/tensors versus input population"],
)
prop(
    "C09",
    "Search distributions sample, differentiate and update by their formulas",
    "For every distribution, sampling gives the requested number of vectors following the stated parameters (with exact mirror pairs for symmetric distributions), and the gradients computed from given samples and fitnesses equal the documented estimator for every ranking method, sense and parenthood ratio. Updating gives a new distribution of the same kind whose parameters are the old ones plus learning rate times gradient (or the documented exponential update), leaving the old distribution and the caller's inputs unmodified.",
    ["inputs", "configurations", "histories"],
    "all means, scales, sample sets, fitness vectors, ranking methods, senses and learning rates, for the separable, symmetric, CEM and exponential Gaussians, as objects and as pure functions",
    "Existing tests barely test gradients; formula errors show only as slower convergence.",
    ["distributions.py"],
    [("SeparableGaussian, SymmetricSeparableGaussian, ExpSeparableGaussian, ExpGaussian", S + "distributions.py")],
    ["sample / compute_gradients / update_parameters / to / modified_copy results"],
)
prop(
    "C10",
    "Functional algorithms: a batch of searches equals the searches run one by one",
    "For the pure-functional algorithms (gradient-based, distribution-based and cross-entropy), asking and telling on a state with extra leftmost dimensions gives for each batch item exactly the result of running that item on its own with the same samples and fitnesses. Telling never modifies the given state, population or fitnesses, and each update equals the documented formula in both objective senses.",
    ["inputs", "histories", "configurations"],
    "all batch shapes of centers/stdevs/learning rates (including hyperparameters batched on their own), senses, ranking methods, optimizers and multi-step ask/tell histories",
    "Tests check that results have the right shapes or converge; broadcasting mistakes mix batch items silently.",
    ["algorithms/functional/funccem.py", "algorithms/functional/funcpgpe.py", "algorithms/functional/funcadam.py", "algorithms/functional/funcclipup.py", "algorithms/functional/funcsgd.py", "algorithms/functional/misc.py"],
    [("cem/pgpe/adam/clipup/sgd state, ask and tell", S + "algorithms/functional/"), ("expects_ndim batching", S + "decorators.py")],
    ["states and populations returned"],
)
prop(
    "C11",
    "Optimizers follow their published update rules over any gradient sequence",
    "Over every sequence of gradients, the ascent steps of ClipUp, Adam and SGD equal their published update rules (momentum, norm clipping of the gradient and of the velocity, bias correction), and ClipUp never moves by more than its maximum speed. The object-oriented and the functional versions give the same trajectory, illegal hyperparameters are rejected, and the gradient given by the caller is not modified.",
    ["histories", "inputs", "configurations"],
    "all gradient sequences (including huge, tiny and zero ones; never zero for ClipUp, whose rule divides by the norm), hyperparameters and data types",
    "Tests run a couple of steps on a convex function.",
    ["optimizers.py", "algorithms/functional/funcadam.py", "algorithms/functional/funcclipup.py", "algorithms/functional/funcsgd.py"],
    [("TorchOptimizer, Adam, SGD, ClipUp", S + "optimizers.py")],
    ["ascend(...) results", "functional states"],
)
prop(
    "C12",
    "SNES, PGPE, CEM and XNES steps equal their documented distribution updates",
    "In every generation of the distribution-based algorithms, the population lies on the current center and standard deviation, and the next center and standard deviation are those which the documented update yields from that population and its fitnesses, with the configured ranking, optimizer and learning rates. The configured limits on the standard deviation (minimum, maximum, maximum relative change) hold after every update, for both objective senses. The population has the configured size, or with an interaction budget grows until the budget or the maximum size is reached.",
    ["histories", "configurations", "inputs"],
    "all hyperparameter combinations and run lengths on arbitrary fitness functions, both senses",
    "Tests check that the fitness improves; a wrong limit or swapped learning rate still improves.",
    ["algorithms/distributed/gaussian.py", "distributions.py", "optimizers.py", "tools/misc.py"],
    [("GaussianSearchAlgorithm step", S + "algorithms/distributed/gaussian.py"), ("modify_tensor", S + "tools/misc.py")],
    ["status: center, stdev, population, mean_eval"],
)
prop(
    "C13",
    "CMA-ES updates its mean, step size and covariance by the published equations",
    "In every generation, CMA-ES samples around the current mean with the current step size and covariance, moves the mean by the weighted recombination of the best solutions in the sense of the objective, and updates evolution paths, step size and covariance by the published equations for the configured coefficients. The step size and standard deviation limits hold after every step, for full and separable covariance.",
    ["histories", "configurations", "inputs"],
    "all solution lengths (including 1), population sizes, coefficient settings, separable/full, active or not, arbitrary fitness functions and senses",
    "Tests check convergence on one function only.",
    ["algorithms/cmaes.py"],
    [("CMAES step and update equations", S + "algorithms/cmaes.py")],
    ["status: center, sigma/stepsize, population, pop_best"],
)
prop(
    "C14",
    "Genetic algorithms keep population size, elites and true fitnesses",
    "After every generation of the genetic algorithm family the population has the configured size, holds only solutions inside the bounds, and every fitness in it is the fitness of its decision values. With elitism the best fitness never gets worse (with several objectives no solution of the previous first front is lost to a solution it dominates) and survivors are the best of parents and children. Without elitism the configured replacement is followed, and when re-evaluation is on, every parent is evaluated anew.",
    ["histories", "configurations", "inputs"],
    "all operator pipelines, population sizes, elitism/re-evaluation settings, single- and multi-objective problems, numeric and object-typed solutions",
    "Tests run a few fixed configurations and check improvement.",
    ["algorithms/ga.py", "operators/base.py"],
    [("GeneticAlgorithm, SteadyStateGA, Cosyne", S + "algorithms/ga.py")],
    ["searcher.population after every step", "status"],
)
prop(
    "C15",
    "The MAP-Elites archive keeps in each cell the best solution that fits it",
    "After every generation, each filled cell of the archive holds a solution whose features lie inside that cell, and this solution is the best (in the objective's sense) among all the solutions evaluated so far whose features fall inside the cell. A cell is reported as filled exactly when some evaluated solution fell inside it, and the cells of a feature grid tile the whole feature space with the requested numbers of bins.",
    ["histories", "inputs", "configurations"],
    "all feature grids (equal-size and custom cells, outer cells unbounded), senses, feature functions and operator pipelines over many generations",
    "Tests only run examples; archive loss or misplacement needs a history-wide comparison.",
    ["algorithms/mapelites.py"],
    [("MAPElites step and cell assignment", S + "algorithms/mapelites.py"), ("make_feature_grid", S + "algorithms/mapelites.py")],
    ["population, filled, feature grid after every step"],
)
prop(
    "C16",
    "Search runs count steps, fire hooks and report status consistently",
    "Running a search for n generations performs exactly n steps; the reported iteration number equals the number of steps taken so far; and the status shown after a step (mean, median, best of population, best so far, problem status) describes the population of that very step. Before-step and after-step hooks run exactly once per step in registration order, their returned entries appear in the status, an end-of-run hook runs once per run, and log hooks receive the completed status.",
    ["histories", "configurations"],
    "all algorithms and all interleavings of step(), run(n), hook registrations and status reads",
    "Tests run one algorithm for a few steps with one hook.",
    ["algorithms/searchalgorithm.py", "tools/hook.py"],
    [("SearchAlgorithm.step/run, LazyStatusDict, LazyReporter, SinglePopulationAlgorithmMixin", S + "algorithms/searchalgorithm.py")],
    ["status, step_count, hook logs"],
)
prop(
    "C17",
    "Loggers record exactly the scheduled generations with that generation's status",
    "Counting generations from its attachment, a logger with interval k records every k-th one (or, with the after-first-step option, the ones numbered 1, 1+k, 1+2k, ...) and no other, and each record equals the status of that generation restricted to loggable entries. A data frame made from the records has one row per record in order; a pickling logger's files hold the chosen entries as they were when saved and load as plain tensors, and the last generation is saved at the end of a run.",
    ["histories", "configurations"],
    "all intervals, run splits and numbers of loggers attached to the same search",
    "Tests check a single logger once.",
    ["logging.py"],
    [("Logger, ScalarLogger, PandasLogger, StdOutLogger, PicklingLogger", S + "logging.py")],
    ["records, data frames, printed text, pickle files"],
)
prop(
    "C18",
    "Read-only tensors and immutable containers never change through themselves",
    "No operation on a read-only tensor (in-place methods and operators, indexing assignment, output arguments, on it or on its views, slices and reshapes) changes its content: it either raises or returns a new value. Reading operations give the same result as on the plain tensor, clones are ordinary mutable copies, and immutable containers have equal content to their originals, are immutable at every level, and convert back to equal independent mutable ones.",
    ["inputs", "histories", "programs"],
    "all chains of view-taking operations followed by any mutating operation of the tensor library; all nested containers",
    "Tests try a fixed list of operations on one tensor.",
    ["tools/readonlytensor.py", "tools/immutable.py"],
    [("ReadOnlyTensor", S + "tools/readonlytensor.py"), ("as_immutable, mutable_copy, Immutable containers", S + "tools/immutable.py")],
    ["content of the tensor before/after", "container equality"],
)
prop(
    "C19",
    "Clones and pickled copies are equal to and independent from the original",
    "Cloning or pickling problems, solutions, batches, distributions, containers and tensors (including a clone of several objects which share parts) gives an object with equal observable content in which shared parts stay shared. Afterwards no change to either one is visible in the other. Pickling a view stores only the visible part of the data, and cloning a search problem during or after a run keeps its status and settings.",
    ["inputs", "histories", "programs"],
    "all object graphs built from the supported types (nested, shared and cyclic references), all points of a run",
    "Tests clone a few fixed objects.",
    ["tools/cloning.py", "core.py", "tools/objectarray.py", "tools/immutable.py", "tools/readonlytensor.py", "distributions.py"],
    [("deep_clone, Clonable, Serializable, ReadOnlyClonable", S + "tools/cloning.py")],
    ["content and identity structure of the copies"],
)
prop(
    "C20",
    "Object arrays behave as one-dimensional arrays of immutable private values",
    "An object array behaves like a one-dimensional array of values under indexing, slicing, masks, index lists, assignment, repetition, iteration and copying, as a list would. Stored values are private immutable copies: changing the original container afterwards, or what is read from the array, never changes the array. Slices share memory with the original and index-list selections are copies.",
    ["histories", "inputs"],
    "all sequences of array operations with nested values, compared with a Python list model",
    "Tests cover single operations with few element types.",
    ["tools/objectarray.py", "tools/immutable.py"],
    [("ObjectArray", S + "tools/objectarray.py")],
    ["array content after each operation"],
)
prop(
    "C21",
    "Batched memories, dictionaries, lists and bags behave as Python ones per item",
    "For the tensor-backed memory, dictionary, list and bag structures, every sequence of operations (with keys or element indices, masks, defaults, and any batch shape) leaves in each batch item exactly the content which an ordinary Python dictionary, list/deque or bag holds after the same sequence on that item. Items excluded by a mask are untouched, and illegal accesses are rejected when verification is on.",
    ["histories", "inputs", "configurations"],
    "all operation sequences over all key ranges and offsets, fill values, dtypes, batch shapes and masks",
    "Tests run fixed short sequences on 0/1 batch dimensions; mistakes in masks, wrap-around and multi-dimensional batches need generated sequences.",
    ["tools/structures.py"],
    [("CMemory, CDict, CList, CBag", S + "tools/structures.py")],
    ["reads of every item after every operation"],
)
prop(
    "C22",
    "Functions declared for fixed dimensions give per-item results on batched inputs",
    "A function declared to expect given numbers of dimensions (or to work row by row), when called with arguments having extra leftmost dimensions, returns the stack of the results of the function on each item, where the extra dimensions of the arguments are aligned from the right and those which lack them are shared. Arguments declared as unbatched are passed as they are, scalars and arrays become tensors, declared randomness modes are honoured, and arguments with too few dimensions are rejected.",
    ["inputs", "programs"],
    "all combinations of expected dimensions, batch shapes per argument, static arguments, nested applications, scalar/numpy arguments",
    "Tests fix a few shapes.",
    ["decorators.py"],
    [("expects_ndim, rowwise, vectorized", S + "decorators.py")],
    ["results versus explicit loop"],
)
prop(
    "C23",
    "Constraint violations and penalties follow their definitions in any batch shape",
    "The amount of violation of a constraint (<=, >=, ==) is zero exactly when the constraint holds and otherwise equals the distance to the bound. Penalties (linear plus optional step, log barrier, exponential) added to fitnesses equal their documented formulas, are never in favour of the violating solution in either objective sense, and work per item on batched inputs.",
    ["inputs", "configurations"],
    "all value pairs (including equality and infinities), comparison kinds, penalty parameters, senses, batch shapes",
    "Tests check a few fixed numbers.",
    ["tools/constraints.py"],
    [("violation, log_barrier, penalty", S + "tools/constraints.py")],
    ["returned values"],
)
prop(
    "C24",
    "Tensor making, conversion and clipping tools do what they state",
    "The tensor-making tools (as functions and as methods of problems and tensor makers) give tensors of the requested size, data type and content, into the given output when one is given. Conversions between data types, tensors, arrays and object arrays preserve content. The clipping and modifying tools never leave a value outside its lower/upper bounds nor let a value within them change by more than the stated ratio, and work in place only when asked.",
    ["inputs", "configurations"],
    "all shapes, dtypes, values, bounds, in-place flags and output arguments",
    "Tests check typical calls.",
    ["tools/misc.py", "tools/tensormaker.py"],
    [("make_*, modify_tensor, clip_tensor, to_*_dtype, as_tensor, empty_tensor_like, split_workload, stdev_from_radius", S + "tools/misc.py")],
    ["returned tensors"],
)
prop(
    "C25",
    "A seeded search is reproducible and does not depend on outside randomness",
    "Two problems built alike with the same seed give identical random values, populations and search trajectories for every algorithm, whatever other random numbers are drawn from the global generators in between. Different seeds give different values, seeding a problem again restarts its stream, and a problem without a seed follows the global generator. Randomness within actors follows from the seed of the problem as well.",
    ["histories", "configurations", "schedules"],
    "all algorithms and problem kinds, all interleavings with global random number consumption",
    "Tests check a single seeded generation.",
    ["core.py", "tools/misc.py", "distributions.py", "algorithms/", "operators/"],
    [("Problem generator passed to every sampling site", S + "core.py"), ("generator arguments of make_* and operators", S + "tools/misc.py")],
    ["populations and statuses of paired runs"],
)
prop(
    "C26",
    "Networks: text form, flat parameters, functional and stateful calls agree",
    "A network written as text equals the network built by hand from the same layers. Flattening and filling parameters is lossless and in a fixed order, the functional form of a network called with a parameter vector gives the same outputs as the original network holding these parameters (also for batches of parameter vectors and inputs), and recurrent networks give per step the output and state of their definition, resetting where told.",
    ["inputs", "programs", "histories"],
    "all layer compositions in the mini-language, parameter vectors, batch shapes, input sequences and reset masks",
    "Tests build a few fixed networks.",
    ["neuroevolution/net/parser.py", "neuroevolution/net/layers.py", "neuroevolution/net/functional.py", "neuroevolution/net/vecrl.py", "neuroevolution/net/misc.py", "neuroevolution/net/statefulmodule.py", "neuroevolution/net/multilayered.py"],
    [("str_to_net", S + "neuroevolution/net/parser.py"), ("ModuleExpectingFlatParameters, make_functional_module", S + "neuroevolution/net/functional.py"), ("Policy", S + "neuroevolution/net/vecrl.py"), ("RNN, LSTM, FeedForwardNet, ...", S + "neuroevolution/net/layers.py")],
    ["outputs and states versus reference"],
)
prop(
    "C27",
    "Running normalization statistics equal the statistics of all data seen",
    "After any sequence of updates with single observations, batches, masked batches or other statistics objects, split or merged in any way, the reported count, mean and standard deviation equal those of all observations given so far, and normalizing an observation gives (observation - mean) / standard deviation clipped to the configured range. Exported normalization layers, copies and moved copies behave the same, and the data given by the caller is never modified.",
    ["histories", "inputs", "configurations"],
    "all update sequences, partitions and merges, clip ranges, shapes and dtypes, for the tensor and the plain numpy version",
    "Tests compare a single update sequence.",
    ["neuroevolution/net/runningnorm.py", "neuroevolution/net/runningstat.py"],
    [("RunningNorm", S + "neuroevolution/net/runningnorm.py"), ("RunningStat", S + "neuroevolution/net/runningstat.py"), ("CollectedStats", S + "neuroevolution/net/runningnorm.py")],
    ["mean, stdev, count, normalize results"],
)
prop(
    "C28",
    "Policy fitness is the mean episode return, in classic and vectorized simulation",
    "The fitness given to a policy equals the average over its episodes of the summed (adjusted) rewards which the environment gives for that policy's actions, with episode length limit, reward decrease, alive bonus schedule and action clipping as configured, and each policy is simulated independently of the others in the batch. Reported interaction and episode counts equal those actually performed, and the observation statistics are those of the observations actually seen.",
    ["histories", "configurations", "inputs"],
    "all deterministic environments (continuous/discrete actions, early termination and truncation), policies, episode counts and lengths, normalization settings, batch sizes versus number of simulated environments",
    "Tests run CartPole-like examples without a reference for the returned fitness.",
    ["neuroevolution/gymne.py", "neuroevolution/vecgymne.py", "neuroevolution/net/rl.py", "neuroevolution/net/vecrl.py"],
    [("GymNE rollout", S + "neuroevolution/gymne.py"), ("VecGymNE rollout", S + "neuroevolution/vecgymne.py"), ("AliveBonusScheduleWrapper, ActClipWrapperModule", S + "neuroevolution/net/rl.py"), ("SyncVectorEnv, TorchWrapper, array conversions", S + "neuroevolution/net/vecrl.py")],
    ["fitnesses, status counts, observation statistics"],
)
prop(
    "C29",
    "Neuroevolution problems evaluate exactly the network a solution encodes",
    "For a generic or supervised neuroevolution problem, the fitness of a solution is the user's evaluation (or the loss on the current minibatch) of the network filled with that solution's decision values, and the solution length equals the number of parameters of the network. Networks made from a solution reproduce those values, are independent of the problem, and every solution of a batch sees the same minibatch when a common minibatch is requested.",
    ["inputs", "configurations", "histories"],
    "all networks (object, text, class or factory form), datasets, minibatch sizes and batches",
    "Tests run one supervised example.",
    ["neuroevolution/neproblem.py", "neuroevolution/supervisedne.py", "neuroevolution/baseneproblem.py"],
    [("NEProblem.parameterize_net/make_net/evaluate", S + "neuroevolution/neproblem.py"), ("SupervisedNE loss and minibatch handling", S + "neuroevolution/supervisedne.py")],
    ["fitnesses and parameterized networks"],
)
prop(
    "C30",
    "Hooks are ordered mutable lists of callables whose results are merged in order",
    "A hook behaves as a mutable list of functions under every list operation. Calling it calls every function once in order with the given and the pre-registered arguments, and merges returned dictionaries in order (later ones winning), or accumulates nothing when nothing is returned. Status dictionaries computed on demand show for each key the current value from its getter, computed at most once per step.",
    ["histories", "inputs"],
    "all sequences of list operations and calls, all argument and return value combinations",
    "Tests use one or two functions.",
    ["tools/hook.py", "algorithms/searchalgorithm.py"],
    [("Hook", S + "tools/hook.py"), ("LazyReporter", S + "algorithms/searchalgorithm.py")],
    ["hook content and call results"],
)
prop(
    "C31",
    "Restarting searches restart exactly on their stated condition, keeping the best",
    "A restarting search behaves as its inner algorithm until the stated condition (termination of the inner algorithm or fitness spread below the threshold) is met, then continues with a fresh inner algorithm on the same problem built from the same arguments, with the population size multiplied as configured. Step counts go on increasing over restarts, the number of restarts is reported, and the best solution so far is never lost.",
    ["histories", "configurations"],
    "all inner algorithms, thresholds, population growth factors and run lengths",
    "There is no test over restarts triggered at different generations.",
    ["algorithms/restarter/restart.py", "algorithms/restarter/modify_restart.py"],
    [("Restart, IPOP", S + "algorithms/restarter/")],
    ["status per step, inner algorithm configuration"],
)
prop(
    "C32",
    "The pycma-based search follows the pycma solver",
    "A search using the pycma solver evaluates in every generation exactly the solutions which that solver, driven directly with the same seed and settings, asks for, and tells it their fitnesses with the right sign for the objective sense. Center, step size and population size reported in the status are those of the solver; bounds of the problem are respected, and settings which the solver does not support are refused.",
    ["histories", "configurations"],
    "all combinations of initial centers, step sizes (one or one per variable), population sizes, bounds, objective senses, seeds and run lengths",
    "Tests run one fixed problem and only look whether it runs.",
    ["algorithms/pycmaes.py"],
    [("PyCMAES", S + "algorithms/pycmaes.py")],
    ["evaluated solutions and status per generation"],
)
prop(
    "C33",
    "Assertion helpers raise exactly when the stated condition fails",
    "The assertion helpers for closeness, bounds, dtypes and shapes raise an assertion error exactly when the stated condition is false, for tensors, arrays, lists, scalars, solution batches and nested containers alike. Missing or contradictory tolerances are refused with an error of another kind.",
    ["inputs", "configurations"],
    "all values, tolerances, bounds, dtypes, shapes and kinds of containers",
    "The helpers are used by the tests but not tested themselves.",
    ["testing.py"],
    [("assert_allclose, assert_almost_between, assert_dtype_matches, assert_shape_matches, assert_eachclose", S + "testing.py")],
    ["raised or not, and the type of the error"],
)
prop(
    "C34",
    "Vectorized and wrapped environments behave as their parts stepped by hand",
    "A vectorized environment made of several environments returns in row i the observation, reward and end-of-episode flags of environment i for action i, and restarts an environment exactly when its episode ended. Tensor wrappers return the same numbers as tensors, accept actions as tensors, and convert and clip actions as configured; settings such as episode lengths, seeds and keyword arguments reach every part.",
    ["histories", "configurations", "inputs"],
    "all numbers of parts, episode lengths, seeds, action kinds, reset patterns and wrapper settings, in the current and in the classic interface",
    "Tests run a standard environment once without comparing the parts.",
    ["neuroevolution/net/vecrl.py"],
    [("SyncVectorEnv, TorchWrapper, make_gym_env, make_vector_env", S + "neuroevolution/net/vecrl.py")],
    ["everything returned by reset and step"],
)
prop(
    "C35",
    "A problem is exactly what it was declared to be",
    "The types, senses, lengths, bounds, extra data, random source and statistics settings that a problem reports, and the batches it makes, are exactly those declared, whatever form they were given in and whatever the caller later does with the arguments. Declarations that contradict themselves or miss a required setting are refused with an error, and so are objective indices and requirements (numeric, unbounded, single-objective) the problem does not satisfy.",
    ["configurations"],
    "all combinations of types, senses, lengths, scalar and vector bounds, extra data lengths, seeds and fitness function kinds, and every single contradictory change to them",
    "Tests declare a few valid problems and hardly any invalid ones.",
    ["core.py"],
    [("Problem", S + "core.py")],
    ["reported settings", "shapes and types of new batches", "errors raised"],
)
prop(
    "C36",
    "Gradients computed through a problem belong to the solutions it evaluated",
    "When a problem is asked to sample solutions from a search distribution and to compute gradients, it evaluates that many solutions of the distribution and returns the distribution's gradients for them according to the requested objective, its sense and the ranking method, together with the number of solutions and their mean fitness unless statistics are declined. With parallel workers, one such result is returned per share of the work, the shares following the configured split (rounded up to even sizes where required); with an interaction goal, further batches are sampled until the goal or the maximum population size is reached. The hooks before and after are called once each, and contradictory requests are refused with an error.",
    ["distributions", "problem configurations"],
    "four kinds of distributions, all ranking methods, one to three objectives, mixed precisions, 2-16 solutions, up to 3 workers with each way of splitting, interaction goals",
    "Tests only run whole searches; they never look at what a problem returns when asked for gradients.",
    ["core.py"],
    [("Problem.sample_and_compute_gradients", S + "core.py")],
    ["returned gradients and statistics", "evaluated solutions", "hook calls", "errors raised"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
