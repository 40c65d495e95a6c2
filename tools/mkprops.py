#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "Generation protocol: every run is a sequence of complete, counted generations",
 "A run of any optimizer is a sequence of complete generations: candidates are generated, evaluated and handed back before the next are generated, the generation counter starts at 1 and grows by exactly one per completed generation, every individual is stamped with the generation that created it, and in each completed generation the optimum is set, then the stopping criterion, the display, the history and the callback see the new state exactly once and in that order, and afterwards the archive receives exactly the candidates handed back. Nothing happens after the run has ended, and running to completion, stepping with next(), and driving it by ask/tell produce the same generations. (Dynamic optimizers may generate and evaluate inside their step and hand out nothing.)",
 ["histories", "configurations", "programs"],
 "for every optimizer, problem, operator configuration, stopping criterion, and every way of driving the run (run, next, ask/tell, step-wise and iterator), over whole histories",
 "The tests run a few algorithms to the end and look at the final front; they never compare drive modes step by step nor check callback/history/counter order at each generation for all algorithms.",
 ["pymoo/core/algorithm.py", "pymoo/optimize.py", "pymoo/core/callback.py", "pymoo/algorithms/base/genetic.py", "pymoo/core/population.py"],
 [("run / next / ask / tell / infill / advance / _post_advance", "pymoo/core/algorithm.py"), ("LoopwiseAlgorithm", "pymoo/core/algorithm.py"), ("minimize", "pymoo/optimize.py")],
 ["Callback.notify / update", "problem evaluation calls", "algorithm.n_iter, n_gen, is_initialized, history, pop stamps after every public call"],
 [("n_iter", "current generation", "pymoo/core/algorithm.py"), ("is_initialized", "first generation completed", "pymoo/core/algorithm.py"), ("history", "copies of the state after each generation", "pymoo/core/algorithm.py")])

prop("C02", "Evaluations are counted exactly, and values belong to their own solution",
 "At every point of a run the evaluation counter equals the number of solutions actually submitted to the problem; solutions that already carry the requested values are neither submitted nor counted again, and their values stay untouched. Every solution marked as evaluated carries exactly the objective and constraint values the problem defines for its own variables, whatever batch, order or subset it was evaluated in, and an evaluation that fails with an exception leaves the counter and the markings as they were.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "for every sequence of evaluator calls on populations or single solutions with any mix of already evaluated members, requested values, counting switch, evaluation failures, and every optimizer run",
 "The tests count evaluations for a few plain populations; partial re-evaluation, repeated members, failures in the middle, and counters inside every optimizer and wrapper are not enumerated.",
 ["pymoo/core/evaluator.py", "pymoo/core/individual.py", "pymoo/core/problem.py", "pymoo/core/algorithm.py", "pymoo/constraints/adaptive.py", "pymoo/algorithms"],
 [("Evaluator.eval / _eval", "pymoo/core/evaluator.py"), ("Individual.evaluated", "pymoo/core/individual.py")],
 ["the problem's evaluation function (every row it is called with)", "evaluator.n_eval", "X,F,G,H,evaluated of individuals after every call"],
 [("n_eval", "solutions submitted so far", "pymoo/core/evaluator.py"), ("evaluated", "set of values known for an individual", "pymoo/core/individual.py")])

prop("C03", "Stopping criteria stop a run at exactly the point they define",
 "A budget of n generations stops a run after exactly n generations, an evaluation budget stops it at the first generation boundary at which it is used up, and tolerance-based criteria stop exactly when their measured change has stayed below tolerance for the configured period or their maximum budget is reached. A change is measured against the last generation in which it exceeded the tolerance. A composite criterion stops when any (or, where so declared, all) of its parts do, forcing a criterion stops the run at the next generation boundary, progress always lies between 0 and 1, a run stops exactly when its criterion is fulfilled or is forced, and a criterion object used for one run does not influence another.",
 ["histories", "configurations", "inputs"],
 "for every sequence of populations and counters shown to the criterion, every criterion and combination of them, every period/skip/tolerance setting, and every optimizer",
 "The tests only check that some criteria eventually stop a few runs; the exact stopping generation over all histories, including forced termination, skipping and composite criteria, is not examined.",
 ["pymoo/core/termination.py", "pymoo/termination", "pymoo/util/sliding_window.py", "pymoo/core/algorithm.py", "pymoo/optimize.py"],
 [("Termination.update/terminate/has_terminated", "pymoo/core/termination.py"), ("DeltaToleranceTermination", "pymoo/termination/delta.py"), ("RobustTermination", "pymoo/termination/robust.py"), ("DefaultTermination", "pymoo/termination/default.py"), ("TerminateIfAny/All", "pymoo/termination/collection.py")],
 ["termination.update return value", "termination.perc", "algorithm.has_next", "n_gen / n_eval at the end"],
 [("perc", "progress in [0,1]", "pymoo/core/termination.py"), ("data/counter", "history window", "pymoo/termination")])

prop("C04", "The reported optimum is exactly the best of what the optimizer holds",
 "At every generation and in the final result the reported optimum is non-empty whenever solutions exist and consists of exactly the non-dominated feasible solutions of the current population (for one objective: a feasible solution with minimal objective), or, if none is feasible, of a solution with the least violation. (Documented variations: NSGA-III style methods report, of those, the ones next to a reference direction; RVEA reports every feasible member, one per reference vector; NicheGA the best of every niche; MOPSO_CD its archive; evolution strategies, CMA-ES and pattern search the best found so far.) The variables, objectives and constraints in the result belong to those same solutions in the same order, are empty when nothing feasible was found unless the least infeasible was asked for, and success and message agree with them.",
 ["inputs", "histories", "configurations"],
 "for every population of feasible, infeasible, tied and duplicated solutions, for one or many objectives, every optimizer and every generation",
 "The tests inspect final fronts of a few problems against tolerances; ties, duplicates, all-infeasible populations, and result consistency are sampled by hand-written cases only.",
 ["pymoo/core/algorithm.py", "pymoo/util/optimum.py", "pymoo/core/result.py", "pymoo/optimize.py"],
 [("filter_optimum", "pymoo/util/optimum.py"), ("Algorithm._set_optimum / result", "pymoo/core/algorithm.py")],
 ["algorithm.opt vs algorithm.pop at every callback", "Result fields"],
 [("opt", "reported best solutions", "pymoo/core/algorithm.py")])

prop("C05", "Environmental selection keeps exactly the best members, feasible first",
 "Survival of any population-based optimizer returns distinct members of what it was given, unchanged in variables and objectives, and exactly as many as requested (or all, if fewer). It never drops a feasible solution while keeping an infeasible one and, where it ranks by violation, never drops a less violated infeasible solution for a more violated one; among feasible solutions no survivor of a method that sorts by fronts lies in a worse non-domination front (or has a worse objective, when there is one objective) than a dropped solution, and ties in the last front are cut by the density measure the method defines. Methods with another rule follow that rule: SPEA2 prefers non-dominated members and then the smaller fitness, SMS-EMOA drops the smallest exclusive hypervolume of the last front, RVEA keeps one solution per reference vector, pairwise replacement (GDE3) drops a solution only for the one it is compared with.",
 ["inputs", "configurations", "histories"],
 "for every population (ties, duplicates, infinite and equal objectives, mixtures of feasible and infeasible), every requested size and every survival operator",
 "Tests call survival on a few random feasible fronts; small-scope exhaustive combinations of fronts, violations, duplicates and sizes are never enumerated.",
 ["pymoo/core/survival.py", "pymoo/operators/survival", "pymoo/algorithms/moo", "pymoo/algorithms/soo/nonconvex/ga.py", "pymoo/algorithms/soo/nonconvex/es.py"],
 [("Survival.do", "pymoo/core/survival.py"), ("RankAndCrowding, ConstrRankAndCrowding", "pymoo/operators/survival/rank_and_crowding"), ("SPEA2/NSGA3/SMS/AGE/... survivals", "pymoo/algorithms/moo"), ("FitnessSurvival", "pymoo/algorithms/soo/nonconvex/ga.py")],
 ["input and output populations of every survival call"],
 [("rank, crowding", "attributes given to members", "pymoo/operators/survival")])

prop("C06", "Non-dominated sorting yields exactly the dominance layers, in every variant",
 "For every set of objective vectors the fronts partition all indices and front k is exactly the set of points that become non-dominated once fronts 1..k-1 are removed; the rank of a point is the index of its front, and the non-dominated-only mode returns exactly the first front. All available sorting methods, compiled or not, return the same layers, stopping early only yields a prefix of them that covers the requested number of points, and dominance itself is a strict partial order in which smaller violation precedes objectives.",
 ["inputs", "configurations"],
 "for every finite matrix of objective values (ties, duplicates, infinities), every number of objectives, every sorting method and every early-stopping request",
 "The tests compare a few methods on random continuous matrices, in which ties and duplicates practically never occur.",
 ["pymoo/util/nds", "pymoo/functions/standard/non_dominated_sorting.py", "pymoo/functions/compiled/non_dominated_sorting.pyx", "pymoo/util/dominator.py"],
 [("NonDominatedSorting", "pymoo/util/nds/non_dominated_sorting.py"), ("find_non_dominated", "pymoo/util/nds"), ("Dominator.get_relation / calc_domination_matrix", "pymoo/util/dominator.py")],
 ["fronts and ranks returned"])

prop("C07", "Offspring are new, distinct, and no more than requested",
 "The candidates a genetic optimizer generates contain no two duplicates and none that duplicates the current population according to the configured duplicate criterion, are at most the requested number, and are exactly that number unless the bounded number of mating attempts is exhausted; the final optional shortfall never loops forever. Duplicate elimination keeps exactly one representative of every group of equal solutions, keeps everything that is not a duplicate in order, and changes nothing else.",
 ["inputs", "histories", "configurations"],
 "for every pair of populations, every duplicate criterion (default, element-wise, hash, none), every mating configuration and problem, including tiny discrete spaces in which new solutions run out",
 "Tests check duplicate elimination on a handful of fixed matrices, and mating never on spaces small enough for the retries to be exhausted.",
 ["pymoo/core/duplicate.py", "pymoo/core/infill.py", "pymoo/core/mating.py", "pymoo/core/initialization.py", "pymoo/core/mixed.py"],
 [("DuplicateElimination.do", "pymoo/core/duplicate.py"), ("InfillCriterion.do", "pymoo/core/infill.py"), ("Initialization.do", "pymoo/core/initialization.py")],
 ["populations passed in and returned", "evaluated candidates of runs"])

prop("C08", "Every candidate ever evaluated lies in the declared search space",
 "Every solution submitted for evaluation lies within the declared bounds and has the declared type: integers stay integers, binary variables stay binary, permutations stay permutations, and choices stay among their options, for all samplings, crossovers, mutations, repairs and local or direct search moves. A coordinate-wise repair moves only the coordinates that violate the bounds, no repair moves a solution within the bounds, and repairing twice gives the same as once.",
 ["inputs", "histories", "configurations"],
 "for every optimizer, operator and parameter setting, every bound vector (asymmetric, zero width, negative, tiny, huge), every variable type and every generation",
 "Tests run operators on a few unit boxes; degenerate or asymmetric bounds, extreme parameters and every optimizer's internal moves are not covered.",
 ["pymoo/operators", "pymoo/core/variable.py", "pymoo/core/mixed.py", "pymoo/core/repair.py", "pymoo/algorithms", "pymoo/util/misc.py"],
 [("Repair", "pymoo/operators/repair"), ("sampling", "pymoo/operators/sampling"), ("crossover/mutation", "pymoo/operators"), ("set_to_bounds_if_outside / repair_* ", "pymoo/operators/repair, pymoo/util")],
 ["every row the problem is called with", "operator outputs"])

prop("C09", "The same seed gives the same run, and nothing passed in is modified",
 "Two runs of the same optimizer configuration on the same problem with the same seed produce identical histories and results, whatever the global random number generators contain, whatever ran before in the process, and independently of display or history options. Starting a run modifies neither the algorithm nor the stopping criterion object passed in, so the same objects can be used again with the same outcome, and a run neither reads nor advances the global random state.",
 ["histories", "configurations", "programs"],
 "for every optimizer, operator, problem type, seed and earlier activity of the process",
 "Tests compare two runs of a few default algorithms in a fresh process; operators outside the defaults and hidden global or shared state are not exercised.",
 ["pymoo/core/algorithm.py", "pymoo/util/__init__.py", "pymoo/optimize.py", "pymoo/operators", "pymoo/algorithms"],
 [("default_random_state", "pymoo/util/__init__.py"), ("Algorithm.setup(seed)", "pymoo/core/algorithm.py"), ("minimize copies", "pymoo/optimize.py")],
 ["evaluated rows of every generation of both runs", "global RNG state before/after"])

prop("C10", "An interrupted run can be copied, pickled and resumed without a difference",
 "If a run is interrupted between two generations, and its state is deep-copied or pickled and restored, continuing the copy produces exactly the generations, evaluations and result the uninterrupted run would have produced, and continuing one does not disturb the other. A finished run that is given a larger budget continues from where it ended.",
 ["crash_points", "histories", "configurations"],
 "for every optimizer and every generation boundary as interruption point, with copying or serialising, and any interleaving of the original and the copies afterwards",
 "The documentation resumes one run at one point; interruption at every generation of every optimizer, and independence of original and copy, are not tested.",
 ["pymoo/core/algorithm.py", "pymoo/core/termination.py", "pymoo/core/population.py", "pymoo/core/individual.py", "pymoo/core/problem.py", "pymoo/optimize.py"],
 [("copy.deepcopy / pickle of Algorithm", "pymoo/core/algorithm.py"), ("Termination state", "pymoo/core/termination.py")],
 ["generations of original and restored runs"])

prop("C11", "The archive always holds exactly the best of everything offered to it",
 "After any sequence of insertions a best-solutions archive contains no two solutions of which one dominates or duplicates the other, every member was offered, and every offered feasible solution is a member, is dominated by or duplicates a member, or was cut by the capacity; infeasible solutions are only kept while nothing feasible was offered. The capacity is never exceeded, truncation keeps exactly the configured number, and adding never changes the archive it was called on.",
 ["histories", "inputs", "configurations"],
 "for every sequence of batches offered (any order, ties, duplicates, infeasible first or later), every capacity and truncation method",
 "Tests insert a few fixed batches; arbitrary histories and interplay of capacity, duplicates and infeasibility are not enumerated.",
 ["pymoo/util/archive.py", "pymoo/util/optimum.py", "pymoo/core/algorithm.py"],
 [("Archive.add", "pymoo/util/archive.py"), ("default_archive / MultiObjectiveArchive / SingleObjectiveArchive", "pymoo/util/archive.py")],
 ["archive contents after every add"],
 [("archive", "best solutions seen", "pymoo/util/archive.py")])

prop("C12", "Greedy replacement only ever improves, and the best is never lost",
 "In optimizers that replace solutions one against one, a solution is replaced only by one that is at least as good and, where the rule asks for improvement, strictly better: feasible beats infeasible, smaller violation beats larger, smaller objective beats larger, and all other positions remain untouched. In every elitist single-objective optimizer the best solution reported never becomes worse from one generation to the next, and the best-so-far memories of swarm methods equal the best of what each particle has visited.",
 ["histories", "inputs", "configurations"],
 "for every pair of populations, any constraint situation, and every generation of each single-objective optimizer",
 "Tests compare only the final objective with a tolerance; monotonicity at each generation and constrained replacement cases are not checked.",
 ["pymoo/core/replacement.py", "pymoo/algorithms/soo", "pymoo/algorithms/base", "pymoo/core/algorithm.py"],
 [("ImprovementReplacement / is_better / parameter_less", "pymoo/core/replacement.py"), ("DE, PSO, ES, GA, NM, PS, CMAES advance", "pymoo/algorithms/soo")],
 ["algorithm.opt and pop after each generation", "replacement input/output"])

prop("C13", "Parallel evaluation gives exactly the results of serial evaluation",
 "Whatever executes the evaluations of a batch, in whatever order, overlap or grouping the workers finish, every solution receives exactly the values serial evaluation would give it, each solution is evaluated exactly once, and a worker failure is reported instead of being turned into values for any solution. A problem or algorithm using a parallel runner can be copied and serialised without its runner.",
 ["schedules", "fault_sequences", "inputs"],
 "for every completion order and interleaving of workers, every runner, batch size and failing worker",
 "Tests use real pools whose schedule is effectively fixed and do not control completion order or failures.",
 ["pymoo/core/problem.py", "pymoo/parallelization", "pymoo/core/evaluator.py"],
 [("LoopedElementwiseEvaluation, elementwise_runner", "pymoo/core/problem.py"), ("Starmap/Joblib/Dask/Ray runners", "pymoo/parallelization")],
 ["values per solution, calls per solution"])

prop("C14", "Constraint violation is computed and used by one consistent definition",
 "The violation of a solution is zero exactly when every inequality is at most its tolerance and every equality is within its tolerance, and otherwise is the aggregate, with the configured scale, power and aggregation, of the amounts by which they are exceeded; it does not depend on the batch, on whether it was read before, or on the constraint order, and always reflects the constraint values currently held. A solution is feasible exactly when its violation is within the configured tolerance, and wrappers turning constraints into objectives, penalties or bounds use exactly that violation.",
 ["inputs", "configurations", "histories"],
 "for every vector of constraint values, every tolerance/scale/power configuration, and every history of reading, re-evaluating and copying",
 "Tests use a few constraint vectors and a default configuration; histories that read, change and re-read are not covered.",
 ["pymoo/core/individual.py", "pymoo/constraints", "pymoo/core/problem.py", "pymoo/core/population.py"],
 [("calc_cv / constr_to_cv", "pymoo/core/individual.py"), ("Individual.CV / FEAS", "pymoo/core/individual.py"), ("ConstraintsAsPenalty/Objective/FromBounds, AdaptiveEpsilon", "pymoo/constraints")],
 ["cv, CV, FEAS, feas of individuals and populations", "F of wrapped problems"])

prop("C15", "A problem's output has the declared shape and is a function of each row alone",
 "Evaluating a problem on any batch returns, for each declared value, an array with one row per solution in the same order and the declared width, and each row depends only on that solution: single, batched, permuted, element-wise and vectorised evaluation agree, and the input is not modified. Wrappers around a problem change only what they declare to change, bounds and counts included, and invalid output is reported rather than silently reshaped.",
 ["inputs", "configurations"],
 "for every problem (built-in, user-defined element-wise, vectorised or functional), batch and wrapper",
 "Tests evaluate built-in problems on stored reference points; batch independence and wrapper composition are not explored.",
 ["pymoo/core/problem.py", "pymoo/core/meta.py", "pymoo/problems", "pymoo/constraints"],
 [("Problem.evaluate / do / _format_dict", "pymoo/core/problem.py"), ("Meta", "pymoo/core/meta.py"), ("FunctionalProblem, StaticProblem, MultiToSingleObjective, ZeroToOne, decompose", "pymoo/problems")],
 ["arrays returned by evaluate"])

prop("C16", "Populations behave as ordered collections of individuals",
 "Creating, indexing, slicing, merging, copying, reading and writing populations preserve order and identity: what was written at a position is read there and nowhere else, merging is concatenation, a selection refers to the same individuals, and a copy marked as such shares no mutable state that later writes can expose. Values of the wrong length are rejected, and reading never changes what is stored.",
 ["programs", "histories", "inputs"],
 "for every sequence of population operations",
 "Tests call each operation once on fixed values; sequences with aliasing between populations, views and copies are not explored.",
 ["pymoo/core/population.py", "pymoo/core/individual.py"],
 [("Population.get/set/new/merge/create/apply", "pymoo/core/population.py"), ("Individual.copy/duplicate/set/get/reset", "pymoo/core/individual.py")],
 ["return value of every operation and the whole state afterwards"])

prop("C17", "Parent selection never lets the worse participant win, and indices are valid",
 "Tournament selection returns for each contest one of its participants and never a participant that another participant beats under the method's own comparison (feasibility before rank or objective before density); ties are resolved at random only between equals. Every selection returns exactly the requested number of parent groups with valid indices, each solution takes part equally often when contests are drawn from permutations, and methods that promise distinct parents deliver them.",
 ["inputs", "configurations"],
 "for every population, pressure, number of parents and selection method",
 "Tests run tournaments inside algorithms only; outcome per contest is never examined.",
 ["pymoo/operators/selection", "pymoo/core/selection.py", "pymoo/algorithms/moo/nsga2.py", "pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/soo/nonconvex", "pymoo/operators/crossover/dex.py"],
 [("TournamentSelection", "pymoo/operators/selection/tournament.py"), ("binary_tournament", "pymoo/algorithms/moo/nsga2.py"), ("comp_by_*", "pymoo/algorithms"), ("RandomSelection", "pymoo/operators/selection/rnd.py")],
 ["contestants and winners of each tournament"])

prop("C18", "Recombination only recombines: genes come from parents, orders stay orders",
 "Exchange crossovers give each offspring, position by position, the gene of one of its parents and complementary offspring together hold exactly the parents' genes; order-based operators return permutations of the same elements keeping what they promise to keep; crossover or mutation with probability zero returns exact copies, and no operator ever changes the parents it was given. Arithmetic crossovers preserve equal genes of their parents.",
 ["inputs", "configurations"],
 "for every pair of parents, every crossover and mutation operator, and every probability setting",
 "Tests check shapes of operator output; provenance of genes and preservation of parents are not asserted.",
 ["pymoo/operators/crossover", "pymoo/operators/mutation", "pymoo/core/crossover.py", "pymoo/core/mutation.py", "pymoo/core/mixed.py"],
 [("Crossover.do / Mutation.do", "pymoo/core"), ("point/uniform/half-uniform/exponential/binomial/ox/erx/sbx/pcx/spx/undx/dex/nox", "pymoo/operators/crossover"), ("bitflip/gauss/inversion/pm/rm/nom", "pymoo/operators/mutation")],
 ["parents before/after, offspring"])

prop("C19", "Quality indicators equal their mathematical definition",
 "Hypervolume is the measure of the region dominated by the set and bounding reference point; the distance, epsilon and spacing indicators equal their textbook formulas. They do not depend on point order or duplicates, adding a non-contributing point changes nothing, a set never scores worse than a set it weakly dominates for dominance-compliant indicators, exclusive contributions are the exact differences, and preset normalisation equals explicit normalisation.",
 ["inputs", "configurations"],
 "for every finite set of points (duplicates, dominated points, points outside the reference box), every number of objectives and reference set",
 "Tests compare a few stored values; small-scope exhaustive enumeration against the definition is not done.",
 ["pymoo/indicators", "pymoo/core/indicator.py", "pymoo/util/normalization.py", "pymoo/vendor"],
 [("Hypervolume / exact HV contributions", "pymoo/indicators/hv"), ("GD/IGD/GD+/IGD+/epsilon/spacing/migd", "pymoo/indicators"), ("PreNormalization/ZeroToOneNormalization", "pymoo/util/normalization.py")],
 ["indicator values on integer grids"])

prop("C20", "Structured reference directions form the exact simplex lattice",
 "Das-Dennis reference directions for p partitions in m dimensions are exactly all points of the simplex whose coordinates are multiples of 1/p, each exactly once; multi-layer sets are the union of their scaled layers. Every reference direction method returns exactly the requested number of non-negative directions that sum to one, and the same seed returns the same directions.",
 ["inputs", "configurations"],
 "for every number of objectives, partitions, points, layers and scaling, every method and seed",
 "Tests check counts for a few parameters only.",
 ["pymoo/util/ref_dirs", "pymoo/util/reference_direction.py"],
 [("das_dennis / MultiLayerReferenceDirectionFactory / get_reference_directions", "pymoo/util/ref_dirs, pymoo/util/reference_direction.py"), ("RieszEnergy etc.", "pymoo/util/ref_dirs")],
 ["returned matrix"])

prop("C21", "Density and truncation measures agree with their definitions and twins",
 "Crowding distance, its pruning and nearest-neighbour variants, and the distance and decomposition kernels equal their definitions: extreme points are never cut before inner ones, duplicates are the most crowded, pruning recomputes the measure after each removal, and the compiled and pure versions give the same results. Where no two points tie they do not depend on the order of the points, and crowding does not change by translating or positively scaling an objective.",
 ["inputs", "configurations"],
 "for every front (ties, duplicates, collinear, single objective), every number of removals and both implementations",
 "Tests compare the twins on a few random fronts without ties or duplicates.",
 ["pymoo/functions", "pymoo/operators/survival/rank_and_crowding/metrics.py", "pymoo/decomposition", "pymoo/util/misc.py"],
 [("calc_crowding_distance / calc_pcd / calc_mnn / calc_2nn", "pymoo/functions"), ("calc_perpendicular_distance, decomposition", "pymoo/functions, pymoo/decomposition"), ("load_function", "pymoo/functions/__init__.py")],
 ["returned vectors on integer grids"])

prop("C22", "Reference-vector optimizers keep their niching and neighbourhood invariants",
 "Decomposition and reference-vector optimizers maintain their bookkeeping in every generation: the ideal point is the component-wise best ever seen and never gets worse, one solution is held per sub-problem and is only replaced, within the configured neighbourhood, when its scalarised value improves, and niche counts, associations and closest members agree with the current population. Niching always prefers the least crowded niche, assigns every solution to a nearest reference direction, and keeps at least one solution of every niche it may keep.",
 ["histories", "inputs", "configurations"],
 "for every sequence of generations, population, reference direction set and neighbourhood configuration",
 "Tests look at final fronts; the per-generation bookkeeping is not observed.",
 ["pymoo/algorithms/moo/moead.py", "pymoo/algorithms/moo/nsga3.py", "pymoo/algorithms/moo/unsga3.py", "pymoo/algorithms/moo/rvea.py", "pymoo/algorithms/moo/ctaea.py", "pymoo/decomposition"],
 [("MOEAD._replace", "pymoo/algorithms/moo/moead.py"), ("ReferenceDirectionSurvival / niching / associate_to_niches", "pymoo/algorithms/moo/nsga3.py"), ("APDSurvival", "pymoo/algorithms/moo/rvea.py")],
 ["population, ideal point, niche attributes after every generation"])

prop("C23", "Direct search methods follow their move rules",
 "In every generation a simplex method keeps a full simplex whose best vertex never gets worse, replaces only the worst vertex by the reflected, expanded or contracted point as the comparison rule prescribes, and otherwise shrinks towards the best; a pattern search accepts only improving moves, halves its step exactly when exploration fails, and starts the pattern move from the last two accepted points. Line searches keep their bracket ordered and shrinking with the best point inside.",
 ["histories", "inputs", "configurations"],
 "for every objective function (plateaus, ties, constraints, optimum on the boundary), start point and parameter setting, over the whole history",
 "Tests only check final accuracy on smooth functions.",
 ["pymoo/algorithms/soo/nonconvex/nelder.py", "pymoo/algorithms/soo/nonconvex/pattern.py", "pymoo/algorithms/base/local.py", "pymoo/algorithms/soo/univariate"],
 [("NelderMead state machine", "pymoo/algorithms/soo/nonconvex/nelder.py"), ("PatternSearch", "pymoo/algorithms/soo/nonconvex/pattern.py"), ("GoldenSectionSearch ...", "pymoo/algorithms/soo/univariate")],
 ["simplex / explored points after every step"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
