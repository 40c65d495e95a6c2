#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per property that has a harness, not_applicable for the rest."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; %s"
GEN, TRC = "TLC-generated histories/cases replayed on the real code", "traces recorded from the real code validated by TLC against the same specification"
D = {  # property: (modules, what is exhaustive / bounded)
 "C01": ("Lifecycle, MC_Lifecycle, LifeTrace, CallTrace", "protocol model explored completely within 4 generations; every optimizer x drive mode traced on seeded problems"),
 "C02": ("Evaluator, MC_Evaluator, EvalTrace", "all evaluator histories of length 3 on 3 solutions, one per transition of the abstract graph, on four kinds of problem; every optimizer traced"),
 "C03": ("Termination, MC_Termination, TermTrace", "37 criteria/compositions x all observation histories to length 5 (sampled replay); every optimizer traced with generation, evaluation, composite and tolerance criteria"),
 "C04": ("Optimum, MC_Optimum, OptTrace", "all populations of up to 4 members over small integer objectives and violations through the filter, sampled ones as first generation of optimizers; every optimizer traced in every generation with and without feasible solutions"),
 "C05": ("Survival, Density, MC_Survival, SurvTrace", "all populations of up to 4-5 members over small integer objectives and violations through every survival operator; random tie-rich populations; survival of running optimizers"),
 "C07": ("Mating, MC_Mating, MateTrace", "all draws of the infill loop for small populations and four possible solutions replayed; all small inputs of every elimination; every genetic optimizer traced including exhausted spaces"),
 "C08": ("Space, MC_Space, SpaceTrace", "repairs of all integers in [-9,9] into all intervals within [-3,3]; every optimizer and operator on skewed, fixed, tiny and huge boxes, every row judged"),
 "C09": ("Runs, MC_Runs, RunsTrace", "every optimizer and operator configuration repeated under perturbed global generators, reused objects and options"),
 "C10": ("Runs, MC_Runs, RunsTrace", "all interleavings of an original and its copies within the bound, replayed on every optimizer with deepcopy and pickle at every generation"),
 "C11": ("Archive, Optimum, MC_Archive, ArchTrace", "all histories of 3 batches of up to 2 members of a universe with ties, duplicates, dominated and infeasible solutions per capacity (sampled replay); random histories; archives of running optimizers"),
 "C21": ("Kernels, Density, MC_Density, DensTrace", "all small integer fronts through every density measure, its compiled and its pure version; random fronts; distance and decomposition kernels on integer data"),
 "C06": ("Dominance, MC_Sorting, SortTrace", "all objective matrices of small size over small integers, sorted by all methods; larger random tie-rich matrices traced"),
 "C12": ("Replace, MC_Replace, ReplTrace", "all small pairs of parents and offspring (values, violations, duplicates) through every replacement; every optimizer with pairwise replacement or personal bests traced in every generation"),
 "C13": ("Parallel, MC_Parallel, ParTrace", "all schedules of up to 4 solutions on 2-3 workers (completion orders, failures, lost results) through every runner and a scripted runner; random batches on real pools; whole optimizer runs parallel against serial"),
 "C14": ("CV, MC_CV, CVTrace", "all small constraint vectors x configurations x update histories on individuals and populations; wrappers, library problems and adaptive handling on integer-valued constraints"),
 "C15": ("Problem, MC_Problem, ProbTrace", "all output forms (missing, extra, wrong sizes, lists, scalars) of a problem with up to 3 rows; every problem of the library evaluated alone, in batches, permuted and duplicated; wrappers and gradients"),
 "C16": ("PopHeap, MC_PopHeap, HeapTrace", "all operation sequences up to the bound over a heap of populations sharing individuals, one per transition; random longer programs"),
 "C17": ("Selection, MC_Selection, SelTrace", "all pairings and tournaments of small populations with ties for every comparison; selectors of every optimizer traced; random requests"),
 "C18": ("Recomb, MC_Recomb, RecTrace", "all masks and cut points of short parents for exchange crossovers, all segments of short permutations; every operator on random matings with labelled genes"),
 "C19": ("Indicators, MC_Indicators, IndTrace", "all small integer sets and reference sets for all indicators, exact integer arithmetic; random larger sets; R-metric"),
 "C20": ("RefDirs, MC_RefDirs, RefTrace", "all lattices up to the bound exactly; every method x requested numbers x seeds"),
 "C22": ("Niching, MC_Niching, MC_Decomp, NicheTrace", "all niching decisions of small candidates and all short offspring histories of decomposition replayed; every generation of NSGA-III, U-NSGA-III, R-NSGA-III, RVEA, C-TAEA and MOEA/D runs judged"),
 "C23": ("Direct, MC_Direct, DirTrace", "all answer sequences of the simplex machine, all pattern-search histories on a small grid, all divisions and golden sections within the bound replayed; runs of every direct and line search traced move by move"),
 "C24": ("Start, MC_Start, StartTrace", "all supplied starts of up to three solutions replayed on 27 optimizers; hypercube designs, criteria and reachability of random samplings judged"),
 "C25": ("Scale, MC_Scale, ScaleTrace", "all bound patterns of two variables, wheels, sorts, windows and parameter trees enumerated by TLC and replayed; decision aids judged in exact rational arithmetic on integer fronts; adaptive and hyper-parameter runs recorded"),
 "C26": ("Motion, MC_Motion, MotionTrace", "all cases of the swarm equation on a small grid and all histories of changes (none, everywhere, part of the space) replayed; every generation of swarm optimizers, evolution strategies and dynamic optimizers judged; distributions of factors, steps and step sizes"),
 "C27": ("Optima, MC_Optima, OptimaTrace", "all histories of up to three requests for optima, time changes and copies; all small flowshop, tour and knapsack instances with every order; published definitions at lattice points; every declared optimum searched for from its defining solutions and compared with its published shape"),
 "C28": ("Prefer, MC_Prefer, PreferTrace", "all rankings of up to four solutions by insertion, all pairs and triples of grid points with three value functions and every split, dialogues and farthest-first selections replayed; fitted functions judged against their rankings; every generation of PI-NSGA-II runs with several deciders judged"),
 "C29": ("Report, MC_Report, ReportTrace", "all histories of one or two sets of solutions on a 3 x 3 grid and longer random ones through the printed table, the recorders and the running metric; all short sequences of evaluation counts, progress values and window operations; tables printed and records kept by whole runs of every optimizer judged cell by cell"),
}
EXTRA = os.path.join(V, "tools", "manifest_extra.json")
if os.path.exists(EXTRA):
    D.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in D and os.path.exists(os.path.join(V, "harness", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "technique": T % (GEN + " and " + TRC), "level": "model_checking",
                       "level_note": "Modules %s. %s. Trusted: TLC, the recorder in harness/, the abstraction of floats to integers (exact for the generated data). Bounded evidence, not a proof for all inputs." % D[i]})
    else:
        na.append({"property": i, "reason": "no check built yet (work in progress); the family applies in principle, see DESIGN.md"})
json.dump({"version": 1, "setup_cmd": "true",
           "hooks": {"guard": "none", "enable": "no hooks: everything is observed through the public API", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "All checks share harness/common.py and spec/TraceBase.tla; see DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
