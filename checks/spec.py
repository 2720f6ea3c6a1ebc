"""What each check builds and explores.  Everything else (sharding, replay, evidence) is in run.py."""
SPEC = {}
NOT_APPLICABLE = {
    "N01": "a limit statement about unbounded runs over a continuum of objectives and domains: no bounded exhaustive enumeration of executions decides it, and any bounded form (n evaluations of this objective reach within epsilon) is sampling one trajectory",
}


def parts(src, n, **kw):
    base = src.replace(".cpp", "")
    return [dict(src=src, name="%s_%d" % (base, i), flags=["-DPART=%d" % i] + kw.get("flags", []), **{k: v for k, v in kw.items() if k != "flags"}) for i in range(n)]


SPEC["M01"] = dict(
    harness=parts("m01.cpp", 4, opt="-O2"),
    technique="exhaustive operation-history exploration of the real model in lockstep with an exact posterior (long double)",
    note="Every operation history up to the depth and every lasso-shaped history is executed on the real code and compared after each step with an independent exact posterior; assumes the alphabets of points, values and parameters are representative and rounding tolerance 1e-5 relative.",
    bounds={"quick": "20 operations, depth 3-4, 9 kernel/mean pairs, lassos (prefix<=1, cycle<=2) to length 8, chains of 34 additions",
            "thorough": "20 operations, depth 4-5, lassos to length 14, chains of 70 additions"})
SPEC["M02"] = dict(
    harness=parts("m02.cpp", 4, opt="-O2"),
    technique="exhaustive operation-history exploration of the real model in lockstep with reference scores and their derivatives",
    note="Every operation history (including score evaluations that fill caches) up to the depth, and every short lasso, is executed on the real code; after each step every score and gradient is compared with an independent long-double evaluation and its numerical derivative.",
    bounds={"quick": "22 operations, depth 3-4, 9 kernel/mean pairs, lassos (prefix<=1, cycle<=2) to length 7",
            "thorough": "22 operations, depth 4-5, lassos to length 12"})
SPEC["M03"] = dict(
    harness=parts("m03.cpp", 3, opt="-O2"),
    technique="exhaustive enumeration of insertion sequences over an adversarial point alphabet, run on the real model with invariant monitors and an exact posterior",
    note="All insertion sequences (with repetition) of the stated length over coincident, nearly coincident and distant points are executed; bounds, monotonicity and order independence are checked after every insertion, with tolerances tied to the conditioning of each noise level.",
    bounds={"quick": "6-point alphabet; length 6 (1-D), 5 (2-D), 4 (3-D); 9 kernel/noise settings", "thorough": "length 8 / 7 / 6"})
SPEC["M04"] = dict(
    harness=parts("m04.cpp", 3, opt="-O2"),
    technique="exhaustive operation-history exploration of the real multi-output model in lockstep with independent exact posteriors",
    note="Every operation history up to the depth and every short lasso is executed on the real code and compared with one independent long-double posterior per output plus the reference mean.",
    bounds={"quick": "19 operations, depth 3, 6 kernel/mean pairs, 1-4 outputs, lassos (prefix<=1, cycle<=2) to length 7", "thorough": "depth 4, lassos to length 12"})
SPEC["M05"] = dict(
    harness=[dict(src="m05.cpp", opt="-O2")],
    technique="exhaustive enumeration of point lists and operation histories on the real sparsified model against a nondeterministic pruning model (ties may be broken either way)",
    note="All point lists over the alphabet, in every batch/incremental split, for all caps and dimensions in the bounds; the kept points must be one of the outcomes the documented pruning rule allows and predictions must equal the exact posterior on the kept pairs.",
    bounds={"quick": "lists to length 5 over 5 points, caps 1-4, dimensions 1-4; histories of depth 5 over 9 operations; streams of 16 points with caps to 8 and dimensions to 6", "thorough": "lists to length 7, histories to depth 6"})
SPEC["M06"] = dict(
    harness=[dict(src="m06.cpp", opt="-O1")],
    technique="exhaustive enumeration of parameter vectors, point pairs, index pairs and parameter-setting histories on the real kernels against closed forms and their numerical derivatives",
    note="All combinations in the stated grids are evaluated on the real kernels and compared with independently written closed forms in long double; gradients with Richardson-extrapolated differences of those.",
    bounds={"quick": "10 kernel variants, dimensions 1-4, 8 parameter vectors, 36 point pairs, 5 index pairs; parameter histories of depth 4; every subset of 7 points for positive definiteness", "thorough": "parameter histories of depth 5"})
SPEC["M07"] = dict(
    harness=[dict(src="m07.cpp", opt="-O1")],
    technique="exhaustive exploration of parameter/data histories on the real mean functions against their definitions and numerical derivatives",
    note="All histories of parameter settings, data changes and copies to the depth are executed on the real mean functions, alone and inside a real model.",
    bounds={"quick": "6 mean functions and one double nesting, 1-4 outputs, histories of depth 4 over 10 operations", "thorough": "depth 6"})
SPEC["M08"] = dict(
    harness=parts("m08.cpp", 4, opt="-O2"),
    technique="exhaustive exploration of operation histories with a save/load round trip at every position, on the real models and archives, in lockstep with exact posteriors",
    note="Every history before saving, every archive format, load mode and target state, and every continuation to the depth is executed on the real code; predictions, scores and gradients of the reloaded model must equal the independent reference after every step, and data must come back bit for bit.",
    bounds={"quick": "prefix of 1-2 operations (22-op alphabet), 2 formats x 2 load modes x 4 targets x repeated saves, 1-2 operations after loading including a second round trip; 17 extreme values pairwise in matrices, vectors and lists up to 3x3", "thorough": "prefix 2, continuation 2, all model kinds"})
SPEC["M09"] = dict(
    harness=parts("m09.cpp", 5, opt="-O2"),
    technique="exhaustive exploration of operation histories and inner-optimiser query scripts on the real strategies, against independent scores, gradients and posteriors",
    note="The inner optimiser is replaced, at its public template seam, by an explored script: every sequence of queries and every answer up to the bound after every history; scores and gradients must equal those of an independent model fitted from scratch. The provided optimisers are run on every history of the alphabet for monotonicity.",
    bounds={"quick": "4 strategies x 2 kernel/mean pairs (+2 multi-output), prefix of 2 operations, scripts of 2-3 queries (3 points x gradient or not), 3 answers, one further operation and a second optimisation; fits without kernel", "thorough": "prefix one longer"})
SPEC["B01"] = dict(
    harness=[dict(src="b01.cpp", opt="-O1")],
    technique="exhaustive exploration of optimisation-call sequences on the real optimiser with every seam replaced by a protocol monitor",
    note="All sequences of optimize(reset/resume, budget, initialiser size) calls up to the length are executed on the real optimiser and model; the record, the counters and the model are compared with the monitored evaluations at every evaluation, decision, statistic and stopping check.",
    bounds={"quick": "sequences of 3-4 calls, budgets 0-5, initial designs 0-3, bounded and unbounded, 1-3 outputs, all inner-optimiser answers for 4 iterations, runs of 12 cut anywhere; one optimiser on 3 functions of 4 dimensionalities in every order", "thorough": "sequences of 4-5 calls"})
SPEC["B04"] = dict(
    harness=[dict(src="b04.cpp", opt="-O1")],
    technique="exhaustive exploration of runs of the real optimiser over inner-optimiser answers, periods and resume/reset, with protocol monitors at every seam",
    note="Every run in the bounds is executed on the real optimiser; at each decision the model must be the exact posterior (long double) of all evaluations with the hyper-parameters set last, and the decision must be what is evaluated next.",
    bounds={"quick": "all answers (3 points) for up to 4 iterations, periods -1..8, initial designs 0-2, followed by nothing, resume or reset with 0-3 iterations", "thorough": "up to 6 iterations"})
SPEC["B02"] = dict(
    harness=[dict(src="b02.cpp", opt="-O1")],
    technique="exhaustive fault injection: every placement and kind of failing evaluation in every optimisation-call sequence within bounds, on the real optimiser with protocol monitors",
    note="Every evaluation of every run may succeed or fail in one of five ways; all combinations within the fault budget are executed on the real optimiser, and the record, counters, best pair and the model (against an exact posterior) are compared after each interruption and after continuing.",
    bounds={"quick": "3-4 calls (reset or resume), initial designs 0-2, budgets 0-3, up to 2 faults of 5 kinds anywhere; one fault in runs of 8; all vectors of special values up to length 4", "thorough": "3 faults, runs of 12"})
SPEC["B03"] = dict(
    harness=[dict(src="b03.cpp", opt="-O1")],
    technique="exhaustive enumeration of observation histories on the real optimiser, the best pair compared with a direct maximum after every step",
    note="All sequences of observations over an alphabet with ties, signs, tiny and extreme values, recorded directly and through resumed/reset runs, under nine aggregation functions.",
    bounds={"quick": "sequences to length 6 over 6 scalars / 5 vectors, runs of up to 5 evaluations split over two calls", "thorough": "length 8"})
SPEC["B05"] = dict(
    harness=parts("b05.cpp", 3, opt="-O1", flags=["-include", "@V/harness/rng_prelude.hpp"]),
    technique="exhaustive enumeration of initialisers x inner optimisers x dimensions x discretisations x adversarial objectives x the random draws (engine replaced by an enumerated one), on the real optimiser",
    note="The random engine is replaced by one whose outputs are explored (extremes and middle) for the first draws; every evaluated point of every run is checked against the domain exactly.",
    bounds={"quick": "27 inner optimisers, 5 initialisers, dimensions 1-4, bins to 100, 8 objectives, up to 7 enumerated draws", "thorough": "bins to 1000, LHS sizes to 600"})
SPEC["B06"] = dict(
    harness=parts("b06.cpp", 7, opt="-O0", flags=["-ftemplate-depth=2000"], extra_src=["@REPO/src/ehvi/%s.cc" % f for f in ("ehvi_calculations", "ehvi_hvol", "ehvi_sliceupdate", "helper", "ehvi_multi")]),
    technique="exhaustive enumeration of ordered selections of policies instantiated from the real optimisers, and exhaustive exploration of runs of every set of policies with components that record being called",
    note="Every legal set of roles is instantiated and run, in two orders, for every budget and initial design in the bounds, and the calls received by each component (and the files written by default ones) are compared with what was given; the components of every ordered selection are compared with what was given or documented.",
    bounds={"quick": "all 1957 ordered selections of the six roles of BOptimizer, 326 of Ehvi and IMGPO, 259 of CBOptimizer (up to three of seven roles), 517 of Parego (up to four), 65 of Nsbo; runs of all legal sets of roles in two orders x 4 budgets x 3 initial designs", "thorough": "the same"})
SPEC["O01"] = dict(
    harness=[dict(src="o01.cpp", opt="-O1", flags=["-include", "@V/harness/rng_prelude.hpp"])],
    technique="exhaustive enumeration of the values given to every point evaluated, of inner-optimiser answers and of the random draws, on the real search optimisers",
    note="Every assignment of values (negative, equal, huge, -inf) to the grid nodes, every script of restart results and every draw in the alphabet is executed; what was evaluated and what is returned is compared with a direct maximum.",
    bounds={"quick": "6 values on grids up to 6 nodes (1-D), 9 nodes (2-D), 8 and 16 nodes (3-4-D); every bins to 128 (1-D), 16, 6; repeaters of 1-4 restarts x 5 values, chains of 1-4, nestings", "thorough": "bins to 400, 5 restarts"})
SPEC["O02"] = dict(
    harness=[dict(src="o02.cpp", opt="-O1")],
    technique="exhaustive exploration of the answers (value and gradient) of the objective, the real optimisers in lockstep with explicit models of their published update rules",
    note="Every sequence of gradient and value answers over the alphabet up to the depth, and every short lasso until the steps saturate, is fed to the real optimiser; each point it evaluates, when it stops and what it returns must be what the update rule gives.",
    bounds={"quick": "1-3 dimensions, 4-6 answers over 4-6 gradients (and 4 values), budgets 0 to depth, 4 tolerances, bounded and not, 3 starts, 2-6 parameter settings; lassos (prefix<=2, cycle<=3) to 60 answers", "thorough": "5-8 answers, lassos to 200"})
SPEC["O03"] = dict(
    harness=[dict(src="o03.cpp", opt="-O1")],
    technique="exhaustive exploration of sequences of uses of one optimiser object, each use compared with a fresh object and monitored evaluation by evaluation",
    note="All sequences of uses (dimension, bounds, objective, start, budget) up to the length are run on the real wrappers for 25 NLOpt algorithms; every evaluation is monitored and the last use must equal that of a new object evaluation by evaluation. AUGLAG is excluded: the installed NLOpt 2.7.1 crashes in it. The newer NLOpt algorithms without bound support are excluded.",
    bounds={"quick": "sequences of 2 uses, 3 dimensions, bounded or not, 5 objectives, 2 starts, budgets 1/7/200; 5 constraints x equality or not x reuse for 4 algorithms", "thorough": "sequences of 3 uses"})
SPEC["A01"] = dict(
    harness=[dict(src="a01.cpp", opt="-O2")],
    technique="exhaustive enumeration of predictions, iteration numbers and model-update histories, acquisition functors compared with their formulas in long double",
    note="All combinations of predicted mean, variance (zero included), best value and iteration in the grids through a scripted model, and all operation histories of a real model with the same functor evaluated (or not) after each operation.",
    bounds={"quick": "6 means x 9 variances x 3 training predictions x jitters, iterations 0-399 and large, dimensions 1-6(10), 3 values of delta; histories of depth 3 over 18 operations", "thorough": "iterations to 3000, depth 4"})
SPEC["I01"] = dict(
    harness=[dict(src="i01.cpp", opt="-O1", flags=["-include", "@V/harness/rng_prelude.hpp"])],
    technique="exhaustive enumeration of configurations and of the random draws (engine replaced by an enumerated one), the design evaluated by the real initialisers compared with its definition",
    note="The random engine is replaced by one whose outputs are explored; every design is compared with the documented one (grid nodes, stratification, counts, domain).",
    bounds={"quick": "up to 6 points x 9 enumerated draws of 3-5 letters; every number of bins to 512 (1-D), 60, 18, 7; LHS of every size to 300", "thorough": "bins to 3000, LHS to 1000, 12 draws"})

SPEC["S01"] = dict(
    harness=parts("s01.cpp", 2, opt="-O1", extra_src=["@REPO/src/ehvi/%s.cc" % f for f in ("ehvi_calculations", "ehvi_hvol", "ehvi_sliceupdate", "helper", "ehvi_multi")]),
    technique="exhaustive exploration of optimisation-call sequences on the real optimisers with every statistic enabled; every file written is compared with a log of the public state taken at the same moments",
    note="All sequences of optimize(reset/resume, budget, initial design, failing evaluation) within the bounds are run with all twelve statistics at once; each file must contain exactly the records of the log, in order (6 printed digits).",
    bounds={"quick": "3 calls, budgets 0-5, initial designs 0-3, one failing evaluation anywhere, 1-3 dimensions, 1-2 outputs, 3 observation patterns; runs of 14 cut anywhere; model grids with 1-60 bins (1-D), 1-13 (2-D), 1-4 (3-D); every order of 6 (5) steps of creation, call and destruction of two (three) optimisers of one process; 3 calls of the constrained, partition-tree and expected-hypervolume optimisers; the same histories with statistics disabled", "thorough": "4 calls, runs of 30, up to 150 bins"})
SPEC["S02"] = dict(
    harness=[dict(src="s02.cpp", opt="-O1")],
    technique="exhaustive exploration of the answers of scripted criteria, and of observation sequences for the provided ones, on the real optimiser",
    note="All answer patterns of up to four criteria at every check are explored (with the iteration limit in every place); for the predicted-value criterion, all observation sequences in the bounds, against its definition on an exact posterior maximised over the same grid.",
    bounds={"quick": "1-4 criteria, 3-6 checks per run, two runs; limits 0-8 over 3 calls; predicted value: 5 ratios, 3-6 observations from 3-4 values, 1-2 dimensions and outputs", "thorough": "one check / call / observation more"})
WRAP = ["-rdynamic"] + ["-Wl,--wrap=" + f for f in ("pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort").split()]


def threaded(src, opt="-O1", extra=[], name=None, libs=[], cc=[]):
    """the harness instrumented by clang's thread sanitizer pass, linked with our own run time instead of the sanitizer's"""
    return dict(src="sched/rt.cpp", opt="-O2", name=name or src[:-4], libs=WRAP + ["-ldl"] + libs,
                objs=[dict(cxx="clang++", src="@V/harness/" + src,
                           flags=["-fsanitize=thread", opt, "-std=c++14", "-w", "-D_GLIBCXX_ASSERTIONS", "-DUSE_TBB", "-DUSE_TBB_ONEAPI", "-DUSE_NLOPT", "-pthread",
                                  "-I@V/harness/faketbb", "-I@V/harness", "-I@REPO/src", "-I/usr/include/eigen3"] + extra)] +
                [dict(cxx="clang++", src=c, flags=["-fsanitize=thread", opt, "-std=c++14", "-w", "-I@REPO/src"]) for c in cc])


SPEC["P01"] = dict(
    harness=[threaded("p01.cpp"), dict(src="p01.cpp", opt="-O1", name="p01_seq", flags=["-DSEQ"])],
    technique="stateless model checking of the real parallel primitives on a controlled scheduler with happens-before race detection",
    note="The primitives are compiled with every memory access instrumented and run on a scheduler that decides which worker runs at every task boundary and synchronisation operation, how ranges are split and stolen, and how ties are ordered; all schedules within the bounds are executed. The sequential build is explored with the same oracle.",
    bounds={"quick": "1-3 workers, loops of 0-4 (and up to 257 with 2 deviations), 1 preemption inside bodies that synchronise, all value patterns over 3 values up to 4 elements, sorts up to 5", "thorough": "one element more"})

EHVI_CC = ["@REPO/src/ehvi/%s.cc" % f for f in ("ehvi_calculations", "ehvi_hvol", "ehvi_sliceupdate", "helper", "ehvi_multi")]
SPEC["P02"] = dict(
    harness=[threaded("p02.cpp", name="p02_%d" % i, extra=["-DPART=%d" % i, "-include", "@V/harness/rng_prelude.hpp"], cc=EHVI_CC if i == 2 else []) for i in range(3)],
    technique="stateless model checking of the real models, optimisers, acquisition and Pareto code on a controlled scheduler with happens-before race detection",
    note="The library is compiled with every memory access instrumented and run on a scheduler that decides which worker runs next, how loops are split and where bodies that synchronise are cut; every schedule within the bounds is executed, checked for races by happens-before, and its result compared with the sequential definition (exact posterior, direct Pareto set, direct maximum).",
    bounds={"quick": "2-3 workers, 1 preemption, up to 2 deviations from the default order of tasks; 14 x 14 operation pairs on multi-output models (2-3 outputs), 27 combinations of optimisers, acquisition functions, models and whole runs", "thorough": "3 deviations (2 preemptions for queries)"})
SPEC["P03"] = dict(
    harness=[threaded("p03.cpp"), dict(src="p03.cpp", name="p03_x", opt="-O1", flags=["-DSEQ", "-DPRELUDE", "-include", "@V/harness/rng_prelude.hpp"])],
    technique="stateless model checking of concurrent draws on a controlled scheduler with happens-before race detection, and exhaustive exploration of seed/draw/reset histories",
    note="Workers (and their thread-local generators) are new in every execution; all schedules and histories within the bounds are executed on the real generators. Extreme engine outputs are enumerated with the engine replaced.",
    bounds={"quick": "2-3 workers, 2-4 tasks of 5 kinds, 1 preemption and 1-2 deviations; histories of 5 over 12 operations for 3 distributions; 400 seeds x 400 draws x 13 ranges; 4-6 enumerated draws of 3-5 letters", "thorough": "2 deviations, histories of 6, 3200 seeds"})
SPEC["E01"] = dict(
    harness=[dict(src="e01.cpp", opt="-O2")],
    technique="exhaustive enumeration of ordered point lists, the real Pareto extraction compared with the definition",
    note="Every list over the value alphabets up to the length, in every order, with ties, duplicates and infinities; the data attached to every returned point is checked, and the extraction is repeated on its result.",
    bounds={"quick": "lists to length 7 (2 objectives), 5 (3), 4 (4), 3 (5) over 2-4 values; rule-built sets to 24 steps x 3 orders; all orders of 5", "thorough": "one or two points more"})
HV_C = dict(cxx="gcc", src="@REPO/src/hv/hypervol.c", flags=["-O1"])
SPEC["E02"] = dict(
    harness=[dict(src="e02.cpp", opt="-O2", objs=[HV_C])],
    technique="exhaustive enumeration of ordered point lists, the real hypervolume code compared with counting of the dominated cells",
    note="Every list over the value alphabets up to the length in every order, filtered or not; the non-dominated filter is compared with the definition, and the statistic's file with the volume of the observations beyond the reference.",
    bounds={"quick": "lists to length 6 (2-3 objectives), 4 (4), 3 (5) over 2-4 values; staircases to 12 points x 4 rotations; statistic over histories of 2-3 observations", "thorough": "one point more"})
SPEC["E03"] = dict(
    harness=[dict(src="e03.cpp", opt="-O2", extra_src=[c for c in EHVI_CC])],
    technique="exhaustive enumeration of fronts, orders, reference points and predictions, the real computations compared with the closed form of the defining integral",
    note="Every ordered non-dominated list over the value grids up to the length, with a grid of means and deviations; the three-objective schemes (2, 5, 8 terms, slice update, and the versions for several candidates) and the acquisition function are compared with an independent closed form in long double.",
    bounds={"quick": "fronts to 6 points (2 objectives, 144 predictions) and 4-5 points (3 objectives, 12 predictions) in every order, staircases to 12", "thorough": "one point more, staircases to 40"})
SPEC["E04"] = dict(
    harness=[dict(src="e04.cpp", opt="-O1")],
    technique="exhaustive exploration of observation sequences and optimisation-call sequences on the real constrained optimiser, both models and the best pair compared with the definition",
    note="Every sequence of objective and constraint values over the alphabets, cut anywhere between initial design and loop, is run; both models' data are inspected at every decision and the best pair after every iteration and run. The acquisition function is compared with its formula over grids of predictions for 1-3 constraints.",
    bounds={"quick": "4 observations with 1 constraint (3 x 3 values), 3 with 2 constraints, 2 with 3, 5 without; 9 feasible/infeasible; 2 calls of 0-2 iterations; one failing evaluation of 5 kinds anywhere", "thorough": "one observation / call more, 12 feasible/infeasible"})
SPEC["E05"] = dict(
    harness=parts("e05.cpp", 2, opt="-O1", flags=["-include", "@V/harness/rng_prelude.hpp"], extra_src=EHVI_CC),
    technique="exhaustive exploration of observation sequences, optimisation-call sequences and random weights on the real multi-objective optimisers and scalarised model, compared with direct definitions",
    note="Every observation sequence over the alphabets is run; the Pareto record and every model's data are inspected at every decision and after every run, the improvement used to choose is compared with its closed form on an exact posterior, the weights of the scalarised model are read off unit observations for enumerated draws, and the files of the Pareto statistics are compared with the definition.",
    bounds={"quick": "records of 4 (2-3 objectives), 3 (4); EHVI runs of 3 evaluations over 3 x 3 values, 3 reference points, 2 calls of 0-3 iterations; scalarised models with 2-3 objectives, 2-4 enumerated draws of 5 letters; statistics over 3 observations", "thorough": "one observation / call / draw more"})
SPEC["E06"] = dict(
    harness=[dict(src="e06.cpp", opt="-O1")],
    technique="exhaustive exploration of the observations received by the real partition-tree optimiser in lockstep with an executable model of the published algorithm",
    note="Every sequence of answers over the alphabets is given to the real optimiser; each evaluation is checked (centre of a ternary cell, inside, never twice, recorded with its own value) and the whole sequence of evaluations compared with a direct implementation of the algorithm, up to exact ties. Call sequences with reset and resume are explored the same way.",
    bounds={"quick": "6 enumerated answers over 2-3 values in 1-3 dimensions, runs of 12-20 evaluations; 10 functions x budgets to 50 in 1, 2, 4 dimensions; 2 calls", "thorough": "8 enumerated answers, 3 calls, budgets to 90"})
SPEC["E07"] = dict(
    harness=[dict(src="e07.cpp", opt="-O1")],
    technique="exhaustive exploration of operation histories, optimiser queries and answers and shuffle outcomes on the real pseudo-input model in lockstep with the dense Gaussian it stands for",
    note="Every history over nine operations with every answer of the (scripted) optimiser, and every sequence of queries on models built in four ways, is executed on the real model; predictions, scores and gradients are compared with the dense Gaussian in long double and its numerical derivative. The pseudo-random shuffle is enumerated. The default optimiser is run on histories for monotonicity.",
    bounds={"quick": "histories of depth 3 over 9 operations, 3 mean functions, 5 sparsity settings; 2 queries over 5 parameter vectors with or without gradient, 1-5 data in 1-3 dimensions; data without spread", "thorough": "histories of depth 4, 3 queries"})
SPEC["O04"] = dict(
    harness=[dict(src="o04.cpp", opt="-O1", flags=["-UUSE_NLOPT", "-DUSE_LIBCMAES", "-I@V/harness/fakecma"])],
    technique="stateless exploration of the real CMA-ES wrapper against a nondeterministic stand-in for the library: every sequence of candidates the library could propose, under every pair of settings, compared with the documented settings driving the same candidates",
    note="libcmaes is not installed: the wrapper is compiled against a stand-in with the same interface, whose settings do what the library documents and whose candidates the explorer chooses. What is checked is the wrapper (objective, domain transformation, budget, stopping settings, result, progress functions, reuse of one object, use as the default inner optimiser), not libcmaes.",
    bounds={"quick": "all pairs of 17 settings x 5 objectives x 3 candidates, 5 generations; 13 genotypes in and out of 3 domains x 3 generations, 1-3 dimensions; 2 uses of one object; 2 decisions of two optimisers", "thorough": "7 generations, 4 generations of genotypes, 3 uses, 3 decisions"})
SPEC["E08"] = dict(
    harness=[dict(src="e08.cpp", opt="-O1", flags=["-DUSE_SFERES", "-I@V/harness/fakesferes"])],
    technique="stateless exploration of the real evolutionary multi-objective optimiser against a nondeterministic stand-in for the evolutionary library, the last generation and the random choices enumerated, in lockstep with exact Gaussian posteriors",
    note="sferes2 is not installed: the optimiser is compiled against a stand-in with the same interface; every last generation of the bounded populations is explored, its fitness computed by the real fitness function and its front by definition. What is checked is limbo's side (models, fitness, front of the model with uncertainties, choice, record, counters, resume, failures, Pareto set after the run).",
    bounds={"quick": "populations of 4 over 5 points (1-D), 2 over 25 points (2-D), 7 observation patterns, 1-3 initial samples; 3 decisions of populations of 2; 2 calls of 0-2 iterations with a failing evaluation anywhere; no initial samples", "thorough": "populations of 5, 4 decisions, 3 calls"})
