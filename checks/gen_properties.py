import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
        observe_at=observe or [], hook_needed=hook)))
S = "src/limbo/"

prop("M01", "GP predictions equal the exact posterior after any history of updates",
 "After any sequence of batch fits, incremental additions, hyper-parameter changes followed by the documented refresh, copies and refits with other dimensions, a Gaussian process predicts exactly the posterior mean and variance (noise included) defined by its current data, kernel and mean function. Incremental and batch construction of the same data are indistinguishable, and the data, counts and data statistics the model reports are those given to it, in order. With no data it returns the prior.",
 ["histories", "inputs", "configurations"], "all operation sequences up to the bound over compute / add / set kernel or mean parameters / every recompute flavour / copy, for every kernel and mean function and several input/output dimensions, queried at training and non-training points",
 "The tests compare a handful of fixed fit/add sequences with one kernel; stale state (Cholesky factor, weights, centred observations) appears only after particular sequences of updates.",
 [S+"model/gp.hpp", S+"kernel/kernel.hpp", S+"mean/mean.hpp"], [("incremental Cholesky and weight refresh", S+"model/gp.hpp:_compute_incremental_kernel"), ("batch fit", S+"model/gp.hpp:compute"), ("selective refresh", S+"model/gp.hpp:recompute")],
 ["mu()", "sigma()", "query()", "samples()", "observations()", "mean_observation()"], [("Cholesky factor / weights", "cached factorisation of the kernel matrix and K^-1(y-m)", S+"model/gp.hpp")])

prop("M02", "Likelihood, leave-one-out score and gradients always describe the current model",
 "At any point of any history, asking a Gaussian process for its log-likelihood, its leave-one-out log-probability, or their gradients with respect to kernel and mean parameters returns the value defined by the current data and parameters, never one computed from an earlier state. The reported gradients equal the derivatives of the reported scores.",
 ["histories", "inputs", "configurations"], "all operation sequences up to the bound that interleave updates with score and gradient evaluations (which fill internal caches), for every kernel/mean pair",
 "The tests differentiate each score once on a freshly fitted model; a stale cached inverse needs an update between two evaluations to show.",
 [S+"model/gp.hpp"], [("lazy inverse-kernel cache", S+"model/gp.hpp:compute_inv_kernel"), ("cache invalidation", S+"model/gp.hpp:_compute_full_kernel")],
 ["compute_log_lik", "compute_log_loo_cv", "compute_kernel_grad_log_lik", "compute_kernel_grad_log_loo_cv", "compute_mean_grad_log_lik"])

prop("M03", "Predicted variance is finite, bounded by the prior and never grows with data",
 "For every data set, including repeated, nearly coincident and far away inputs, the predicted variance is finite, at least the observation noise and at most the prior variance plus noise, and adding an observation anywhere never increases it. Predictions with such data stay finite, and permuting the order in which data are added does not change predictions.",
 ["inputs", "histories"], "all sequences (with repetition) of additions over an adversarial point alphabet up to the bound, for every kernel and several noise levels",
 "Tests use random well-separated points; degenerate geometry and every insertion order are not reached.",
 [S+"model/gp.hpp", S+"kernel/kernel.hpp"], [("variance clamp and jitter", S+"model/gp.hpp:_sigma"), ("noise on the diagonal", S+"kernel/kernel.hpp:operator()")], ["sigma()", "query()"])

prop("M04", "A multi-output model equals independent single-output models plus shared mean",
 "After any sequence of fits, additions, mean or kernel parameter changes with refresh, copies and refits with other dimensions, each output of a multi-output model predicts exactly what a single-output Gaussian process trained on that output's observations, with that output's kernel and the same prior mean, predicts. Observations, samples, counts and mean observation reported by the model are those given to it.",
 ["histories", "inputs", "configurations"], "all operation sequences up to the bound for 1-3 outputs, every mean function, every refresh flavour",
 "The tests fit once and compare predictions; partial refreshes and additions under a data-dependent mean are never checked.",
 [S+"model/multi_gp.hpp", S+"model/multi_gp/parallel_lf_opt.hpp"], [("per-output models on centred observations", S+"model/multi_gp.hpp:compute"), ("incremental update", S+"model/multi_gp.hpp:add_sample"), ("refresh", S+"model/multi_gp.hpp:recompute")], ["mu()", "sigma()", "query()", "gp_models()"])

prop("M05", "Sparsification keeps a bounded, faithful, density-pruned subset of the data",
 "A sparsified model never holds more than its configured number of points after a fit or an addition, keeps everything while at or below that number, and otherwise holds a subset of the given input/observation pairs (never re-paired, never invented, order preserved). Points are dropped one at a time from where the data is densest (smallest summed distance to as many nearest neighbours as there are input dimensions), and predictions are exactly those of an ordinary Gaussian process on the kept pairs.",
 ["inputs", "histories", "configurations"], "all sequences of fits and additions over a point alphabet up to the bound, caps from 1 up, dimensions 1-4 including more dimensions than points",
 "Tests check only the number of points and an average error on random data; which points survive, the pairing and tiny caps are never examined.",
 [S+"model/sparsified_gp.hpp"], [("pruning loop", S+"model/sparsified_gp.hpp:_sparsify"), ("density measure", S+"model/sparsified_gp.hpp:_get_most_dense_point")], ["samples()", "observations()", "nb_samples()", "mu()"])

prop("M06", "Kernels are the documented covariance functions with exact gradients",
 "Every kernel returns its documented closed form, is symmetric, attains the signal variance at zero distance, adds observation noise only for a sample with itself, and yields positive definite matrices on distinct points. Setting parameters (in log space) and reading them back is lossless, the number of parameters matches, and the gradient is the derivative of the value with respect to exactly those parameters, including the noise when it is optimised.",
 ["inputs", "configurations"], "all kernels x dimensions 1-4 x all parameter vectors and pairs of points on a grid including coincident and distant points, with and without noise optimisation, diagonal and off-diagonal positions",
 "The tests check a few random points and gradients with fixed dimension; the parameter layout (per-dimension, low-rank factor, noise) is only partly exercised.",
 [S+"kernel/kernel.hpp", S+"kernel/exp.hpp", S+"kernel/squared_exp_ard.hpp", S+"kernel/matern_five_halves.hpp", S+"kernel/matern_three_halves.hpp"], [("parameter layout and noise", S+"kernel/kernel.hpp"), ("ARD with low-rank factor", S+"kernel/squared_exp_ard.hpp")], ["operator()", "grad", "h_params", "set_h_params"])

prop("M07", "Mean functions return the documented prior, with exact parameter gradients",
 "Each mean function returns the value its definition gives for the current data and parameters (zero, constant, data average, affine transformation of another mean), for every number of outputs. Setting parameters and reading them back is lossless and the gradient is the derivative of every output with respect to exactly those parameters.",
 ["inputs", "configurations", "histories"], "all mean functions and nestings x 1-4 outputs x parameter grids x data histories",
 "Tests check gradients of one nesting at random points with one number of outputs.",
 [S+"mean/mean.hpp", S+"mean/constant.hpp", S+"mean/data.hpp", S+"mean/null_function.hpp", S+"mean/function_ard.hpp"], [("affine mean layout", S+"mean/function_ard.hpp")], ["operator()", "grad", "h_params", "set_h_params"])

prop("M08", "Saved models reload to the same model and keep behaving identically",
 "Saving a model in text or binary form and loading it, with or without recomputation, into a fresh or an already used model, yields the same data, parameters, predictions, likelihood and gradients as the original, and any further sequence of operations has the same effect on both. Loading replaces everything that was there before, and saving twice to the same place leaves the latest model.",
 ["histories", "inputs", "configurations"], "all histories up to the bound before saving, after loading, for both archive formats x both load modes x every model and kernel/mean pair x extreme values (tiny, huge, negative, subnormal)",
 "The serialisation test saves one fitted model and compares predictions right after loading; it does not continue, reuse objects, or look at likelihood and gradients.",
 [S+"model/gp.hpp", S+"model/multi_gp.hpp", S+"serialize/text_archive.hpp", S+"serialize/binary_archive.hpp"], [("save/load", S+"model/gp.hpp:load"), ("text encoding", S+"serialize/text_archive.hpp"), ("binary encoding", S+"serialize/binary_archive.hpp")], ["save", "load", "mu()", "sigma()", "compute_log_lik"])

prop("M09", "Hyper-parameter optimisation improves its objective, leaves a consistent model",
 "Optimising hyper-parameters with the provided optimisers never lowers the documented objective (likelihood or leave-one-out) below its value at the starting parameters, changes only the parameters it is meant to optimise, keeps the data, and leaves predictions, scores and refreshed state exactly those of a model fitted from scratch with the resulting parameters. The objective presented to the optimiser equals, for any parameters it asks about, the score and gradient of a model fitted from scratch with these parameters, whatever was asked before.",
 ["histories", "inputs", "configurations"], "all optimisation strategies x all scripted sequences of parameter queries up to the bound x data histories; single and multi-output models",
 "Tests check that likelihood improves on one data set; queries out of order, cached state and untouched parameters are not examined.",
 [S+"model/gp/kernel_lf_opt.hpp", S+"model/gp/kernel_mean_lf_opt.hpp", S+"model/gp/mean_lf_opt.hpp", S+"model/gp/kernel_loo_opt.hpp", S+"model/multi_gp/parallel_lf_opt.hpp"], [("objective on a copy of the model", S+"model/gp/kernel_lf_opt.hpp"), ("reused inverse for mean-only optimisation", S+"model/gp/mean_lf_opt.hpp")], ["optimize_hyperparams", "h_params", "mu()", "get_log_lik()"])

prop("B01", "The record is exactly the evaluations made, across resume and reset",
 "Over any sequence of optimisation calls, with or without reset, the recorded samples and observations are exactly the points evaluated and the values returned, paired, in evaluation order; nothing is lost, duplicated or reordered. Each call performs initialisation once when starting afresh and then evaluates one point per iteration until the first moment a stopping criterion holds; iteration counters count within the call and over the run, resuming continues them and reset restarts from an empty record and a model holding none of the earlier run's data.",
 ["histories", "configurations"], "all sequences up to the bound of runs with reset/resume, iteration budgets including zero, initialisers including none, and stopping criteria, for scalar and vector observations",
 "Tests run the optimiser once from start to end with one configuration.",
 [S+"bayes_opt/bo_base.hpp", S+"bayes_opt/boptimizer.hpp"], [("record and counters", S+"bayes_opt/bo_base.hpp:add_new_sample"), ("main loop", S+"bayes_opt/boptimizer.hpp:optimize")], ["samples()", "observations()", "current_iteration()", "total_iterations()"])

prop("B02", "Failed or non-finite evaluations never corrupt the optimisation record",
 "Whenever evaluating the user's function fails with the documented error or yields a non-finite value, at any evaluation, the point is not recorded as a valid sample and the previous record, model and best point stay intact. A run interrupted this way can be inspected and continued, and continues as if the failed evaluation had not happened.",
 ["fault_sequences", "histories"], "every placement of failing, NaN, +Inf and -Inf evaluations over every evaluation of a run up to the bound, in initialisation and iterations, for scalar and vector observations, followed by resume or reset",
 "No test makes the user function fail or return a non-finite value.",
 [S+"bayes_opt/bo_base.hpp", S+"bayes_opt/boptimizer.hpp", S+"tools/math.hpp"], [("non-finite check and error handling", S+"bayes_opt/bo_base.hpp:eval_and_add"), ("finite test", S+"tools/math.hpp:is_nan_or_inf")], ["samples()", "observations()", "best_observation()"])

prop("B03", "The reported best is a recorded pair with maximal value",
 "After any run, the best observation and best sample reported form a recorded pair and no recorded observation has a larger value under the aggregation function given. This holds for every order and sign of values, ties and vector observations.",
 ["inputs", "histories"], "all sequences of observed values over an alphabet with ties, negative, tiny and extreme values up to the bound, for several aggregation functions",
 "Tests look at the best of one smooth positive objective.",
 [S+"bayes_opt/boptimizer.hpp"], [("arg-max over the aggregated record", S+"bayes_opt/boptimizer.hpp:best_observation")], ["best_observation()", "best_sample()"])

prop("B04", "Each acquisition decision uses a model of all data so far and is acted upon",
 "When the next point is chosen, the model queried has been trained on exactly the points evaluated so far, the acquisition function sees the current iteration number and the user's aggregation function, and the point evaluated next is the one the inner optimiser returned. Hyper-parameters are re-optimised exactly at the configured period and at no other time, and statistics are written once per iteration after the record is updated.",
 ["histories", "configurations"], "all runs up to the bound over hyper-parameter periods, initialiser sizes, resume/reset sequences and inner-optimiser answers (enumerated from a point alphabet)",
 "Tests check only the final best value, which survives a stale model or a skipped update.",
 [S+"bayes_opt/boptimizer.hpp", S+"bayes_opt/bo_base.hpp"], [("fit, ask, evaluate, update loop", S+"bayes_opt/boptimizer.hpp:optimize"), ("hyper-parameter period", S+"bayes_opt/boptimizer.hpp")], ["acquisition functor", "inner optimiser", "statistics"])

prop("B05", "Bounded optimisation only evaluates points inside the unit hypercube",
 "In bounded mode every point passed to the user's function, whether from initialisation or from any inner optimiser (or chain or restart of them), lies in the unit hypercube, is finite and has the declared dimension. In unbounded mode points are finite and have the declared dimension.",
 ["configurations", "inputs", "histories"], "all initialisers x inner optimisers x combinations x dimensions x their discretisation parameters, for adversarial (monotone, flat, spiky, non-smooth) objectives, with enumerated random draws",
 "Tests run interior-optimum objectives with one discretisation, where the last grid point or a perturbed restart never leaves the cube visibly.",
 [S+"bayes_opt/boptimizer.hpp", S+"opt/grid_search.hpp", S+"opt/parallel_repeater.hpp", S+"opt/nlopt_base.hpp", S+"init/lhs.hpp", S+"init/grid_sampling.hpp"], [("bounds handling", S+"opt/nlopt_base.hpp"), ("grid recursion", S+"opt/grid_search.hpp:_inner_search"), ("perturbed restarts", S+"opt/parallel_repeater.hpp")], ["arguments of the evaluated function"])

prop("B06", "Every policy given to an optimiser is used, in any order",
 "Every component a user gives to an optimiser (model, initialisation, acquisition function, inner optimiser, statistics, stopping criterion, constraint model, scalarised model) is the one it runs with, whatever other components are given and in whatever order, and each role left out is filled by its documented default. A run calls exactly those components: the initialiser once, the acquisition function on the model given, the inner optimiser for every decision, the statistics after every evaluation decided, the stopping criterion instead of the default one.",
 ["configurations", "histories"], "all sets of roles in all orders up to the bound for each of the six optimisers, with runs of every set of roles x iteration budgets x initial designs",
 "Tests give a few fixed combinations; the library does not diagnose a policy that is ignored, it silently uses the default.",
 [S+"bayes_opt/bo_base.hpp", S+"bayes_opt/boptimizer.hpp", S+"experimental/bayes_opt/cboptimizer.hpp", S+"experimental/bayes_opt/imgpo.hpp", S+"experimental/bayes_opt/bo_multi.hpp", S+"experimental/bayes_opt/ehvi.hpp", S+"experimental/bayes_opt/nsbo.hpp", S+"experimental/bayes_opt/parego.hpp"], [("named template parameters", S+"bayes_opt/bo_base.hpp:bobase_signature"), ("defaults", S+"bayes_opt/bo_base.hpp:defaults")], ["calls of the given policies", "files in the result directory"])

prop("O01", "Search optimisers return the best point they evaluated, within their budget",
 "Grid search evaluates every node of its grid and returns a node whose value is maximal; restarting optimisers return the best result among their restarts, where every restart runs; chained optimisers run in order, each starting from the previous result; random search returns a point of the domain. No optimiser exceeds the evaluation budget it was configured with, and this holds for objectives of any sign, with ties, and with infinite values.",
 ["inputs", "configurations", "histories"], "all assignments of values from an alphabet (negative, equal, huge, -inf) to the points evaluated, up to the bound, x dimensions x discretisations x nestings",
 "Tests use smooth concave objectives on which many selection bugs are invisible.",
 [S+"opt/grid_search.hpp", S+"opt/parallel_repeater.hpp", S+"opt/chained.hpp", S+"opt/random_point.hpp", S+"tools/parallel.hpp"], [("recursive grid search", S+"opt/grid_search.hpp"), ("max over restarts", S+"opt/parallel_repeater.hpp"), ("chaining", S+"opt/chained.hpp")], ["returned point", "evaluated points"])

prop("O02", "Gradient optimisers follow their published update rule and stop as documented",
 "For every objective, gradient ascent, Adam and Rprop visit exactly the iterates of their published update rule (momentum, bias correction, per-coordinate step adaptation, sign reversal) starting from the given point, use no more than the configured number of evaluations, stop early exactly when the configured tolerance is met, and, when bounded, keep iterates in the unit cube. Rprop returns the best point it evaluated and the others their last iterate.",
 ["histories", "inputs", "configurations"], "all sequences of gradient answers over a sign/magnitude/zero alphabet up to the bound x dimensions x bounded/unbounded x tolerances and momentum settings",
 "Tests check convergence on a quadratic, where a wrong update rule or a lost best point still converges.",
 [S+"opt/rprop.hpp", S+"opt/adam.hpp", S+"opt/gradient_ascent.hpp"], [("update rules", S+"opt/rprop.hpp"), ("moments", S+"opt/adam.hpp"), ("momentum", S+"opt/gradient_ascent.hpp")], ["evaluated points", "returned point"])

prop("O03", "NLOpt-based optimisers respect budget, bounds and objective, and are reusable",
 "Every NLOpt-based optimiser maximises the function it is given (never minimises or evaluates another one), stays within its evaluation budget, respects bounds only when bounded, returns a point at least as good as its start (local methods), and gives the gradient to gradient-based methods in the right orientation. An optimiser object behaves the same on every use, whatever the dimension and bounds of earlier uses, and constraint functions registered with it are satisfied by its result.",
 ["histories", "configurations", "inputs"], "all sequences up to the bound of uses of one optimiser object over dimensions, bounds modes and objectives, for all supported algorithms",
 "Tests build a fresh optimiser for a single call.",
 [S+"opt/nlopt_base.hpp", S+"opt/nlopt_no_grad.hpp", S+"opt/nlopt_grad.hpp"], [("wrapper and bounds", S+"opt/nlopt_base.hpp")], ["returned point", "evaluated points"])

prop("A01", "Acquisition functions return their documented value for the current model",
 "Upper-confidence, GP-UCB and expected-improvement functions return, at every point, their documented formula of the current model's mean and standard deviation, the best observation so far and the iteration number, for every history of model updates and calls on the same functor. Values are finite for every iteration number from the first, expected improvement is never negative, and no acquisition reports a gradient it does not have.",
 ["inputs", "histories", "configurations"], "all sequences of model updates and evaluations on one functor up to the bound, all iteration numbers to the bound, dimensions, aggregation functions and degenerate (zero) variances",
 "No test checks an acquisition value; cached best values go stale only after later model updates.",
 [S+"acqui/ucb.hpp", S+"acqui/gp_ucb.hpp", S+"acqui/ei.hpp", S+"experimental/acqui/eci.hpp"], [("cached best observation", S+"acqui/ei.hpp"), ("iteration-dependent weight", S+"acqui/gp_ucb.hpp")], ["operator()"])

prop("I01", "Initialisers evaluate exactly the documented design",
 "Each initialiser evaluates exactly its configured number of points, all inside the domain: grid sampling visits every node of the regular grid exactly once, Latin hypercube puts exactly one point in each of the equal slices of every dimension, random grid sampling visits only grid nodes, and no initialiser evaluates anything else. This holds for every outcome of the random draws.",
 ["inputs", "configurations"], "all dimensions x sample counts x bin counts up to the bound, and all random draws over an alphabet that includes the extremes of the generator",
 "Tests check counts for one configuration with one random seed.",
 [S+"init/lhs.hpp", S+"init/grid_sampling.hpp", S+"init/random_sampling.hpp", S+"init/random_sampling_grid.hpp", S+"init/no_init.hpp", S+"tools/random_generator.hpp"], [("stratification", S+"tools/random_generator.hpp:random_lhs"), ("grid recursion", S+"init/grid_sampling.hpp:_explore")], ["evaluated points"])

prop("S01", "Statistics files tell the true history of the run",
 "With every optimiser, every statistic writes, for every iteration it covers and in order, one record carrying the iteration number and the values that the optimiser's record, model and best point actually had at that moment (samples, observations, bests, aggregated values, predictions, likelihood, parameters). Initial samples are reported once, nothing is dropped, duplicated or misaligned, for any dimension, run length and sequence of resumed runs; each optimiser writes in a directory of its own, so that several optimisers of one process, one after the other or alternating, do not overwrite each other's files. An optimiser whose statistics are disabled writes no file and prints nothing, whatever statistics it is given.",
 ["histories", "configurations"], "all run histories up to the bound (initialiser sizes, iteration counts, resume/reset, dimensions, observed values) x all statistics",
 "No test reads a statistics file.",
 [S+"stat/stat_base.hpp", S+"stat/samples.hpp", S+"stat/observations.hpp", S+"stat/best_observations.hpp", S+"stat/best_samples.hpp", S+"stat/aggregated_observations.hpp", S+"stat/best_aggregated_observations.hpp", S+"stat/gp.hpp", S+"stat/gp_likelihood.hpp", S+"stat/gp_kernel_hparams.hpp", S+"stat/gp_mean_hparams.hpp", S+"stat/gp_acquisitions.hpp", S+"stat/gp_prediction_differences.hpp"], [("per-statistic writers", S+"stat"), ("log-file creation", S+"stat/stat_base.hpp")], ["files in the result directory"])

prop("S02", "Stopping criteria fire exactly when their condition holds",
 "A run stops at the first check at which at least one of its criteria holds and not before: the iteration limit allows exactly the configured number of iterations, the predicted-value criterion fires exactly when a recorded observation reaches the configured fraction of the best value the model predicts anywhere, and any number of criteria in any order combine by disjunction.",
 ["configurations", "histories"], "all truth-value histories of up to three criteria in any order, all iteration limits, thresholds and observation histories up to the bound",
 "Tests use a single iteration limit.",
 [S+"stop/chain_criteria.hpp", S+"stop/max_iterations.hpp", S+"stop/max_predicted_value.hpp", S+"bayes_opt/bo_base.hpp"], [("criteria chain", S+"stop/chain_criteria.hpp")], ["number of evaluations"])

prop("P01", "Parallel loops, reductions and sorts are exact under every schedule",
 "A parallel loop calls its body exactly once per index, a parallel for-each once per element, replicate the requested number of times; a parallel maximum returns an element (or the initial value) that no other beats, calling the function once per index, and a parallel sort produces the ordered permutation. This holds for every splitting of the work and every interleaving of the workers, without data races, and agrees with the sequential build.",
 ["schedules", "inputs", "configurations"], "all work partitions and all thread interleavings up to a preemption bound on a controlled scheduler, for all sizes up to the bound including zero, and all value patterns over a small alphabet with ties",
 "Tests run under whichever schedule the machine happens to pick, mostly without parallelism at all.",
 [S+"tools/parallel.hpp"], [("parallel primitives", S+"tools/parallel.hpp")], ["calls and results"])

prop("P02", "Models and optimisers give the same race-free results under every schedule",
 "Multi-output models, sparsified models, restarting optimisers, parallel hyper-parameter optimisation, Pareto extraction and acquisition optimisation run without data races under every thread schedule, and what they return equals the sequential result (up to rounding and to the choice among equally good answers). Read-only queries of one model or acquisition function may be made from several threads at once.",
 ["schedules", "configurations"], "all task-to-worker assignments and interleavings up to a preemption bound, with happens-before race detection on every memory access of the library code, for small models and restart counts",
 "Races need a particular schedule, and the parallel configuration is hardly exercised by the tests.",
 [S+"model/multi_gp.hpp", S+"model/sparsified_gp.hpp", S+"model/multi_gp/parallel_lf_opt.hpp", S+"opt/parallel_repeater.hpp", S+"acqui/ei.hpp", S+"experimental/tools/pareto.hpp", S+"experimental/bayes_opt/ehvi.hpp"], [("parallel loops over outputs", S+"model/multi_gp.hpp"), ("mutex around the densest point", S+"model/sparsified_gp.hpp"), ("parallel reduction over restarts", S+"opt/parallel_repeater.hpp")], ["results", "memory accesses"])

prop("P03", "Random generators are per-thread, reproducible when seeded and within range",
 "Random vectors can be requested from any number of threads at once without data races, bounded ones always inside the unit cube. A generator given a seed produces the same sequence every time, independently of other generators and threads, and each value respects the range it was built with.",
 ["schedules", "histories", "inputs"], "all interleavings up to a preemption bound of several threads drawing from the generators, all histories up to the bound of seed/draw/reset on several generator objects",
 "Tests draw from one thread.",
 [S+"tools/random_generator.hpp"], [("thread-local generators", S+"tools/random_generator.hpp:random_vector_bounded")], ["random_vector", "RandomGenerator"])

prop("E01", "The Pareto set is exactly the non-dominated points",
 "For every set of points, of any size, order, dimension, with ties and duplicates, the Pareto set returned contains a point if and only if no other point of the input dominates it, together with the data attached to it. Every copy of a duplicate is kept, and recomputing on the result returns the result.",
 ["inputs"], "all ordered point lists over a small value grid up to the bound in 2 to 4 objectives",
 "No stable test covers the Pareto code.",
 [S+"experimental/tools/pareto.hpp", S+"experimental/bayes_opt/bo_multi.hpp"], [("non-dominated filter", S+"experimental/tools/pareto.hpp:pareto_set_std"), ("dominance test", S+"experimental/tools/pareto.hpp:dominate_flag")], ["pareto_set"])

prop("E02", "Hypervolume is the exact dominated volume",
 "The hypervolume computed for any set of points and reference point equals the volume of the union of the boxes they dominate, regardless of order, duplicates, dominated points or points outside the reference. Adding a point never decreases it.",
 ["inputs"], "all ordered point lists over a small grid up to the bound in 2 to 4 objectives, compared with direct cell counting",
 "No stable test covers the hypervolume code.",
 ["src/hv/hypervol.c", S+"experimental/stat/hyper_volume.hpp"], [("recursive slicing", "src/hv/hypervol.c")], ["hypervolume value"])

prop("E03", "Expected hypervolume improvement equals its defining integral",
 "For every non-dominated front, reference point and Gaussian prediction the two-objective expected improvement equals the expectation of the hypervolume gain, the alternative three-objective computations agree with each other and with direct integration, and the acquisition function evaluates it at the model's own mean and standard deviation. The value is non-negative and does not depend on the order of the front.",
 ["inputs", "configurations"], "all fronts over a small grid up to the bound in every order x grids of means and deviations x reference points, compared with independent integration",
 "No stable test covers the expected hypervolume code.",
 ["src/ehvi/ehvi_calculations.cc", "src/ehvi/ehvi_hvol.cc", "src/ehvi/ehvi_sliceupdate.cc", "src/ehvi/helper.cc", S+"experimental/acqui/ehvi.hpp"], [("strip decomposition", "src/ehvi/ehvi_calculations.cc:ehvi2d"), ("slice update", "src/ehvi/ehvi_sliceupdate.cc")], ["ehvi value"])

prop("E04", "Constrained optimisation separates objective and constraints; bests are feasible",
 "The constrained optimiser trains its objective model on all objective values and its constraint model on all constraint values evaluated so far, and the best it reports is a recorded sample, with its own observation, that is feasible (every constraint value positive) and maximal among feasible ones, falling back to the overall best only when nothing is feasible. The acquisition function is the expected improvement times the probability that every constraint reaches one. This holds for every number of constraints, every sequence of feasible and infeasible observations and every order in which policies are given.",
 ["histories", "inputs", "configurations"], "all sequences up to the bound of objective/constraint values over a sign and tie alphabet, 0-2 constraints, resume/reset",
 "No stable test covers the constrained optimiser.",
 [S+"experimental/bayes_opt/cboptimizer.hpp", S+"experimental/acqui/eci.hpp"], [("observation split", S+"experimental/bayes_opt/cboptimizer.hpp:_split_observations"), ("feasible filter", S+"experimental/bayes_opt/cboptimizer.hpp:_feasible_observations")], ["best_sample()", "best_observation()", "model()", "constraint_model()"])

prop("E05", "Multi-objective optimisation keeps a true Pareto record, models every objective",
 "At every decision and after every run of the multi-objective optimisers the reported Pareto set consists of exactly the non-dominated recorded observations with their own samples, and there is one model per objective trained on all recorded data; the point evaluated is the one of largest expected hypervolume improvement found. Scalarised models are trained on all data as max(w*y) + rho*sum(w*y) with freshly drawn weights that are non-negative and sum to one. The Pareto statistics write exactly these sets, and nothing when statistics are disabled.",
 ["histories", "inputs", "configurations"], "all sequences up to the bound of observation vectors over a grid with ties, 2-4 objectives, all weight draws over an alphabet, all call sequences, reference points below, between and beyond",
 "No stable test covers the multi-objective optimisers.",
 [S+"experimental/bayes_opt/bo_multi.hpp", S+"experimental/bayes_opt/ehvi.hpp", S+"experimental/bayes_opt/parego.hpp", S+"experimental/model/gp_parego.hpp", S+"experimental/stat/pareto_front.hpp"], [("Pareto update", S+"experimental/bayes_opt/bo_multi.hpp"), ("scalarisation", S+"experimental/model/gp_parego.hpp")], ["pareto_data()", "data models"])

prop("E06", "The partition-tree optimiser records only true evaluations inside the domain",
 "The partition-tree optimiser evaluates only centres of ternary subdivisions of the unit cube, never the same centre twice, records every real evaluation with its own value and no value predicted by the model as if it were observed, and reports the best recorded pair. Which cell it evaluates next follows the published algorithm on the observed values: the best leaf of each level above the coarser ones, unless a finer selected cell is worth more than its descendants could be; a cell whose upper bound does not exceed the best value is not evaluated until it is selected. It honours its stopping criterion, its model is trained on all recorded data, and a resumed run continues its tree.",
 ["histories", "inputs", "configurations"], "all runs up to the bound over enumerated observation answers, dimensions, tree depths and iteration limits",
 "The example only prints its result.",
 [S+"experimental/bayes_opt/imgpo.hpp", S+"experimental/acqui/ucb_imgpo.hpp"], [("tree expansion", S+"experimental/bayes_opt/imgpo.hpp")], ["samples()", "observations()", "best_observation()"])

prop("E07", "The pseudo-input model is the Gaussian its data and parameters stand for",
 "For scalar observations, after any sequence of fits, additions, refreshes, mean changes, copies and hyper-parameter optimisations the sparse pseudo-input model predicts the mean and variance of the Gaussian defined by all its data, its prior mean, and the pseudo-inputs, scales and noise its optimisation returned. The score its optimiser maximises is the log marginal likelihood of that Gaussian with the gradient of exactly that score, for any parameters asked about. The search starts from finite parameters with distinct training inputs as pseudo-inputs, as many as configured (never more than there are data), and never ends below its start with the default optimiser.",
 ["histories", "inputs", "configurations"], "all operation histories to the bound with every answer and query of the optimiser, data with and without spread, dimensions and sparsity settings",
 "No test uses this model.",
 [S+"experimental/model/spgp.hpp"], [("pseudo-input model", S+"experimental/model/spgp.hpp")], ["query()", "mu()", "sigma()", "samples()", "pseudo_samples()", "the function given to the optimiser"])

prop("O04", "CMA-ES inner optimisation respects budget, bounds and objective",
 "Inner optimisation with CMA-ES maximises the function it is given, gives the library a start and bounds that stand for the user's (points evaluated and returned are in the configured bounds when bounded), stops exactly as configured (budget, iterations, target, tolerances, restarts), and returns the best candidate evaluated or, when stochastic or handling uncertainty, the mean of the last distribution. Progress functions are called once per generation, and one object behaves the same on every use.",
 ["inputs", "configurations", "histories"], "all pairs of settings x all sequences of candidates the library may propose up to the bound x objectives x domains x uses",
 "The CMA-ES tests need a library that is not installed, and check convergence with one configuration.",
 [S+"opt/cmaes.hpp", S+"bayes_opt/boptimizer.hpp"], [("wrapper", S+"opt/cmaes.hpp")], ["returned point", "evaluated points"])

prop("E08", "Evolutionary multi-objective search evaluates points of the model's Pareto front",
 "The evolutionary multi-objective optimiser evolves points on models of every objective trained on all recorded data, the fitness being the predicted mean capped by the best observation, and evaluates, at each iteration, a point of the evolved Pareto front that no other point of it exceeds in predicted uncertainty for every objective. The model's front it reports has the evolved points with their predictions and uncertainties, and after a run the models and the Pareto set describe everything recorded; failures, resumed runs and runs without initial samples keep the record exact.",
 ["histories", "configurations"], "all last generations of the bounded populations x all random choices x all sequences of calls with failures up to the bound",
 "Needs an evolutionary-computation framework that is not installed here; no test runs it.",
 [S+"experimental/bayes_opt/nsbo.hpp", S+"experimental/bayes_opt/bo_multi.hpp"], [("front sampling", S+"experimental/bayes_opt/nsbo.hpp"), ("fitness", S+"experimental/bayes_opt/bo_multi.hpp")], ["evaluated points", "models()", "pareto_model()", "pareto_data()"])

prop("N01", "Bayesian optimisation converges to the global optimum of smooth objectives",
 "Given enough evaluations, a Bayesian optimisation run with a suitable kernel and acquisition function samples arbitrarily close to the global maximum of a smooth objective.",
 ["histories"], "unbounded runs on all smooth objectives",
 "Tests check a few objectives with a generous tolerance.",
 [S+"bayes_opt/boptimizer.hpp"], [("main loop", S+"bayes_opt/boptimizer.hpp:optimize")], ["best_observation()"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
