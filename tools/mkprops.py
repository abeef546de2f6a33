#!/usr/bin/env python3
# source of properties.jsonl (kept as Python for readability)
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
S = "src/limbo/"
p("G01", "GP posterior mean and variance are the exact Gaussian-process formulas",
  "For every data set, every kernel and mean function and every query point, a Gaussian process with samples predicts mu(v) = m(v) + k(v)^T K^-1 (Y - m(X)) in every output dimension and sigma2(v) = k(v,v) - k(v)^T K^-1 k(v) (0 when that value is not above machine epsilon) plus the kernel noise, where K includes the noise on its diagonal. Without samples it predicts the mean function and k(v,v) plus noise. query() returns exactly the pair (mu(), sigma()).",
  ["inputs", "configurations"], "all numbers of samples, input and output dimensions, data values, kernels, means, query points",
  "tests check a few one- and two-dimensional data sets with loose tolerances at a handful of points",
  [S+"model/gp.hpp"], [("GP::query/mu/sigma", S+"model/gp.hpp"), ("GP::_mu, _sigma, _compute_k, _compute_alpha", S+"model/gp.hpp")],
  ["GP::query", "GP::mu", "GP::sigma"])
p("G02", "A GP fitted incrementally equals the same GP fitted in one batch",
  "After any sequence of compute, add_sample and recompute calls the model holds exactly the samples and observations given, in order, and its Cholesky factor L satisfies L L^T = K for the kernel matrix K of those samples with noise on the diagonal, L lower triangular with positive diagonal, and K alpha = Y - m(X) with the mean evaluated on the current data. Hence adding samples one at a time, fitting them in one call, and recomputing give the same predictions; a cached inverse of K is never used after K changed.",
  ["inputs", "histories"], "all histories of compute / add_sample / recompute with any data, kernel and mean",
  "tests compare incremental and batch fits on a few random data sets of fixed size",
  [S+"model/gp.hpp"], [("GP::compute, add_sample, recompute", S+"model/gp.hpp"), ("GP::_compute_full_kernel, _compute_incremental_kernel, _compute_alpha, _compute_obs_mean", S+"model/gp.hpp"), ("_inv_kernel_updated", S+"model/gp.hpp")],
  ["GP::matrixL", "GP::alpha", "GP::samples", "GP::observations"])
p("G03", "GP log marginal likelihood and leave-one-out score are the exact formulas",
  "compute_log_lik returns -1/2 tr((Y-m)^T K^-1 (Y-m)) - 1/2 log det K - n/2 log 2 pi, and compute_log_loo_cv returns the sum over samples and outputs of the log leave-one-out predictive density, computed from K^-1. Each value is also stored and is what the corresponding getter returns until the next computation.",
  ["inputs"], "all data sets, kernels and means",
  "tests only compare the formulas to themselves through finite differences on fixed data",
  [S+"model/gp.hpp"], [("GP::compute_log_lik", S+"model/gp.hpp"), ("GP::compute_log_loo_cv, compute_inv_kernel", S+"model/gp.hpp")],
  ["GP::compute_log_lik", "GP::get_log_lik", "GP::compute_log_loo_cv", "GP::get_log_loo_cv"])
p("G04", "GP hyper-parameter gradients are the derivatives of the objective values",
  "The gradient of the log marginal likelihood returned for kernel hyper-parameters is 1/2 tr((alpha alpha^T - K^-1) dK/dtheta_p) for every hyper-parameter p, the one returned for mean hyper-parameters is (Y-m)^T K^-1 dm/dtheta_p summed over outputs, and the leave-one-out gradient is the derivative of the leave-one-out score. Each has one entry per hyper-parameter and always uses the inverse of the current kernel matrix.",
  ["inputs", "histories"], "all data sets, kernels, means, hyper-parameter values",
  "tests compare to finite differences for a few kernels and random points with a loose tolerance",
  [S+"model/gp.hpp"], [("GP::compute_kernel_grad_log_lik, compute_mean_grad_log_lik, compute_kernel_grad_log_loo_cv", S+"model/gp.hpp")],
  ["GP::compute_kernel_grad_log_lik", "GP::compute_mean_grad_log_lik", "GP::compute_kernel_grad_log_loo_cv"])
p("K01", "Every kernel is its documented covariance function",
  "Each kernel (squared exponential, Matern 3/2, Matern 5/2, squared exponential with relevance determination, with and without the low-rank part) evaluates its documented formula, is symmetric, equals the signal variance for identical points and never exceeds it. The noise plus 1e-8 is added exactly when the two sample indices passed are equal, never otherwise.",
  ["inputs", "configurations"], "all points, dimensions, hyper-parameters and index pairs",
  "tests evaluate kernels at a few points with one set of hyper-parameters",
  [S+"kernel/kernel.hpp", S+"kernel/exp.hpp", S+"kernel/matern_three_halves.hpp", S+"kernel/matern_five_halves.hpp", S+"kernel/squared_exp_ard.hpp"],
  [("BaseKernel::operator()", S+"kernel/kernel.hpp"), ("kernel()", S+"kernel/*.hpp")], ["kernel operator()"])
p("K02", "Kernel gradients are the derivatives with respect to the log hyper-parameters",
  "For every kernel, every pair of points and every hyper-parameter value, the gradient has one entry per hyper-parameter and entry p is the partial derivative of the kernel value with respect to the p-th log-space hyper-parameter. When noise is optimised its entry is twice the noise for equal sample indices and 0 otherwise.",
  ["inputs", "configurations"], "all points, dimensions, hyper-parameters, number of low-rank columns",
  "tests compare with finite differences at random points with a loose tolerance",
  [S+"kernel/kernel.hpp", S+"kernel/exp.hpp", S+"kernel/matern_three_halves.hpp", S+"kernel/matern_five_halves.hpp", S+"kernel/squared_exp_ard.hpp"],
  [("BaseKernel::grad", S+"kernel/kernel.hpp"), ("gradient()", S+"kernel/*.hpp")], ["kernel grad"])
p("K03", "Hyper-parameters of kernels and means round-trip and take effect",
  "For every kernel and mean function, setting a hyper-parameter vector of the advertised size makes the getter return exactly that vector and makes the function use those values (kernels: exponential of the log-space values), and a newly built object reports the values its configuration gives. The advertised size always equals the length of the vector returned, including the optional noise entry.",
  ["inputs", "configurations"], "all hyper-parameter vectors, dimensions, configurations",
  "tests set a few vectors on a few kernels",
  [S+"kernel/kernel.hpp", S+"kernel/exp.hpp", S+"kernel/matern_three_halves.hpp", S+"kernel/matern_five_halves.hpp", S+"kernel/squared_exp_ard.hpp", S+"mean/constant.hpp", S+"mean/function_ard.hpp"],
  [("h_params / set_h_params / h_params_size", S+"kernel/kernel.hpp, "+S+"mean/*.hpp")], ["h_params", "set_h_params", "h_params_size"])
p("M01", "Mean functions compute their documented value and gradient",
  "The null mean is 0, the constant mean is its constant, the data mean is the mean of the observations of the model (0 without any), and the affine mean is its transformation matrix applied to the inner mean extended with 1, in every output dimension. The gradients returned by the constant and affine means are the derivatives of the value with respect to each hyper-parameter, inner ones included.",
  ["inputs", "configurations"], "all inputs, output dimensions, hyper-parameters, inner means",
  "tests check values and gradients at a few points for small dimensions",
  [S+"mean/constant.hpp", S+"mean/data.hpp", S+"mean/function_ard.hpp", S+"mean/null_function.hpp", S+"model/gp.hpp"],
  [("mean operator(), grad", S+"mean/*.hpp"), ("GP::mean_observation", S+"model/gp.hpp")], ["mean operator()", "mean grad"])
p("G05", "A multi-output GP behaves as independent single-output GPs plus a shared mean",
  "After compute, output i of a multi-output GP is modelled by a single-output zero-mean GP fitted on the given samples with the i-th coordinate of every observation minus the i-th coordinate of the mean function there, and mu, sigma and query return for each output that GP's prediction, with the mean added back. All stored observations, their mean and the sample count are exactly what was given, in order, also after add_sample.",
  ["inputs", "histories", "schedules"], "all data, dimensions, means and inner GP types; sequential or parallel per-output computation",
  "tests use one two-output data set",
  [S+"model/multi_gp.hpp"], [("MultiGP::compute, add_sample, query, mu, sigma", S+"model/multi_gp.hpp")], ["MultiGP::query", "MultiGP::mu", "MultiGP::sigma", "MultiGP::observations"])
p("G06", "Sparsification keeps at most the allowed number of genuine data points",
  "A sparsified GP never holds more than the configured maximum number of points, every point it holds is one of the given samples with its own observation, in the original order, and nothing is dropped while the limit is not exceeded. Each dropped point is the one with the smallest summed distance to its nearest neighbours among those remaining.",
  ["inputs", "histories"], "all sample sets, dimensions and limits",
  "tests check one data set size and only compare prediction errors",
  [S+"model/sparsified_gp.hpp"], [("SparsifiedGP::compute, add_sample, _sparsify, _get_most_dense_point, _remove_row, _remove_column", S+"model/sparsified_gp.hpp")],
  ["SparsifiedGP::samples", "SparsifiedGP::observations"])
p("G07", "Hyper-parameter optimisers install the best parameters found and refit",
  "Each likelihood or leave-one-out hyper-parameter optimiser maximises the matching score of the model's own data as a function of the log-space hyper-parameters (with its gradient), starts from the current ones, and leaves the model with exactly the parameters the inner optimiser returned, a factorisation, weights and stored score consistent with them, and unchanged data. Evaluating candidates never modifies the model itself.",
  ["inputs", "histories"], "all models, inner optimisers and data",
  "tests run one optimiser on one data set and check that the likelihood improved",
  [S+"model/gp/kernel_lf_opt.hpp", S+"model/gp/kernel_loo_opt.hpp", S+"model/gp/kernel_mean_lf_opt.hpp", S+"model/gp/mean_lf_opt.hpp", S+"model/multi_gp/parallel_lf_opt.hpp"],
  [("operator() and the inner objective functors", S+"model/gp/*_opt.hpp")], ["GP::optimize_hyperparams"])
p("B01", "Every evaluation of the objective is recorded once and reaches the model",
  "During optimize, each objective evaluation appends exactly one sample and its finite observation, in evaluation order, so samples and observations always have the same length and match pairwise, and whenever the acquisition function is built the model has been given exactly all of them. An observation with a NaN or infinite coordinate raises an error and records nothing.",
  ["histories", "inputs"], "all objectives, models, acquisition optimisers, initialisations, stopping criteria and sequences of optimize calls",
  "tests run a few short optimisations and look at the best value found",
  [S+"bayes_opt/boptimizer.hpp", S+"bayes_opt/bo_base.hpp"], [("BOptimizer::optimize", S+"bayes_opt/boptimizer.hpp"), ("BoBase::_init, add_new_sample, eval_and_add", S+"bayes_opt/bo_base.hpp")],
  ["BoBase::samples", "BoBase::observations"])
p("B02", "Optimisation respects iteration counting, reset and hyper-parameter period",
  "optimize performs one evaluation, one statistics update and one model update per iteration until a stopping criterion holds, the iteration counter restarts at 0 on each call, and the total counter accumulates over calls made without reset. With reset (or before any iteration) the initial design is run, otherwise earlier data are kept and the design is not re-run; model hyper-parameters are optimised after exactly every hp_period-th iteration, and never when the period is not positive.",
  ["histories", "configurations"], "all sequences of optimize calls with and without reset, all periods and criteria",
  "tests use one or two fixed configurations",
  [S+"bayes_opt/boptimizer.hpp", S+"bayes_opt/bo_base.hpp", S+"stop/max_iterations.hpp", S+"stop/chain_criteria.hpp"],
  [("BOptimizer::optimize loop", S+"bayes_opt/boptimizer.hpp"), ("BoBase::_init, _stop, _update_stats", S+"bayes_opt/bo_base.hpp"), ("ChainCriteria", S+"stop/chain_criteria.hpp"), ("MaxIterations", S+"stop/max_iterations.hpp")],
  ["BoBase::current_iteration", "BoBase::total_iterations"])
p("B03", "The reported optimum is the best recorded observation and its sample",
  "best_observation returns a recorded observation whose aggregated value is the maximum over all recorded observations, and best_sample returns the sample evaluated to give it: the first such pair in evaluation order, for any aggregator.",
  ["inputs", "histories"], "all non-empty histories and aggregators",
  "tests check that the best value is close to a known optimum",
  [S+"bayes_opt/boptimizer.hpp"], [("BOptimizer::best_observation, best_sample", S+"bayes_opt/boptimizer.hpp")], ["best_observation", "best_sample"])
p("B04", "Stopping criteria stop exactly when they should",
  "Optimisation stops as soon as at least one configured criterion holds and not before. The iteration criterion holds exactly once the configured number of iterations was done; the predicted-value criterion holds exactly when there is data and the best aggregated observation exceeds the configured ratio times the aggregated prediction at the point where its optimiser maximises the predicted mean.",
  ["inputs", "histories", "configurations"], "all lists of criteria, models, aggregators, ratios",
  "tests only run the iteration criterion",
  [S+"stop/chain_criteria.hpp", S+"stop/max_iterations.hpp", S+"stop/max_predicted_value.hpp", S+"bayes_opt/bo_base.hpp"],
  [("ChainCriteria::operator()", S+"stop/chain_criteria.hpp"), ("MaxIterations", S+"stop/max_iterations.hpp"), ("MaxPredictedValue", S+"stop/max_predicted_value.hpp")], ["BoBase::_stop"])
p("A01", "Acquisition functions compute their documented formulas",
  "UCB is aggregate(mu) + alpha sqrt(sigma2); GP-UCB uses sqrt(2 log(n^(D/2+2) pi^2 / (3 delta))) as the factor for every iteration number n above 0; expected improvement is X Phi(X/sigma) + sigma phi(X/sigma), with X the aggregated prediction minus the best aggregated prediction at the model's current samples minus the jitter, and 0 without samples or with negligible sigma. The reference value follows the model when samples are added, and no acquisition reports a gradient.",
  ["inputs", "histories"], "all models, query points, aggregators, parameters, iteration numbers",
  "tests exercise acquisitions only through whole optimisation runs",
  [S+"acqui/ucb.hpp", S+"acqui/gp_ucb.hpp", S+"acqui/ei.hpp"], [("UCB/GP_UCB/EI::operator()", S+"acqui/*.hpp")], ["acquisition operator()"])
p("O01", "Rprop returns the best point it evaluated and stays in bounds",
  "Rprop evaluates the objective at most the configured number of times, every time with a gradient; when bounded, every point it evaluates or returns lies in [0,1] in each coordinate, starting from the clamped start. It returns the (first) evaluated point with the largest objective value, or the start if nothing was above minus infinity, and follows the sign-based update with step growth 1.2, decay 0.5, limits 1e-6 and 50, ending early only when the gradient it keeps has a norm below the tolerance.",
  ["inputs", "histories"], "all objectives, start points, dimensions, bounds flags and iteration limits",
  "tests run it on a few smooth one- and two-dimensional functions",
  [S+"opt/rprop.hpp"], [("Rprop::operator()", S+"opt/rprop.hpp")], ["Rprop result and evaluated points"])
p("O02", "Gradient ascent and Adam follow their update rule within bounds and budget",
  "Gradient ascent and Adam evaluate the gradient at most the configured number of times, apply their documented update (momentum and Nesterov options; bias-corrected moments), and stop early only when the documented tolerance is met. When bounded, the returned point lies in [0,1] in each coordinate.",
  ["inputs", "histories"], "all objectives, start points, dimensions and settings",
  "tests run a few convex functions",
  [S+"opt/gradient_ascent.hpp", S+"opt/adam.hpp"], [("GradientAscent::operator()", S+"opt/gradient_ascent.hpp"), ("Adam::operator()", S+"opt/adam.hpp")], ["optimiser results"])
p("O03", "Grid search, repeated and chained optimisers return the right candidate",
  "Grid search returns a grid point of [0,1]^n whose value is at least that of every point of the regular grid with the configured number of intervals. The parallel repeater runs the inner optimiser the configured number of times from starts within epsilon of the given one and returns a result whose value is maximal among them, a chain feeds each optimiser's result to the next and returns the last, and the random-point optimiser returns a point of [0,1]^n of the right size; objective, start and bounds flag are passed unchanged.",
  ["inputs", "schedules", "configurations"], "all objectives, inner optimisers, grid resolutions, dimensions, numbers of repeats, interleavings of the repeats",
  "tests run a grid search on one function",
  [S+"opt/grid_search.hpp", S+"opt/parallel_repeater.hpp", S+"opt/chained.hpp", S+"opt/random_point.hpp", S+"tools/parallel.hpp"],
  [("GridSearch::_inner_search", S+"opt/grid_search.hpp"), ("ParallelRepeater::operator()", S+"opt/parallel_repeater.hpp"), ("Chained::operator()", S+"opt/chained.hpp"), ("par::max", S+"tools/parallel.hpp")], ["optimiser results"])
p("O04", "NLopt wrappers maximise the given function within the requested bounds",
  "The NLopt wrappers set the optimiser to maximise the given function with the configured evaluation budget and tolerances, restrict every coordinate to [0,1] exactly when bounded, and start from the given point. The function they give NLopt returns the objective's value at NLopt's point and, when a gradient is asked for, writes the objective's gradient.",
  ["inputs", "configurations"], "all objectives, start points, dimensions, algorithms and settings",
  "tests optimise two fixed functions",
  [S+"opt/nlopt_base.hpp", S+"opt/nlopt_grad.hpp", S+"opt/nlopt_no_grad.hpp"], [("NLOptBase::operator(), nlopt_func", S+"opt/nlopt_base.hpp"), ("initialize", S+"opt/nlopt_grad.hpp, "+S+"opt/nlopt_no_grad.hpp")], ["NLopt calls"])
p("I01", "Initial designs evaluate exactly the intended points",
  "Random sampling and Latin-hypercube sampling evaluate exactly the configured number of points, inside [0,1]^n when bounded, the latter with exactly one point in each of the equal-width slices of every dimension; random grid sampling evaluates the configured number of points of the grid {0, 1/b, ..., 1}^n; grid sampling evaluates each point of that grid exactly once; no initialisation evaluates nothing. Every point has the objective's input dimension.",
  ["inputs", "configurations"], "all dimensions, counts, bins and random draws",
  "tests count evaluations for one configuration per design",
  [S+"init/random_sampling.hpp", S+"init/lhs.hpp", S+"init/random_sampling_grid.hpp", S+"init/grid_sampling.hpp", S+"init/no_init.hpp", S+"tools/random_generator.hpp"],
  [("init operator()", S+"init/*.hpp"), ("random_lhs", S+"tools/random_generator.hpp")], ["points evaluated"])
p("T01", "Parallel tools do each unit of work exactly once with the sequential result",
  "loop runs its body exactly once for each index of [begin,end), for_each exactly once per element, replicate exactly the requested number of times, and max returns the initial value or a computed value such that no computed value compares greater; sort orders its range. With and without threading the results are the same (up to ties), and the container conversion preserves all elements in order.",
  ["schedules", "inputs"], "all ranges, bodies, comparison functions and thread interleavings",
  "tests do not test these tools directly",
  [S+"tools/parallel.hpp"], [("par::loop, for_each, max, sort, replicate, convert_vector", S+"tools/parallel.hpp")], ["par::*"])
p("T02", "Numeric and random helpers meet their definitions",
  "signum is -1, 0 or 1 by sign for signed and unsigned types; is_nan_or_inf is true exactly when some coordinate is NaN or infinite; make_vector gives a one-element vector. Random vectors have the requested size and lie in [0,1] when bounded, each coordinate being one fresh draw, and generators seeded with the same non-negative seed produce the same sequence.",
  ["inputs"], "all values, sizes, types and seeds",
  "tests do not cover them directly",
  [S+"tools/math.hpp", S+"tools/random_generator.hpp"], [("signum, is_nan_or_inf, make_vector", S+"tools/math.hpp"), ("RandomGenerator, random_vec, random_vector*", S+"tools/random_generator.hpp")], ["tools::*"])
p("S01", "Archives give back exactly what was saved",
  "Loading an object from a text or binary archive returns the saved matrix, vector or list of vectors with the same dimensions and bit-identical finite values, for every non-empty shape, also when the object is saved again with a smaller size or several objects share a directory.",
  ["inputs", "histories"], "all finite matrices and lists of vectors, object names, sequences of saves and loads",
  "tests round-trip a few data sets and compare predictions",
  [S+"serialize/binary_archive.hpp", S+"serialize/text_archive.hpp"], [("BinaryArchive::_write_binary/_read_binary", S+"serialize/binary_archive.hpp"), ("TextArchive::save/load/_load", S+"serialize/text_archive.hpp")], ["archive.load"])
p("S02", "A saved model reloads to the same model",
  "Loading a GP or multi-output GP that was saved with the same types restores its samples, observations, dimensions and kernel and mean hyper-parameters, and its predictions, both when it refits and when it reads the stored factorisation, whatever the loading object held before. Data added after a reload behave as on the original model.",
  ["inputs", "histories"], "all fitted models, archives, previous contents of the loading object",
  "tests round-trip three small models into fresh objects",
  [S+"model/gp.hpp", S+"model/multi_gp.hpp"], [("GP::save, GP::load", S+"model/gp.hpp"), ("MultiGP::save, MultiGP::load", S+"model/multi_gp.hpp")], ["GP::load", "MultiGP::load"])
p("W01", "Statistics files record every iteration",
  "With statistics enabled, each of the built-in sample, observation, aggregated observation, best and model statistics writes its header first and then exactly one line per iteration carrying the total iteration number and the documented values (points evaluated before the first iteration appear once, marked -1, in the sample and observation files). With statistics disabled nothing is written.",
  ["histories", "configurations"], "all runs, data and statistics lists",
  "no test reads the files",
  [S+"stat/*.hpp"], [("stat operator()", S+"stat/*.hpp"), ("StatBase::_create_log_file", S+"stat/stat_base.hpp")], ["files in res_dir"])
p("X01", "The Pareto set is exactly the set of non-dominated points",
  "dominate(a,b) holds exactly when a is at least as large as b in every objective and larger in one, and the Pareto set of a non-empty list contains every element that no element dominates, as often as it occurs, and nothing else, in decreasing lexicographic order of objectives.",
  ["inputs", "schedules"], "all lists, numbers of objectives above one, duplicates and ties, interleavings",
  "no stable test covers it",
  [S+"experimental/tools/pareto.hpp"], [("dominate_flag, non_dominated, pareto_set_std, compare_objs_lex", S+"experimental/tools/pareto.hpp")], ["pareto::pareto_set"])
p("X02", "ParEGO scalarises observations with one weight vector on the simplex",
  "The ParEGO model is fitted on the given samples and, for each observation, the augmented Chebyshev value max_i(w_i y_i) + rho sum_i w_i y_i of its coordinates, with non-negative weights summing to one drawn anew for each fit; its single-output predictions are the underlying GP's.",
  ["inputs", "histories"], "all data, numbers of objectives, weights",
  "no stable test covers it",
  [S+"experimental/model/gp_parego.hpp", S+"experimental/bayes_opt/parego.hpp"], [("GPParego::compute, add_sample, _scalarize_obs", S+"experimental/model/gp_parego.hpp")], ["GPParego"])
p("X03", "Constrained optimisation reports the best feasible sample",
  "In constrained Bayesian optimisation, each evaluation is recorded once with its objective and constraint parts, the reported best is the first sample and objectives with the highest aggregated objective among feasible evaluations, those whose constraint values have a positive product (among all if none is feasible or there is no constraint), and sample and observation belong to the same evaluation.",
  ["histories", "inputs"], "all histories of feasible and infeasible evaluations",
  "one example runs it; results are not checked",
  [S+"experimental/bayes_opt/cboptimizer.hpp", S+"experimental/acqui/eci.hpp"], [("CBOptimizer::best_observation, best_sample, _feasible_observations, _split_observations", S+"experimental/bayes_opt/cboptimizer.hpp")], ["best_sample", "best_observation"])
p("X04", "Sparse pseudo-input GP predictions follow the SPGP equations",
  "The sparse pseudo-input GP's mean and variance follow the SPGP predictive equations for its pseudo-inputs and hyper-parameters, and its likelihood gradient is the derivative of its likelihood.",
  ["inputs"], "all data, pseudo-inputs and hyper-parameters",
  "no stable test checks it",
  [S+"experimental/model/spgp.hpp"], [("SPGP", S+"experimental/model/spgp.hpp")], ["SPGP::query"])
p("X05", "Bayesian optimisation approaches the global optimum as the budget grows",
  "With exact models and a maximised acquisition function, the best observed value converges to the global maximum of the objective as the number of iterations grows.",
  ["histories"], "all objectives in the model's class, infinite runs",
  "tests run a few dozen iterations on known functions",
  [S+"bayes_opt/boptimizer.hpp"], [("BOptimizer::optimize", S+"bayes_opt/boptimizer.hpp")], ["best_observation"])
p("X06", "Expected hypervolume improvement equals its definition",
  "The expected hypervolume improvement computed for a population, reference point, mean and deviation equals the expectation over the Gaussian of the increase of dominated hypervolume, and the hypervolume computed for a front equals the volume it dominates.",
  ["inputs"], "all fronts, reference points, means and deviations",
  "no stable test checks it",
  ["src/ehvi/ehvi_calculations.cc", "src/hv/hypervol.c", S+"experimental/acqui/ehvi.hpp"], [("ehvi2d", "src/ehvi/ehvi_calculations.cc"), ("hypervolume", "src/hv/hypervol.c")], ["EHVI::operator()"])
p("X07", "CMA-ES wrapper maximises within bounds",
  "The CMA-ES optimiser maximises the given function, keeps points in [0,1]^n when bounded and respects the evaluation budget.",
  ["inputs"], "all objectives and settings",
  "tests skip it when libcmaes is absent",
  [S+"opt/cmaes.hpp"], [("Cmaes::operator()", S+"opt/cmaes.hpp")], ["Cmaes result"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
