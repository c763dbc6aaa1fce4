"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": [observe], "hook_needed": None}
    if state: a["state"] = [{"name": state, "meaning": state, "where": files[0]}]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Gauss-Newton product equals factor * sum of J^T H J v",
  "For any differentiable model, parameter pytree, data batch and supported loss (mean squared error, softmax cross-entropy, binary cross-entropy, no loss, a custom callable, or a user-supplied loss-Hessian product), the generalized Gauss-Newton matrix-vector product of a vector v equals (total samples / curvature samples) times the sum over data points of J^T H J v, returned in the parameters' pytree layout. The resulting operator is linear, symmetric, additive over data points and, for convex losses, positive semi-definite, whether the model is vectorised over the data or called on the whole batch.",
  ["inputs", "configurations"], "all models, parameter layouts, losses, batch sizes, vectors, sample counts and both vectorisation modes",
  "The tests compare a few fixed linear/MLP cases; a wrong loss Hessian, factor, or batching rule shows only for particular losses, class counts, batch sizes or output shapes.",
  ["laplax/curv/ggn.py", "laplax/api.py"],
  [("loss Hessian products", "laplax/curv/ggn.py:create_loss_hessian_mv"), ("linearize/transposed product", "laplax/curv/ggn.py:create_ggn_mv_without_data"), ("scaling factor", "laplax/curv/ggn.py:create_ggn_mv")],
  "return value of the matrix-vector product functions built by create_ggn_mv / create_ggn_mv_without_data / api.GGN")

p("P02", "Hessian product equals the exact Hessian of the summed loss",
  "For any twice differentiable model, parameter pytree, data batch and documented loss, the Hessian matrix-vector product equals (total samples / curvature samples) times the exact second derivative, with respect to the parameters, of the loss summed over the batch, applied to the vector. The operator is linear and symmetric, and the result has the parameters' pytree layout.",
  ["inputs", "configurations"], "all models with curvature in the parameters, losses, batch sizes, vectors and vectorisation modes",
  "The only Hessian test is a two-parameter Rosenbrock function with a custom loss; built-in losses, batches and scaling are never exercised.",
  ["laplax/curv/hessian.py", "laplax/curv/utils.py"],
  [("hvp", "laplax/curv/hessian.py:hvp"), ("model/loss concatenation", "laplax/curv/utils.py:concatenate_model_and_loss_fn"), ("scaling factor", "laplax/curv/hessian.py:create_hessian_mv")],
  "return value of create_hessian_mv(...)(v)")

p("P03", "Streaming over a data loader equals using all the data at once",
  "For any way of splitting a dataset into batches, a curvature product evaluated through the data loader wrapper with additive reduction equals the product over the concatenated dataset, and the dense matrix and the diagonal extracted from it equal those of the whole dataset, also after wrapping its inputs and outputs. The running-mean, sum and concatenation reductions equal the mean, sum and concatenation over all batches, repeated traversals give the same result, and an empty loader is reported as an error.",
  ["inputs", "histories"], "all datasets, partitions into (unequal) batches, batch formats, reductions and sequences of calls",
  "Tests use one fixed equal-sized split; uneven last batches, single-element batches, pytree results and repeated use are left out.",
  ["laplax/util/loader.py"],
  [("batch loop", "laplax/util/loader.py:process_batches"), ("reductions", "laplax/util/loader.py:reduce_*"), ("DataLoaderMV dispatch", "laplax/util/loader.py:DataLoaderMV")],
  "results of DataLoaderMV calls, to_dense/diagonal on it, execute_with_data_loader and wrap_function_with_data_loader")

p("P04", "Posterior covariance is the inverse of scaled curvature plus prior",
  "For any positive semi-definite curvature, prior precision, noise variance and loss scaling factor, the posterior covariance product of each curvature type equals multiplication by loss_scale * (noise_variance * C + prior_precision * I)^-1, where C is the full curvature, its diagonal, or its low-rank approximation, in the parameters' pytree layout. The scale product S satisfies S S^T = covariance, and one fitted curvature can be reused for many prior arguments without one result affecting another.",
  ["inputs", "configurations", "histories"], "all curvatures, parameter layouts, curvature types, prior arguments and sequences of prior arguments",
  "Tests use a few fixed matrices with loss scaling 1 and unit noise; the consistency of the three representations over the argument space is not sampled.",
  ["laplax/curv/cov.py", "laplax/curv/full.py", "laplax/curv/diagonal.py", "laplax/curv/low_rank.py"],
  [("precision", "*_curvature_to_precision"), ("posterior state", "*_prec_to_posterior_state"), ("cov/scale products", "*_posterior_state_to_cov / _scale"), ("layout wrapping", "laplax/curv/cov.py:set_posterior_fn")],
  "Posterior.cov_mv(state)(v), Posterior.scale_mv(state)(v)")

p("P05", "Low-rank approximations recover the leading spectrum of the curvature",
  "For any symmetric positive semi-definite operator, the Lanczos approximation U diag(S) U^T equals the operator compressed to the Krylov space of the start vector, so it reproduces an operator with distinct non-zero eigenvalues whenever the rank exceeds the operator's rank (also a rank above the dimension), counts no direction twice and never has values outside the spectrum. The block eigensolver returns orthonormal vectors in descending order of their eigenvalue estimates with U^T A U = diag(S), and reproduces operators of rank at most its block size. Both accept arrays and flat or pytree callables, reduce nothing silently, and depend only on the operator, the start and the options.",
  ["inputs", "configurations"], "all symmetric PSD operators, ranks, start vectors/keys, precisions and input forms",
  "Tests use two fixed kinds of matrices with full rank; breakdown (low-rank or repeated spectra), rank above dimension and mixed precision are not covered.",
  ["laplax/curv/lanczos.py", "laplax/curv/lobpcg.py", "laplax/curv/low_rank.py", "laplax/curv/utils.py"],
  [("Lanczos recursion and breakdown", "laplax/curv/lanczos.py:lanczos_iterations"), ("tridiagonal eigendecomposition", "laplax/curv/lanczos.py:compute_eigendecomposition"), ("LOBPCG iteration", "laplax/curv/lobpcg.py:lobpcg_standard"), ("operator wrapping", "laplax/curv/utils.py:get_matvec")],
  "U, S, scalar of lanczos_lowrank / lobpcg_lowrank / estimate_curvature")

p("P06", "Library calls leave global precision and the caller's objects unchanged",
  "Whatever sequence of library calls is made, including calls that raise, the process-wide 64-bit floating point setting afterwards equals its value before, and low-rank results have the precision the caller asked for or had configured. Data, parameter pytrees, prior-argument dictionaries, metric and function lists handed in by the caller keep their contents, and the library's own default lists keep theirs.",
  ["histories", "fault_sequences", "configurations"], "all sequences of library calls over both precision modes, with calls that fail for bad arguments or raising user callables at any point",
  "Unit tests run each function once on valid input in one precision mode; leaked global state appears only across calls or on error paths.",
  ["laplax/curv/lanczos.py", "laplax/curv/lobpcg.py", "laplax/eval/utils.py", "laplax/api.py"],
  [("x64 toggling", "laplax/curv/lanczos.py:lanczos_lowrank"), ("x64 toggling", "laplax/curv/lobpcg.py:lobpcg_lowrank"), ("metric lists", "laplax/eval/utils.py:evaluate_metrics_on_dataset")],
  "jax.config value, dtypes of results, deep comparison of arguments before/after each call", "process-wide jax configuration; module-level default lists")

p("P07", "Linearised predictive is the exact Gaussian pushforward",
  "For any model, parameters, posterior and input, the linearised predictive reports mean = the model output at the MAP, covariance = J C J^T with C the posterior covariance and J the Jacobian at the MAP, variance = its diagonal and standard deviation = its square root, in the output's shape, for every requested subset and order of the statistics. Samples are mean + J w for the posterior weight samples w, are reproducible from the key, and have that covariance statistically.",
  ["inputs", "configurations"], "all models, inputs, output shapes, curvature types, prior arguments, subsets and orders of the statistics functions",
  "Tests check one-dimensional outputs with one fixed order; multi-dimensional outputs, partial statistic lists and covariance cross-terms are not settled by them.",
  ["laplax/eval/pushforward.py"],
  [("output-space products", "laplax/eval/pushforward.py:set_output_mv"), ("statistics", "laplax/eval/pushforward.py:lin_pred_*"), ("samples", "laplax/eval/pushforward.py:lin_samples"), ("weight samples", "laplax/eval/pushforward.py:set_get_weight_sample")],
  "dictionary returned by set_lin_pushforward(...)(input)")

p("P08", "Sampling predictive equals statistics of the weight-sample ensemble",
  "The non-linear predictive's mean, variance, standard deviation, covariance, samples and averaged softmax are the empirical statistics of the model evaluated at weights MAP + S z_i, with S the posterior scale and z_i standard normal draws determined by the key and the sample index; the full requested number of samples is used. The same key gives identical results, different sample indices give independent draws with covariance S S^T, and precomputing samples or not gives the same numbers.",
  ["inputs", "configurations"], "all models, posteriors, keys, sample counts, precompute options and subsets of statistics",
  "Tests assert shapes and a few consistency relations for one sample count; that all samples enter and with the right distribution is not checked.",
  ["laplax/eval/pushforward.py", "laplax/util/ops.py", "laplax/util/tree.py"],
  [("weight samples", "laplax/eval/pushforward.py:set_get_weight_sample"), ("ensemble", "laplax/eval/pushforward.py:nonlin_setup"), ("statistics", "laplax/eval/pushforward.py:nonlin_pred_*"), ("normal draws", "laplax/util/tree.py:normal_like")],
  "dictionary returned by set_nonlin_pushforward(...)(input); get_weight_samples(i)")

p("P09", "Classification predictives follow their closed forms",
  "For any logit mean and covariance, the mean-field predictives (orders 0, 1, 2), the Laplace bridge (with and without correction) and the Monte-Carlo bridge equal their documented closed forms, alone and inside a pushforward. All give finite values in [0, 1]; Laplace bridge, mean-field 0 and Monte-Carlo bridge sum to one, zero covariance reduces the mean-field predictives to the softmax, and permuting the classes permutes the result.",
  ["inputs", "configurations"], "all class counts, logit means, covariances, predictive types and pushforward configurations",
  "No existing test evaluates a predictive; errors in which axis counts classes, in normalisation or in the covariance terms are input dependent.",
  ["laplax/eval/predictives.py", "laplax/eval/pushforward.py"],
  [("closed forms", "laplax/eval/predictives.py"), ("selection", "laplax/eval/pushforward.py:special_pred_act"), ("MC bridge", "laplax/eval/pushforward.py:lin_mc_pred_act / nonlin_mc_pred_act")],
  "return values of the predictive functions and the special_pred_act / mc_pred_act entries")

p("P10", "Marginal log-likelihood equals the Laplace evidence formula",
  "For any model, data, curvature type and prior arguments, the marginal log-likelihood equals log-likelihood term plus Gaussian log-prior minus half the log-determinant of the posterior precision over 2*pi, with the precision of that curvature type. Low-rank curvature of sufficient rank gives the same value as full curvature, a full curvature that is diagonal gives the same value as diagonal curvature, and the value is additive and scales with prior arguments as the formula says.",
  ["inputs", "configurations"], "all models, datasets, losses, curvature types, prior precisions, noise variances and loss scaling factors",
  "There is no test of its numeric value; determinant errors of a low-rank representation show only when compared with the dense computation.",
  ["laplax/eval/likelihood.py", "laplax/curv/utils.py"],
  [("joint log-likelihood", "laplax/eval/likelihood.py:joint_log_likelihood"), ("log-determinants", "laplax/eval/likelihood.py:*_marginal_log_likelihood"), ("dispatch", "laplax/eval/likelihood.py:marginal_log_likelihood")],
  "return value of marginal_log_likelihood and the per-type functions")

p("P11", "Regression and scoring metrics equal their definitions",
  "For all predictions and targets of any shape and scale, RMSE, (zero-centred) chi-squared, Gaussian negative log-likelihood, Gaussian CRPS, top-k accuracy, correctness, cross-entropy and the multiclass Brier score equal their mathematical definitions, averaged or summed as requested, and accept class indices and one-hot targets alike. They are invariant to the order of the samples and reach their optimum for perfect predictions.",
  ["inputs"], "all prediction/target arrays of matching shapes, class counts, k, target encodings and options",
  "No existing test evaluates the metric values; sign, normalisation and axis errors need an independent reference over many shapes.",
  ["laplax/eval/metrics.py"],
  [("metric functions", "laplax/eval/metrics.py")],
  "return values of the metric functions")

p("P12", "Calibration errors are computed from correctly filled bins",
  "For any confidences in [0, 1], correctness labels (boolean, integer or float) and number of bins, the bin proportions sum to one and each bin reports the proportion, mean confidence and accuracy of exactly the samples whose confidence falls in it (right-open bins, with 1 in the last bin; empty bins report zero). The expected and the maximum calibration error are the proportion-weighted sum and the maximum of the per-bin gaps, lie in [0, 1] and do not depend on sample order.",
  ["inputs"], "all confidence arrays including bin edges, label dtypes and bin counts",
  "Edge values, empty bins, label dtypes and duplicated bin indices only matter for specific inputs that no test contains.",
  ["laplax/eval/metrics.py"],
  [("binning", "laplax/eval/metrics.py:calculate_bin_metrics"), ("aggregation", "laplax/eval/metrics.py:calibration_error")],
  "return values of calculate_bin_metrics, calibration_error, expected_/maximum_calibration_error")

p("P13", "Grid search returns the best value it is allowed to see",
  "For every objective, grid, patience and iteration limit, the grid search evaluates grid points in order, once each, stops exactly when the objective has strictly increased patience times in a row or after the maximum number of iterations, and returns the evaluated grid point with the smallest objective (the first on ties). Objective values that are NaN or evaluations that fail with a value error count as infinitely bad and never abort the search; the default grid is log-spaced between the given bounds inclusive.",
  ["histories", "fault_sequences", "configurations"], "all sequences of objective values including NaN, infinities and raised errors, all grids, patience and iteration limits",
  "Tests run one smooth objective; stopping rules depend on the history of values and on faults at particular steps.",
  ["laplax/eval/calibrate.py"],
  [("search loop", "laplax/eval/calibrate.py:grid_search"), ("grid", "laplax/eval/calibrate.py:optimize_prior_prec")],
  "recorded sequence of objective calls and the returned prior precision")

p("P14", "Dataset and generator evaluation agree with per-sample evaluation",
  "For any prediction function, data and metrics, evaluating on a dataset equals evaluating every data point separately and stacking, and evaluating on a generator equals doing so batch by batch, so that concatenating the batch results gives the dataset result for any batch split and for one-shot iterators. Metrics given as a list, as a dictionary or both are all applied and reported under their names, and the reduction is applied to each metric exactly once.",
  ["inputs", "histories", "configurations"], "all prediction functions, datasets, batch splits, metric lists/dictionaries, reductions and batch-size options",
  "Tests use a single batch layout; lost, duplicated or reordered batches and mixed metric specifications need varied histories.",
  ["laplax/eval/utils.py", "laplax/eval/calibrate.py"],
  [("dataset map", "laplax/eval/utils.py:evaluate_on_dataset / evaluate_metrics_on_dataset"), ("generator loop", "laplax/eval/utils.py:evaluate_metrics_on_generator"), ("objective evaluation", "laplax/eval/calibrate.py:evaluate_for_given_prior_arguments")],
  "dictionaries returned by the evaluation functions")

p("P15", "Pytree flattening and layouts round-trip without loss",
  "For every pytree of arrays (any nesting, leaf shapes, scalars, dtypes), flattening then unflattening and unflattening then flattening are identities with one consistent element order; the same holds for partial flattening and for splitting an array axis into a pytree. Functions wrapped with input and output transforms equal the composition, and basis vectors, identity pytrees, element access and slicing all use that same order.",
  ["inputs"], "all pytree structures, leaf shapes, axes, indices and argument positions",
  "Tests use two or three fixed trees; index bookkeeping fails only on particular leaf-shape combinations.",
  ["laplax/util/flatten.py", "laplax/util/tree.py"],
  [("flatteners", "laplax/util/flatten.py:create_pytree_flattener / create_partial_pytree_flattener"), ("axis split", "laplax/util/flatten.py:unravel_array_into_pytree"), ("wrapping", "laplax/util/flatten.py:wrap_function / wrap_factory"), ("basis vectors", "laplax/util/tree.py:basis_vector_from_index / eye_like")],
  "return values of the flatten/unflatten pairs and tree helpers")

p("P16", "Pytree arithmetic and statistics match flat array arithmetic",
  "For all pytrees of matching structure, addition, subtraction, negation, scaling, roots, means, variances, standard deviations, covariances, matrix-vector products with pytree-structured matrices, comparisons and random draws agree with the same operation on the flattened or per-leaf arrays. Random pytrees are reproducible from the key, standard normal and uncorrelated between leaves, and keep the structure and leaf shapes of the template.",
  ["inputs"], "all pytree structures, leaf shapes, values, scalars and keys",
  "Tests cover single-leaf or equal-shaped leaves; block ordering mistakes in structured products appear only with leaves of different shapes.",
  ["laplax/util/tree.py"],
  [("arithmetic", "laplax/util/tree.py:add/sub/neg/mul/sqrt/invert"), ("statistics", "laplax/util/tree.py:mean/std/var/cov"), ("structured products", "laplax/util/tree.py:tree_matvec / tree_partialmatvec"), ("random draws", "laplax/util/tree.py:randn_like / normal_like")],
  "return values of the tree functions")

p("P17", "Dense matrices and diagonals extracted from operators are exact",
  "For every linear operator given as a function on vectors or pytrees, or as an array, densifying it returns the matrix whose product with any flat vector equals the operator's result, and the diagonal function returns exactly that matrix's diagonal in flat order, regardless of batch size and of whether the operator can be jit-compiled. Curvature estimates of type full and diagonal are this matrix and this diagonal.",
  ["inputs", "configurations"], "all linear operators (also non-symmetric), layouts, batch sizes and jit options",
  "Tests use symmetric or fixed matrices where a transposed or permuted result cannot be seen.",
  ["laplax/util/mv.py", "laplax/curv/full.py", "laplax/curv/diagonal.py"],
  [("diagonal", "laplax/util/mv.py:diagonal"), ("densify", "laplax/util/mv.py:to_dense"), ("full/diagonal estimates", "laplax/curv/full.py:create_full_curvature, laplax/curv/diagonal.py:create_diagonal_curvature")],
  "return values of to_dense, diagonal and estimate_curvature")

p("P18", "One-call Laplace fit equals the documented Laplace approximation",
  "For any model, parameters and data given as tuple, dictionary, or iterable of batches (re-iterable loaders in tuple or dictionary format), the one-call fit returns a curvature estimate equal to the Gauss-Newton matrix of all data times total samples / curvature samples in the chosen representation, and a posterior function equal to the Gaussian posterior of that curvature. The result does not depend on data form, batch split, jit option or on naming options by string or by enum member; malformed batches are rejected with a value error.",
  ["inputs", "configurations"], "all models, data forms and splits, losses, curvature types, sample counts and option spellings",
  "The high-level interface has no tests at all; combinations of data form, curvature type and scaling are too many to enumerate by hand.",
  ["laplax/api.py"],
  [("fit", "laplax/api.py:laplace"), ("GGN setup", "laplax/api.py:GGN"), ("batch handling", "laplax/api.py:_maybe_wrap_loader_or_batch / _validate_and_get_transform")],
  "curvature estimate and posterior function returned by laplace(...), product returned by GGN(...)")

p("P19", "Calibration optimises the objective it names",
  "For every supported combination of objective (negative log-likelihood, chi-squared, marginal log-likelihood, calibration error), curvature type, pushforward and predictive, the calibration call returns the grid's prior precision that minimises that objective computed independently on the given data, together with a predictive constructor that uses the requested pushforward. Unsupported combinations are rejected with a value error, and string and enum spellings behave the same.",
  ["inputs", "configurations"], "all models, data, objectives, predictive/pushforward types, grids and option spellings",
  "The high-level interface has no tests; picking the wrong objective, sign or data still returns a plausible prior precision.",
  ["laplax/api.py", "laplax/eval/calibrate.py"],
  [("objective construction", "laplax/api.py:_build_calibration_objective"), ("driver", "laplax/api.py:calibration"), ("pushforward selection", "laplax/api.py:_setup_pushforward")],
  "prior arguments and predictive constructor returned by calibration(...)")

p("P20", "Evaluation reports the metrics of the requested predictive on all data",
  "For every supported predictive, pushforward and metric specification, the evaluation call returns for each metric the values obtained by applying that metric to the predictive of every data point, in order and including the first batch of one-shot iterators, equal for data given as tuple, dictionary or loader. The default regression metrics are RMSE, chi-squared, NLL and CRPS and the default classification metrics include confidences and correctness of MAP and predictive; repeated calls are independent of one another.",
  ["inputs", "configurations", "histories"], "all models, data forms, predictive/pushforward types, metric specifications and sequences of calls",
  "The high-level interface has no tests; lost batches, mixed-up predictives or leaked state give plausible numbers.",
  ["laplax/api.py", "laplax/eval/utils.py"],
  [("driver", "laplax/api.py:evaluation"), ("metric resolution", "laplax/api.py:_resolve_metrics"), ("pushforward selection", "laplax/api.py:_setup_pushforward")],
  "results dictionary and predictive returned by evaluation(...)")

p("P21", "Registered methods are used everywhere and leave built-ins intact",
  "After any history of registrations, a registered curvature method is used by estimation, posterior, covariance, scale and marginal likelihood exactly as registered, with unspecified parts taken from its named default, and every other method (built-in or registered) behaves as before. An incomplete registration without a default is rejected with a value error and changes nothing; a registered calibration method is called with the objective and data and its result returned.",
  ["histories", "configurations"], "all histories of registrations (complete, partial with default, incomplete, overwriting, chained defaults) interleaved with uses",
  "The tests register one fixed method; interference and inheritance depend on the order of registrations and uses.",
  ["laplax/register.py", "laplax/curv/cov.py", "laplax/eval/likelihood.py", "laplax/api.py"],
  [("registration", "laplax/register.py:register_curvature_method / register_calibration_method"), ("dispatch tables", "laplax/curv/cov.py:CURVATURE_*"), ("mll table", "laplax/eval/likelihood.py:CURVATURE_MARGINAL_LOG_LIKELIHOOD")],
  "behaviour of create_posterior_fn, estimate_curvature, set_posterior_fn, marginal_log_likelihood, calibration under the registered name", "module-level dispatch dictionaries")

p("P22", "Posterior GP kernel equals J(x1) C J(x2)^T",
  "For any model, posterior and pair of inputs, the kernel of the linearised posterior process maps a vector v to J(x1) C J(x2)^T v with C the posterior covariance, and the dense form returns the same matrix. Swapping the inputs transposes the kernel, the kernel at equal inputs is the linearised predictive covariance, Gram matrices are positive semi-definite, and asking for a dense kernel without an output layout is an error.",
  ["inputs", "configurations"], "all models, input pairs, curvature types, prior arguments, loss scalings and dense/product forms",
  "No test evaluates the kernel on different inputs, where swapped Jacobians or transposition show.",
  ["laplax/eval/pushforward.py"],
  [("kernel", "laplax/eval/pushforward.py:set_posterior_gp_kernel")],
  "values of the kernel function returned by set_posterior_gp_kernel")

p("P23", "Performance options never change results",
  "Batch-size options for weights, data, diagonals and dense matrices, precomputation, jit options of products and objectives, and just-in-time compilation of the calling code only affect speed and memory: for every input the results are equal up to rounding with and without them. This includes batch sizes that do not divide the number of items and batch sizes larger than it.",
  ["inputs", "configurations"], "all inputs and all combinations of batch-size, precompute and jit options",
  "Tests run with default options only; remainder handling depends on the relation between batch size and item count.",
  ["laplax/eval/pushforward.py", "laplax/eval/utils.py", "laplax/util/mv.py", "laplax/util/ops.py", "laplax/curv/lanczos.py", "laplax/curv/lobpcg.py", "laplax/api.py"],
  [("precompute", "laplax/util/ops.py:precompute_list"), ("batched maps", "laplax/util/mv.py, laplax/eval/pushforward.py, laplax/eval/utils.py"), ("mv_jit", "laplax/curv/lanczos.py, laplax/curv/lobpcg.py")],
  "results of the same public call under different option settings")

p("P24", "Function pipelines pass results exactly as composed",
  "For any list of pipeline functions, applying them in order threads the results and auxiliary entries through every step; applied functions receive exactly the mapped entries (results taking precedence over auxiliary ones) and store their value under the given name in the given place, and transferred entries are copied under the requested names. Missing keys, non-callables, wrong name counts and unknown fields are rejected with an error, and functions appended to a pipeline do not change the entries computed before them.",
  ["histories", "configurations"], "all sequences of apply/transfer steps, name mappings, fields and missing keys",
  "Tests use single-step pipelines; precedence, overwriting and ordering appear only in longer compositions.",
  ["laplax/eval/utils.py"],
  [("pipeline", "laplax/eval/utils.py:finalize_fns"), ("apply", "laplax/eval/utils.py:apply_fns"), ("transfer", "laplax/eval/utils.py:transfer_entry")],
  "results dictionary after running the pipeline")

p("P25", "Results can be differentiated and mapped over prior arguments and inputs",
  "Covariance and scale products, predictive statistics, posterior kernels, marginal likelihoods, calibration objectives and metrics are functions of the prior precision, noise variance, loss scaling factor and input whose forward- and reverse-mode derivatives are finite and equal the derivatives of their values, plain or compiled. Mapping them over several prior precisions gives the values of the single calls. So priors can be tuned by gradient descent on any of these quantities, as the documentation promises.",
  ["inputs", "configurations"], "all models, posteriors, prior arguments, inputs, statistics, objectives and differentiation modes away from kinks",
  "The tests never differentiate; stopped gradients, NaN derivatives of masked branches and conversions to host numbers leave every value correct.",
  ["laplax/curv/cov.py", "laplax/curv/full.py", "laplax/curv/diagonal.py", "laplax/curv/low_rank.py", "laplax/eval/pushforward.py", "laplax/eval/likelihood.py", "laplax/eval/metrics.py", "laplax/eval/predictives.py", "laplax/eval/calibrate.py"],
  [("posterior", "laplax/curv/cov.py:set_posterior_fn"), ("predictives", "laplax/eval/pushforward.py:set_lin_pushforward / set_nonlin_pushforward / set_posterior_gp_kernel"), ("objectives", "laplax/eval/likelihood.py:marginal_log_likelihood, laplax/eval/calibrate.py:evaluate_for_given_prior_arguments"), ("metrics", "laplax/eval/metrics.py")],
  "values of jax.grad, jax.jacfwd, jax.jacrev and jax.vmap of the public calls")

p("P26", "The result of a call depends only on its arguments",
  "In any history of calls for several models of the same shapes, with arrays, buffers and dictionaries reused and refilled by the caller, model functions shared, recreated or garbage collected, every product, estimate, posterior, predictive, kernel, evidence, evaluation and calibration equals the mathematical result for its own arguments. Posteriors, operators and predictives obtained earlier keep giving their own results after any later call.",
  ["histories", "inputs"], "all histories of public calls over several workspaces, with reuse of buffers, dictionaries, functions and earlier results",
  "Every test makes its calls once in a fresh process; results remembered under a wrong identity (object id, shape, name) appear only in histories over several models.",
  ["laplax/api.py", "laplax/curv/cov.py", "laplax/curv/ggn.py", "laplax/curv/hessian.py", "laplax/eval/pushforward.py", "laplax/eval/likelihood.py", "laplax/eval/utils.py", "laplax/util/mv.py", "laplax/util/loader.py", "laplax/util/flatten.py"],
  [("fits", "laplax/api.py:laplace / calibration / evaluation / GGN"), ("posteriors", "laplax/curv/cov.py:set_posterior_fn / create_posterior_fn"), ("predictives", "laplax/eval/pushforward.py:set_prob_predictive"), ("products", "laplax/curv/ggn.py, laplax/curv/hessian.py, laplax/util/mv.py, laplax/util/loader.py")],
  "result of every call in a history, right after it and again at the end", "caches, module-level tables, objects captured by returned functions")

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
