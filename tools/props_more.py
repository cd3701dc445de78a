prop("C08", "Response families implement their stated distributions",
     "For every response family (Gaussian, Gamma, inverse Gaussian, Binomial, Poisson, scaled t; normal, Gamma and multinomial location-scale) the log-probability and log-likelihood are those of the stated distribution, the deviance is twice the scaled gap to the saturated log-likelihood, and variance functions, parameter derivatives, distribution functions, standardised residuals and class probabilities agree with it, for regular, extreme and boundary responses. Random draws follow the distribution.",
     "all responses, means, scales, sizes and parameters in the families' domains", UNT,
     [PY + "exp_fam.py"], [("densities and deviances", PY + "exp_fam.py:Family"), ("location-scale families", PY + "exp_fam.py:GAMLSSFamily")],
     "runtime oracle: recorded family values against independent closed forms; goodness of fit for draws",
     "second derivatives of the normal and Gamma location-scale families are their expectations; draws judged statistically")
prop("C09", "Link functions and family scores are consistent derivatives",
     "Every link function is inverted by its inverse, stays in the domain of the mean for any finite linear predictor, and its reported first and second derivatives are the derivatives of the link. For each response family and link, the reported score in the coefficients and the score and curvature in the log scale are the derivatives of the reported log-likelihood.",
     "all finite linear predictors, means, designs, coefficients and scales", UNT,
     [PY + "exp_fam.py"], [("links", PY + "exp_fam.py:Link"), ("scores", PY + "exp_fam.py:Family.dllkdcoef")],
     "runtime oracle: recorded link values against closed forms, scores against difference quotients of the log-likelihood",
     "log-scale derivatives are numerical in the library, compared at 1e-3")
prop("C10", "Sparse factorisations and solves satisfy their defining equations",
     "Every sparse or dense factorisation and solver used for model fitting (pivoted and unpivoted Cholesky, QR with rank detection, penalised least-squares solves via Cholesky or QR, triangular solves, inverse factors, trace terms of penalties, linear-dependency detection, condition estimates) returns matrices, permutations, solutions and ranks that satisfy their defining equations, and reports failure for matrices that are not positive definite. Parallel shared-memory variants return the same as the sequential ones.",
     "all matrices, penalties, dropped columns, repeat counts and core counts", UNT,
     [PY + "matrix_solvers.py", CPP + "eigen_solvers.cpp"], [("native solvers", CPP + "eigen_solvers.cpp"), ("trace terms", PY + "matrix_solvers.py:compute_B"), ("inverse factors", PY + "matrix_solvers.py:compute_Linv")],
     "runtime oracle: recorded factors and solutions against their defining equations",
     "held on every generated matrix; problems too ill-conditioned to judge are skipped")
prop("C11", "Cholesky updates, quasi-Newton forms and quadratic-form probabilities are exact",
     "The derivative of a Cholesky factor, its rank updates and downdates, and the correction terms built from them equal the exact quantities. The compact and structured quasi-Newton approximations of the Hessian and their implicit penalised inverses equal the matrices obtained by applying the updates one by one (projected to the nearest positive semi-definite matrix where requested). Probabilities of quadratic forms in normal variables are within the requested accuracy of the true distribution function.",
     "all matrices, update pairs and quadratic forms", UNT,
     [CPP + "dchol.cpp", CPP + "davies.cpp", PY + "compact_rep.py"], [("derivatives and updates", CPP + "dchol.cpp"), ("quadratic forms", CPP + "davies.cpp:qf"), ("compact forms", PY + "compact_rep.py")],
     "runtime oracle: recorded results against explicit recursions, dense inverses and numerical inversion of the characteristic function",
     "held on every generated problem; probabilities compared at 1e-4")
prop("C12", "Penalties are the stated quadratic forms of the terms' functions",
     "For every smooth, factor-smooth, random and impulse-response term, each penalty matrix is the stated quadratic form (difference or null-space penalty, identity for random effects, Kronecker sums for tensor terms) of the function the term's coefficients stand for, whatever the identifiability constraint and parametrisation; its root, rank, position among all coefficients and the sharing of smoothing parameters by id agree with it. The total penalty, its generalised inverse and the log-determinants and transformations obtained by re-parameterising equal those of the weighted sum of the penalties.",
     "all formulas, terms, levels, ids, bases and smoothing parameters (moderate values)", UNT,
     [PY + "penalties.py", PY + "terms.py", PY + "formula.py", PY + "repara.py"], [("penalty construction", PY + "penalties.py"), ("collection", PY + "formula.py:build_penalties"), ("reparameterisation", PY + "repara.py:reparam")],
     "runtime oracle: recorded penalties against independently built quadratic forms, spectra and dense log-determinants",
     "smoothing parameters in [1e-2,1e3]; penalties whose rank is not numerically clear are not judged")
prop("C13", "Model matrices contain the stated basis or coding of every term",
     "For every formula the columns of the model matrix that belong to a term are the stated coding of it: treatment-coded linear terms and interactions, indicator and slope columns for random terms, and for smooths a basis of exactly the stated (sum-to-zero or otherwise constrained) B-spline or tensor-product space over the data range, per factor level where by is given, and zero for rows of other levels. Leaving out terms leaves the other columns unchanged, and dropped nested columns lose nothing of the joint span.",
     "all formulas, terms, bases, factor levels and data frames", UNT,
     [PY + "formula.py", PY + "terms.py", PY + "smooths.py"], [("model matrix", PY + "formula.py:build_model_matrix"), ("term columns", PY + "terms.py"), ("bases", PY + "smooths.py:B_spline_basis")],
     "runtime oracle: recorded model matrices against independently evaluated bases and codings (exact columns or column spans)",
     "held on every generated formula; span checks need the raw basis to have full rank on the data")
prop("C15", "Fitted models solve the penalised likelihood equations",
     "A GAMM that reports convergence has coefficients at which the penalised log-likelihood of the stated model (family, link, offset, observations with a response, ar1 residual correlation per series, reported smoothing parameters) is stationary; its stored linear predictor and mean are those of these coefficients plus the offset, coefficients reported as dropped are zero and the others still span the model, and regular problems converge.",
     "all formulas, families, links, missing responses, offsets, ar1 models, solvers and fitting options", UNT,
     [PY + "gamm_solvers.py", "src/mssm/models.py"], [("fitting loop", PY + "gamm_solvers.py:solve_gamm_sparse"), ("fit", "src/mssm/models.py:GAMM.fit")],
     "runtime oracle: penalised score and Newton decrement evaluated independently at every reported fit",
     "held on every generated model; fits that do not report convergence are only counted; ar1 models Gaussian")
prop("C16", "Everything reported about a fitted model is what it is said to be",
     "For every converged GAMM the reported covariance factor, expected and observed Hessian, total and term-wise effective degrees of freedom, scale, penalty, (penalised) log-likelihood, REML score, Pearson, deviance and ar1 residuals, coefficients per term and term-wise contributions equal the stated quantities at the reported coefficients, smoothing parameters and scale, also with offsets, missing and integer responses, dropped coefficients, given scales and ar1 residual models.",
     "all formulas, families, links, offsets, missing responses, ar1 models, solvers and fitting options", UNT,
     [PY + "gamm_solvers.py", PY + "utils.py", "src/mssm/models.py"], [("scale and edf", PY + "gamm_solvers.py:update_scale_edf"), ("REML", PY + "utils.py:REML"), ("getters", "src/mssm/models.py:GAMM")],
     "runtime oracle: every reported quantity of each fit against a dense recomputation",
     "held on every generated model; REML judged where the penalty's generalised determinant is numerically clear")
prop("C18", "Smoothing parameters and scale maximise the restricted likelihood",
     "The smoothing parameters reported by a converged GAMM (one per penalty, shared ones counted once, within their allowed range) cannot be changed to noticeably raise the restricted likelihood of the (working) model, and the scale of an additive model is its restricted maximum likelihood estimate, whatever solver, step control or extension of the smoothing parameter steps is used, with and without ar1 model and offset. Frozen smoothing parameters stay as they are.",
     "all penalised models and fitting options", UNT,
     [PY + "gamm_solvers.py"], [("update", PY + "gamm_solvers.py:correct_lambda_step"), ("gradient and step", PY + "gamm_solvers.py:step_fellner_schall_sparse"), ("acceleration", PY + "gamm_solvers.py:extend_lambda_step")],
     "runtime oracle: dense restricted likelihood evaluated around the smoothing parameters of every fit",
     "gains below 0.06 log-likelihood units are tolerated for single fits, above 0.005 for a tenth of them; non-Gaussian models judged by their working model")
prop("C17", "Equivalent statements of a model give the same fit",
     "Fits that state the same model of the same data agree in fitted values, edf and scale (and coefficients, where these have the same meaning): QR and Cholesky solver; any order of rows; data in memory or in csv files read by any number of processes, in one or several files, with any loading arguments; one or several cores; affine changes of covariates and of a Gaussian response; order-preserving renaming of levels; other columns, column order and index; rows without response; constant offsets; binomial counts or single trials; rho=0; a function of the response or the transformed column.",
     "all formulas, families, data sets and fitting options (files: Gaussian models, complete covariates)", UNT,
     ["src/mssm/models.py", PY + "gamm_solvers.py", PY + "file_loading.py", PY + "formula.py"], [("fitting from files", PY + "gamm_solvers.py:solve_gamm_sparse2"), ("file loading", PY + "file_loading.py"), ("fitting", "src/mssm/models.py:GAMM.fit")],
     "runtime oracle: metamorphic comparison of pairs of recorded fits",
     "fitted values agree within 5% of a standard error; fits that do not report convergence are only counted")
prop("C14", "Predictions, intervals and posterior samples follow from the fitted model",
     "For every fitted GAMM and any new data within the range of the fitted data (any rows, order, columns, sub-set of levels), the prediction is the model matrix of the stated terms for these rows times the coefficients: each row depends on itself only, chosen terms contribute only their own columns, terms add up, and reproduce the fitted values for the fitted data. Credible intervals (point-wise and whole-function) and differences have the width given by the posterior covariance and alpha, posterior samples have its mean and covariance, seeds reproduce, and predicting changes neither model nor data.",
     "all fitted models, new data within range, term selections, alphas and seeds", UNT,
     ["src/mssm/models.py", PY + "utils.py", PY + "formula.py"], [("prediction", "src/mssm/models.py:GSMM.predict"), ("differences", "src/mssm/models.py:GSMM.predict_diff"), ("whole-function intervals", PY + "utils.py:adjust_CI"), ("posterior samples", PY + "utils.py:sample_MVN")],
     "runtime oracle: recorded predictions, intervals and samples against dense recomputation and independent simulation",
     "held on every generated model and data set; samples and whole-function intervals judged statistically")
prop("C07", "General families: likelihoods, derivatives and survival estimates are exact",
     "For the families of general smooth models (proportional hazards with tied and censored times, multivariate normal with any links and shared model matrices, every GAMMLSS and GAMM family wrapped as general family, user families stating only their log-likelihood) the log-likelihood is that of the stated model, gradient and Hessian (as a whole or by chosen columns) are its derivatives for every coefficient, residuals are the stated ones; cumulative baseline hazard, survival (a step function of time) with its standard error, Martingale and deviance residuals are those of the coefficients passed in the call. Multivariate draws follow the model.",
     "all model matrices, coefficients, responses, event times (with ties and censoring), links and families", UNT,
     [PY + "exp_fam.py", PY + "utils.py", "src/mssm/src/cpp/hazard.cpp"], [("proportional hazards", PY + "exp_fam.py:PropHaz"), ("multivariate normal", PY + "exp_fam.py:MultiGauss"), ("wrapped families", PY + "utils.py:GAMLSSGSMMFamily"), ("differencing", PY + "exp_fam.py:GSMMFamily.jhessian")],
     "runtime oracle: every reported quantity against brute-force evaluation and Richardson-extrapolated differences of it",
     "held on every generated problem; derivatives the library obtains by differencing are judged with matching tolerances")
prop("C19", "Multi-parameter and general models solve the penalised likelihood equations",
     "A GAMMLSS or general smooth model that reports convergence has coefficients (of all distribution parameters together) at which the penalised log-likelihood of the stated model is stationary for the reported smoothing parameters, these cannot be changed to noticeably raise the Laplace-approximate restricted likelihood, the stored linear predictors and parameters are those of the coefficients, dropped coefficients are zero while the others still span the model, rows without response do not count, and regular problems converge. All solvers, and the GAMM, GAMMLSS and general statements of the same model, agree.",
     "all families, links, formulas, missing responses, empty levels, solvers and fitting options", UNT,
     [PY + "gamm_solvers.py", "src/mssm/models.py", PY + "exp_fam.py"], [("GAMMLSS fitting", PY + "gamm_solvers.py:solve_gammlss_sparse"), ("general fitting", PY + "gamm_solvers.py:solve_generalSmooth_sparse"), ("rank deficiency", PY + "gamm_solvers.py:identify_drop"), ("coefficient step", PY + "gamm_solvers.py:correct_coef_step_gammlss")],
     "runtime oracle: penalised score, Newton decrement and Laplace REML of the independently coded likelihood at every reported fit; pairwise comparison of equivalent fits",
     "held on every generated model; fits that do not report convergence and t-models without finite degrees of freedom are only counted")
prop("C20", "All that multi-parameter and general models report is what it is said to be",
     "For every converged GAMMLSS or general smooth model the reported Hessian, covariance factor, total and term-wise effective degrees of freedom, penalty, (penalised) log-likelihood, REML score, residuals, coefficients, responses and model matrices (per parameter and term) equal the stated quantities at the reported coefficients and smoothing parameters; predictions, credible intervals, differences and posterior samples of each distribution parameter follow from that parameter's model matrix, coefficients and block of the covariance, for fitted and new data, and leave the model as it was.",
     "all families, formulas, parameters, missing responses, dropped and extra coefficients, solvers, new data within range", UNT,
     ["src/mssm/models.py", PY + "gamm_solvers.py", PY + "utils.py"], [("getters", "src/mssm/models.py:GSMM"), ("prediction", "src/mssm/models.py:GSMM.predict"), ("samples", "src/mssm/models.py:GSMM.sample_post"), ("edf", PY + "gamm_solvers.py:calculate_edf"), ("REML", PY + "utils.py:REML")],
     "runtime oracle: every reported quantity of each fit and parameter against a dense recomputation from independently coded likelihoods",
     "held on every generated model; additive constant of the REML score judged for single-formula models only")
prop("C21", "Significance tests and printed summaries follow from the fitted model",
     "For every fitted model the bias-corrected edf are 2tr(F)-tr(FF) of the reported fit, the p-value and statistic of each smooth (each level where levels are smoothed separately) are those of the stated rank-r test averaged over both eigenvector sign choices, with F or chi-square reference distribution, for any number of observations and also for unpenalised smooths, and the printed summaries list every parametric coefficient with its estimate, test and p-value and every smooth and random term with its own edf and test.",
     "all models, families, terms, edf, fitted once or repeatedly", UNT,
     [PY + "utils.py", "src/mssm/models.py"], [("p-values", PY + "utils.py:approx_smooth_p_values"), ("corrected edf", PY + "utils.py:compute_bias_corrected_edf"), ("parametric terms", PY + "utils.py:print_parametric_terms"), ("smooth terms", PY + "utils.py:print_smooth_terms")],
     "runtime oracle: recorded statistics, p-values and printed lines against an independent implementation with numerical inversion of the reference distribution",
     "p-values compared at 2e-4 + 2%; terms with dropped coefficients or coinciding eigenvalues are not judged")
prop("C22", "Smoothing parameter uncertainty is accounted for as stated",
     "For every converged penalised model the estimated covariance of the log smoothing parameters is the (generalised, and regularised) inverse curvature of the REML score, the derivatives of the coefficients are those of the penalised fit, the corrected covariance is the conditional one plus both first-order terms (Monte Carlo corrections: the expectation over smoothing parameters they state), it is never smaller than the conditional covariance, its factor reproduces it, corrected edf are tr(VH) between the edf and their upper bound, per coefficient and in total; results depend on the seed but not on the number of processes, offsets count, and the fitted model is left as it was.",
     "all families, formulas, offsets, residual models, dropped coefficients, correction strategies, priors, weights, seeds and numbers of processes", UNT,
     [PY + "utils.py"], [("covariance of log smoothing parameters", PY + "utils.py:estimateVp"), ("curvature", PY + "utils.py:compute_Vp_WPS"), ("corrected covariance", PY + "utils.py:correct_VB"), ("candidates", PY + "utils.py:compute_reml_candidate_GAMM")],
     "runtime oracle: dense analytic recomputation, finite differences of an independently coded REML score and independent Monte Carlo samples against every recorded correction",
     "Monte Carlo strategies are judged within their sampling error; values near zero curvature only by bounds")
prop("C23", "Model comparisons report the likelihoods, edf, AIC and test of both models",
     "For any two converged models of one family the comparison reports twice the difference of their unpenalised log-likelihoods, the degrees of freedom of each model (plain, corrected for smoothing parameter uncertainty, or bias-corrected for the test; plus one for an estimated scale, plus estimated family parameters), AIC based on the edf of each model, and - if asked for and possible - the p-value of that statistic under the stated reference distribution with the decision at the given level; exchanging the models exchanges the results, and neither model is changed.",
     "all pairs of fitted models of one family, nested or not, correction and test options", UNT,
     [PY + "compare.py", PY + "utils.py"], [("comparison", PY + "compare.py:compare_CDL"), ("correction", PY + "utils.py:correct_VB")],
     "runtime oracle: each reported comparison against dense recomputation of likelihoods, degrees of freedom and reference distribution; metamorphic exchange of the models",
     "held on every generated pair; corrected degrees of freedom judged where the curvature is clear")
prop("C24", "Posterior sampling targets the stated posterior and keeps faithful books",
     "The No-U-Turn sampler leaves its target distribution invariant (for any smooth log density and step size), adapts its step towards the requested acceptance and returns exactly the states it visited; sampling a fitted model evaluates the joint log density of coefficients (and, if asked for, log smoothing parameters and log scale) of the stated model and priors - with offset, residual model, weights and general families - up to a constant, uses its gradient, and its chains reproduce the posterior moments; results depend on the seed but not on the number of processes, callbacks see the stated values, and convergence diagnostics are those of the chains passed for every coefficient and prediction.",
     "all models, priors, sampled parameter sets, numbers of chains, seeds, numbers of processes, step sizes", UNT,
     [PY + "mcmc.py", "src/mssm/src/cpp/mcmc.cpp"], [("sampling a model", PY + "mcmc.py:sample_mssm"), ("diagnostics", PY + "mcmc.py:check_convergence"), ("native sampler", "src/mssm/src/cpp/mcmc.cpp:advance_chain")],
     "runtime oracle: recorded log densities and gradients against independently coded posteriors, invariance tests of the native sampler and importance-sampling moments of the model's posterior",
     "held on every generated model; invariance and moments judged statistically, chains whose mode was not found are only counted")
prop("C01", "Native code stays inside its memory and never depends on uninitialised memory",
     "Whatever models, data and options are used, the compiled extensions access only elements inside the arrays they were given or allocated (every index within its dimension), execute no undefined behaviour (overflow, invalid shifts, misaligned or null access), keep the invariants of their matrix library, do not end the process, and return results that are a function of their arguments alone, never of the previous content of memory.",
     "all inputs that the Python side passes to the extensions", UNT,
     ["src/mssm/src/cpp/eigen_solvers.cpp", "src/mssm/src/cpp/dchol.cpp", "src/mssm/src/cpp/davies.cpp", "src/mssm/src/cpp/mcmc.cpp", "src/mssm/src/cpp/hazard.cpp", "src/mssm/src/cpp/hsmm/hsmm.cpp", "src/mssm/src/cpp/hsmm/llk.cpp", "src/mssm/src/cpp/hsmm/decode.cpp", "src/mssm/src/cpp/hsmm/resid.cpp"],
     [("solvers", "src/mssm/src/cpp/eigen_solvers.cpp:solve_coef_pqr"), ("Markov models", "src/mssm/src/cpp/hsmm/llk.cpp:llk"), ("decoding", "src/mssm/src/cpp/hsmm/decode.cpp:viterbi"), ("quadratic forms", "src/mssm/src/cpp/davies.cpp:davies"), ("Cholesky derivatives", "src/mssm/src/cpp/dchol.cpp:dChol"), ("sampler", "src/mssm/src/cpp/mcmc.cpp:advance_chain")],
     "AddressSanitizer, UndefinedBehaviorSanitizer, index-checked arrays and library assertions on the workloads of all other checks; every native call repeated under two fill patterns of fresh memory and compared",
     "no report on any workload run; code paths the workloads do not reach are not judged")
prop("C25", "Formulas encode data, series and coefficients as stated",
     "For every formula and data set (in memory or in any split into csv files, any loading options, with missing values, any codebook) the formula reports the levels, codes, types and limits of exactly the variables used, encodes every value under its own code and column, marks exactly the rows with missing values, cuts series where the series id changes, and names and numbers the coefficients so that each name belongs to the column (or block of columns) of the model matrix which that name states, each used once. New data are encoded with the codes of the fitted data; interactions expand to all sub-sets of their variables; series to be clustered are described by the stated statistics. Files, data frames and codebooks passed in are left unchanged.",
     "all formulas, data sets, missing values, codebooks, splits into files, loading options and new data with known levels", UNT,
     [PY + "formula.py", PY + "terms.py", PY + "file_loading.py"], [("formula", PY + "formula.py:Formula"), ("encoding", PY + "formula.py:Formula.encode_data"), ("coefficient names", PY + "terms.py:get_linear_coef_info"), ("interactions", PY + "terms.py:li"), ("levels in files", PY + "file_loading.py:read_unique")],
     "runtime oracle: every recorded piece of meta data and encoded value against the data frame itself; names against the content of the model matrix; files against memory",
     "held on every generated formula and data set")
