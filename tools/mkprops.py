"""Writes properties.jsonl (kept as a script so that the one-line JSON stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
L = "src/pyuoi/linear_model/"
D = "src/pyuoi/decomposition/"
prop("P01", "Stability selection maps to exact bootstrap-count thresholds",
 "A stability_selection given as a proportion p (float, or list/array of floats) yields the threshold floor(p*n_boots) for each entry, and one given as a count (int, or list/array of ints) yields that count unchanged, in order and one threshold per entry. Whenever any resulting threshold lies outside 1..n_boots, or the argument is of any other kind, a ValueError is raised and no threshold is returned. The linear-model and the decomposition classes use the same rule.",
 ["inputs", "configurations"], "for all n_boots >= 1 and all floats, ints, lists and arrays of either kind, of any length, in range or not",
 "The tests try a dozen literal values; they cannot cover every proportion, every list length and both sides of every bound.",
 [L+"utils.py", D+"utils.py"], [("stability_selection_to_threshold", L+"utils.py"), ("stability_selection_to_threshold", D+"utils.py")],
 ["return value / ValueError", "UoI estimators' selection_thresholds_"])
prop("P02", "Candidate supports are exactly the distinct thresholded intersections",
 "For coefficients of shape (bootstraps, regularisations, features), the set of supports is exactly { S(t,r) : t a threshold, r a regularisation }, where feature f is in S(t,r) if and only if its coefficient is nonzero in at least t of the bootstraps at r (all bootstraps when no thresholds are given). The result is always a 2-d boolean array with one row per distinct support and one column per feature. When several outputs share a support, a feature belongs to the shared support if and only if it is in the support of at least one output, and duplicate shared supports are removed.",
 ["inputs"], "for all coefficient arrays of any shape (including a single regularisation, threshold or feature) and all thresholds",
 "Tests check three small hand-made coefficient arrays; degenerate shapes, multi-threshold mixes and multi-output sharing are not enumerable.",
 [L+"utils.py", L+"base.py"], [("intersection", L+"utils.py"), ("AbstractUoIGeneralizedLinearRegressor.intersect", L+"base.py"), ("AbstractUoILinearRegressor.intersect", L+"base.py")],
 ["supports_"])
prop("P03", "Final coefficients are the median of each bootstrap's best support",
 "In every fit, the estimate for (bootstrap b, support s) is zero outside s and equals the estimator fitted on bootstrap b's training rows restricted to s inside it, and scores_[b, s] is the score of that same estimate (for an empty support, of the intercept-only model). For every bootstrap the support chosen is one whose score is maximal, and the final coefficients are the coordinate-wise median over bootstraps of the chosen estimates, before units are restored. In particular a feature is nonzero in the result only if it is nonzero in at least half of the chosen estimates.",
 ["inputs", "configurations"], "for all data, all numbers of bootstraps/supports/outputs, all base estimators and scores",
 "End-to-end tests look at final accuracy on a few datasets; a wrong pairing of bootstraps, supports, estimates or scores changes the result without failing a tolerance.",
 [L+"base.py"], [("AbstractUoILinearModel.fit (estimation module)", L+"base.py"), ("AbstractUoILinearModel.uoi_selection_sweep", L+"base.py")],
 ["estimates_", "scores_", "rp_max_idx_", "coef_"])
prop("P04", "Selection and estimation use only the resample's own rows",
 "In every selection bootstrap, base models are fitted on exactly the training rows of that bootstrap's own resample and nothing else, for all regularisation parameters, and never warm-start from another bootstrap's coefficients; in every estimation bootstrap the base model is fitted on exactly that bootstrap's training rows. A test-targeted score is computed on exactly the held-out rows of the same resample, and a train-targeted score on exactly its training rows. Resample sizes follow selection_frac and estimation_frac respectively, and stratify is honoured in both.",
 ["inputs", "configurations", "histories"], "for all data, resampling draws, numbers of bootstraps, scoring metrics and targets",
 "Leakage between training and held-out rows silently improves scores: no finite accuracy test fails when it happens.",
 [L+"base.py", L+"poisson.py"], [("AbstractUoILinearModel.fit", L+"base.py"), ("_score_predictions", L+"base.py"), ("UoI_Poisson._score_predictions", L+"poisson.py")],
 ["arguments of the base estimators' fit and predict"])
prop("P05", "A distributed fit computes the same result as a serial fit",
 "Given the same resamples, a fit over any number of MPI ranks produces on every rank the same supports, estimates, scores, chosen supports, coefficients and intercept as the one-process fit. Every (bootstrap, regularisation) and (bootstrap, support) task is carried out by exactly one rank, for every relation between the number of ranks and the number of tasks. Only rank 0 draws resamples, and every rank uses the ones rank 0 drew.",
 ["configurations", "schedules"], "for all communicator sizes and ranks, all numbers of bootstraps, regularisation parameters and supports",
 "MPI is tested at one or two fixed sizes (and single-process by default); the partition has to be right for every size/bootstrap/parameter combination, including more ranks than tasks.",
 [L+"base.py", "src/pyuoi/mpi_utils.py"], [("AbstractUoILinearModel.fit (task partition, gather, broadcast)", L+"base.py")],
 ["supports_, estimates_, scores_, rp_max_idx_, coef_, intercept_ on every rank"])
prop("P06", "MPI helpers move arrays exactly, for any root, dtype and row count",
 "Broadcasting from a root gives every rank an array equal in shape, dtype and content to the root's, whichever rank is root and whatever the other ranks pass (dtypes: single and double floats, C int and long). Gathering rows gives the root the concatenation, in rank order, of all ranks' arrays along the first axis and None elsewhere, for any root, any per-rank row counts (including zero) and any trailing dimensions. Non-array arguments are rejected with ValueError, and data loaded from a file by the root arrive identically on every rank.",
 ["inputs", "configurations", "schedules"], "for all communicator sizes, roots, supported dtypes, shapes and per-rank row counts",
 "The tests run with root 0 and the world size they happen to get.",
 ["src/pyuoi/mpi_utils.py"], [("Bcast_from_root", "src/pyuoi/mpi_utils.py"), ("Gatherv_rows", "src/pyuoi/mpi_utils.py"), ("load_data_MPI", "src/pyuoi/mpi_utils.py"), ("check_valid_ndarray", "src/pyuoi/mpi_utils.py")],
 ["return value on every rank"])
prop("P07", "Standardised fits report the same model in the user's units",
 "For every estimator that standardises internally, the linear predictor given by the reported coefficients and intercept on raw inputs equals, for every input row, the linear predictor of the internally fitted model on the standardised inputs, mapped back to the response's units. This holds with and without an intercept, for one or several outputs and any number of features, and a coefficient is zero after the mapping exactly when it was zero before. The number of coefficients reported equals the number of features (times outputs).",
 ["inputs", "configurations"], "for all X, y, coefficients, scales, means and option combinations",
 "Tests compare scores or a few coefficients with loose tolerances; a wrong intercept correction is invisible to accuracy or correlation based assertions.",
 [L+"base.py", L+"poisson.py", L+"logistic.py"], [("_pre_fit/_post_fit", L+"base.py"), ("Poisson._post_fit, UoI_Poisson._post_fit", L+"poisson.py"), ("MaskedCoefLogisticRegression._post_fit", L+"logistic.py")],
 ["coef_, intercept_, predict, decision_function, predict_mean"])
prop("P08", "Objective functions and their gradients agree exactly",
 "The value handed to the optimisers is, for every input, the weighted mean negative log-likelihood of the model (binary logistic, multinomial logistic, Poisson) plus half the L2 penalty times the squared norm of the non-intercept coefficients. The gradient handed with it is exactly the derivative of that value with respect to every free coefficient and intercept, and zero for masked-out coefficients. The same holds of the one used to refit an intercept with fixed coefficients.",
 ["inputs"], "for all X, y, coefficient vectors, sample weights, masks, penalties and class counts, with and without intercept",
 "Tests check finite differences at a handful of random points, unit weights and one shape.",
 [L+"logistic.py", L+"poisson.py"], [("_logistic_loss_and_grad, _multinomial_loss, _multinomial_loss_grad, _intercept_dot", L+"logistic.py"), ("fit_intercept_fixed_coef.f_df", L+"logistic.py"), ("_poisson_loss_and_grad", L+"poisson.py")],
 ["(loss, gradient) pair passed to the optimiser"])
prop("P09", "Masked coefficients are exactly zero and intercepts are never masked",
 "When a coefficient mask is given to the masked logistic regression, every masked-out coefficient of the result is exactly zero and the free coefficients together with every intercept are optimised over the unrestricted remaining space. The mask applies to the coefficients with the same (class, feature) layout that coef_ has, with or without an intercept, for binary and multinomial problems and for both penalties. The caller's mask is not modified.",
 ["inputs", "configurations"], "for all masks (including all-False), data, penalties, class counts, intercept options and warm starts",
 "Tests use a few fixed masks and check only zeros; a transposed or shifted mask layout with symmetric masks passes.",
 [L+"logistic.py"], [("MaskedCoefLogisticRegression.fit", L+"logistic.py"), ("_logistic_regression_path", L+"logistic.py")],
 ["coef_, intercept_"])
prop("P10", "Information criteria and model scores follow their definitions",
 "AIC is 2k-2l, BIC is k ln n - 2l, and AICc is AIC + 2k(k+1)/(n-k-1) when n > k+1 and AIC otherwise; the Gaussian log-likelihood is -(n/2)(1 + ln(RSS/n)) and the Poisson one the mean of y ln(mu) - mu. Every estimation score is oriented so that larger is better (criteria negated), counts as parameters exactly the selected features (plus the Poisson intercept when present) and uses the total log-likelihood of exactly the rows scored. softmax and sigmoid return the normalised exponential and the logistic function, also for large arguments.",
 ["inputs", "configurations"], "for all numbers of features and samples, responses, predictions, supports and metrics",
 "Tests evaluate one or two numeric examples; sign, scaling by n and parameter counts interact over every metric/estimator pair.",
 ["src/pyuoi/utils.py", L+"base.py", L+"poisson.py"], [("BIC, AIC, AICc, log_likelihood_glm, softmax, sigmoid", "src/pyuoi/utils.py"), ("_score_predictions", L+"base.py and "+L+"poisson.py")],
 ["scores_"])
prop("P11", "Intercepts are the maximum-likelihood ones",
 "An intercept-only model predicts, for every input, the maximum-likelihood constant: the mean for the Gaussian model, log of the mean rate for Poisson (minus infinity for all-zero counts), the log-odds of the class frequency for binary and the log class frequencies (up to a common shift, unseen classes getting negligible but finite mass) for multinomial responses. The intercept refitted after coefficient aggregation is a stationary point of the same likelihood with the coefficients held fixed. With fit_intercept=False every reported intercept is zero.",
 ["inputs", "configurations"], "for all responses (including constant, all-zero and missing-class ones), coefficients and output counts",
 "Closed forms are compared on a handful of vectors; degenerate responses appear only under unlucky resamples.",
 [L+"base.py", L+"logistic.py", L+"poisson.py"], [("LinearInterceptFitterNoFeatures, AbstractUoILinearRegressor._fit_intercept", L+"base.py"), ("LogisticInterceptFitterNoFeatures, fit_intercept_fixed_coef", L+"logistic.py"), ("PoissonInterceptFitterNoFeatures, UoI_Poisson._fit_intercept", L+"poisson.py")],
 ["intercept_, predict, predict_proba, predict_mean"])
prop("P12", "Each Poisson coordinate-descent step minimises its penalised quadratic",
 "Every coordinate update of the coordinate-descent Poisson solver returns the exact minimiser, in that coordinate, of the weighted quadratic approximation of the log-likelihood plus the elastic-net penalty, all other coordinates fixed at their current values; the quadratic approximation is the second-order expansion at the current coefficients. Coordinates outside the active set are untouched and the intercept update is the weighted mean residual (zero without intercept). Soft thresholding is sign(x)*max(|x|-t, 0), and a warm start resumes from the previous coefficients with a one-dimensional set of active coordinates that can still become nonzero.",
 ["inputs", "histories"], "for all X, weights, responses, coefficients, penalties and active sets",
 "Tests check convergence to similar coefficients on one dataset; per-step optimality needs a universally quantified argument.",
 [L+"poisson.py"], [("Poisson._cd, _cd_sweep, soft_threshold, adjusted_response", L+"poisson.py")],
 ["coef_, intercept_"])
prop("P13", "The regularisation path covers the whole range from empty to dense",
 "Every sweep contains exactly the documented number of regularisation strengths (per l1 ratio), one parameter set per (l1 ratio, strength) pair, ordered from strongest to weakest on a logarithmic grid spanning the factor eps. The strongest one is computed on the data of the fit as the smallest strength for which no feature is selected: the largest absolute gradient, over the coefficients only, of the unpenalised loss at the intercept-only model, in the solver's own scaling. Each base model fitted in a sweep receives exactly the parameter set it is reported for.",
 ["inputs", "configurations"], "for all X, y, numbers of strengths, l1 ratios, eps and model families",
 "Tests compare path lengths and one or two values; the maximality of the first strength is a statement about all data.",
 [L+"lasso.py", L+"elasticnet.py", L+"poisson.py", L+"logistic.py", L+"base.py"], [("get_reg_params", "all estimator modules"), ("uoi_selection_sweep", L+"base.py and "+L+"lasso.py")],
 ["reg_params_", "parameters of the base estimator"])
prop("P14", "CUR selects columns by leverage and returns actual columns of X",
 "Column selection keeps column j independently with probability min(1, c times its rank-k leverage score (sum of squared right-singular-vector entries over k)), one draw per column from the caller's random state, returning distinct column indices (ascending, or ordered by leverage when asked). The UoI decomposition keeps exactly the columns that, for at least one rank, were selected in at least the threshold number of bootstraps, each rank using its own leading right singular vectors and its own column budget. Its components and its transform of any matrix are exactly those columns, in ascending order.",
 ["inputs", "configurations", "histories"], "for all matrices, ranks, budgets, bootstraps, thresholds and random draws",
 "Selection is random and tests check shapes or one seed; the inclusion rule must hold for every draw.",
 [D+"CUR.py", D+"utils.py"], [("column_select", D+"utils.py"), ("UoI_CUR.fit, check_ks_and_cs, transform; CUR.fit, transform", D+"CUR.py")],
 ["column_indices_, components_, transform"])
prop("P15", "NMF bases come from consensus clusters; transforms are row-wise fits",
 "The UoI NMF factorises, for every bootstrap and rank, exactly the rows of that bootstrap's resample; the rank kept is one with minimal mean pairwise dissimilarity over bootstraps (dissimilarity being one minus the average best cosine match in both directions), or all ranks when that is switched off. Each component is the unit-normalised consensus of exactly the unit-normalised nonzero bases of one cluster, noise excluded. transform solves the non-negative regression for every row independently in floating point, inverse_transform is the matrix product with the components, and the reported reconstruction error is the Frobenius norm of their difference.",
 ["inputs", "configurations"], "for all non-negative matrices, ranks, cluster assignments and consensus functions",
 "Tests check shapes and one clean synthetic case; pairing of bases, labels and normalisation must hold for all data.",
 [D+"NMF.py", D+"utils.py"], [("UoI_NMF_Base.fit, transform, inverse_transform", D+"NMF.py"), ("dissimilarity", D+"utils.py")],
 ["components_, dissimilarity_, reconstruction_err_, transform"])
prop("P16", "A seed makes every fit and every generated dataset reproducible",
 "With an integer seed (Python or NumPy integer) or an equally seeded generator, two identical runs of any estimator, decomposition or dataset generator in one process draw identical random numbers and give identical results, whatever the state of the global generator, and leave that global state untouched. No random draw is taken from an unseeded source. Successive resamples within one fit are drawn from one advancing stream, not from copies of the same seed.",
 ["inputs", "histories", "configurations"], "for all seeds, data, options and prior states of the global random generator",
 "Tests repeat a seed once or twice for some classes; an unseeded draw is invisible unless results happen to differ.",
 [L+"base.py", D+"CUR.py", D+"NMF.py", D+"utils.py", "src/pyuoi/datasets/__init__.py"], [("random_state handling", L+"base.py"), ("column_select", D+"utils.py"), ("UoI_CUR.fit, CUR.fit", D+"CUR.py"), ("UoI_NMF_Base.__initialize, fit", D+"NMF.py"), ("make_linear_regression, make_poisson_regression, make_classification", "src/pyuoi/datasets/__init__.py")],
 ["coef_, supports_, column_indices_, components_, generated data"])
prop("P17", "A refit forgets everything learned from earlier data",
 "Fitting an estimator object that was fitted before, on data of any (possibly different) shape, scale or class set, uses regularisation strengths, starting points, supports and scalers computed from the new data only. The result is the one a fresh object with the same parameters and random stream would produce.",
 ["histories", "inputs"], "for all pairs of datasets and all estimator configurations, warm start included",
 "Every test fits each object once.",
 [L+"elasticnet.py", L+"poisson.py", L+"logistic.py", L+"base.py"], [("get_reg_params caches (lambdas, Cs)", L+"elasticnet.py, poisson.py, logistic.py"), ("warm-start reset in fit", L+"base.py")],
 ["reg_params_, coef_, intercept_ after the second fit"])
prop("P18", "fmin_lbfgs optimises what it is given and reports the outcome faithfully",
 "fmin_lbfgs passes every option to the optimiser under its documented meaning, evaluates the user's objective with exactly the user's extra arguments and current point, never modifies the starting point, and returns an array of its shape. Successful termination (converged, stopped by the delta test, or stopped at a minimum) returns the final point; hitting an iteration limit warns and returns it; an all-zero stop and every error status raise the documented exception with the library's status. Orthantwise minimisation always uses a line search valid for it, and inconsistent options are rejected rather than altered silently.",
 ["inputs", "configurations", "fault_sequences"], "for all objectives, starting points, option values, progress callbacks and library status codes",
 "Tests minimise two or three functions; each status code, callback outcome and option combination needs its own run.",
 ["src/pyuoi/lbfgs/__init__.py", "src/pyuoi/lbfgs/_lowlevel.pyx"], [("fmin_lbfgs", "src/pyuoi/lbfgs/__init__.py"), ("LBFGS.minimize, call_eval, call_progress, _ERROR_MESSAGES", "src/pyuoi/lbfgs/_lowlevel.pyx")],
 ["return value, exceptions, warnings, x0"])
prop("P19", "OWL-QN uses the minimum-norm subgradient and stays in its orthant",
 "In the orthant-wise optimiser the penalty is c times the sum of absolute values over exactly the index range [start, end) and no other coordinate; the pseudo-gradient it follows is the minimum-norm subgradient of loss plus that penalty, equal to the plain gradient outside the range. After every projected step each coordinate in the range has the sign of its orthant or is exactly zero, and coordinates outside are untouched. The vector kernels (dot products, scaled additions, norms) compute their mathematical definition over all n elements.",
 ["inputs"], "for all n, start <= end <= n, points, gradients and penalty weights",
 "Only a few end-to-end minimisations exercise the C code; an off-by-one in the penalised range or a wrong branch at zero changes solutions slightly.",
 ["liblbfgs/lbfgs.c", "liblbfgs/arithmetic_ansi.h"], [("owlqn_x1norm, owlqn_pseudo_gradient, owlqn_project", "liblbfgs/lbfgs.c"), ("vec* kernels", "liblbfgs/arithmetic_ansi.h")],
 ["points visited and returned by fmin_lbfgs with orthantwise_c > 0"])
prop("P20", "Synthetic datasets follow the model they report",
 "Generated responses follow the announced model for the returned X, coefficients and intercept: y = X beta + intercept + noise of the requested scale, Poisson counts with mean exp(X beta + intercept), and class labels drawn with the softmax (or logistic) probabilities, all with the requested numbers of samples, features, informative features and classes. Exactly the requested number of features has nonzero coefficients (shared across classes when asked), within the requested bounds. With zero noise the linear response equals X beta + intercept exactly.",
 ["inputs", "configurations"], "for all sizes, signal-to-noise ratios, distributions, seeds and option combinations",
 "Tests check shapes and one statistical summary.",
 ["src/pyuoi/datasets/__init__.py"], [("make_linear_regression, make_poisson_regression, make_classification", "src/pyuoi/datasets/__init__.py")],
 ["returned tuple"])
prop("P21", "Poisson predictions are the mean and mode of the fitted model",
 "predict_mean returns exp(intercept + X beta) and predict its integer part (the mode), one value per row of X, for every fitted Poisson model and configuration, including fits without intercept, with constant or all-zero responses and with no selected feature. Predicting before fitting raises NotFittedError.",
 ["inputs", "configurations", "histories"], "for all X, fitted coefficients and options",
 "Tests predict from one configuration with an intercept.",
 [L+"poisson.py"], [("Poisson.fit, predict, predict_mean", L+"poisson.py"), ("PoissonInterceptFitterNoFeatures", L+"poisson.py"), ("UoI_Poisson._fit_intercept", L+"poisson.py")],
 ["predict, predict_mean"])
prop("P22", "Fitting, predicting and transforming never modify the caller's data",
 "No public fit, predict, transform, gather, broadcast or minimise call changes the contents of the X, y, masks, weights, starting points or option arrays passed by the caller, whatever their dtype, memory order or contiguity. Fitted attributes never alias the caller's arrays.",
 ["inputs", "configurations"], "for all data layouts, dtypes and option combinations",
 "No test compares inputs before and after for every entry point and layout.",
 [L+"base.py", L+"logistic.py", L+"poisson.py", D+"CUR.py", D+"NMF.py", "src/pyuoi/lbfgs/_lowlevel.pyx"], [("_pre_fit", L+"base.py"), ("in-place updates w *= mask, coef_ /= scale", L+"logistic.py, poisson.py"), ("LBFGS.minimize", "src/pyuoi/lbfgs/_lowlevel.pyx")],
 ["the caller's arrays after the call"])
prop("P23", "Classifiers are equivariant under relabelling of the classes",
 "Fitting a classifier on labels mapped through any order-preserving relabelling gives the same coefficients, intercepts and scores, and predict returns the original labels, for every label set and every scoring metric. Labels need not be 0..k-1, and class k of every per-class quantity refers to the k-th smallest label.",
 ["inputs", "configurations"], "for all label sets of two or more classes, metrics and multi-class modes",
 "Tests only use labels 0..k-1 (or 0/1).",
 [L+"base.py", L+"logistic.py"], [("UoI_L1Logistic._pre_fit", L+"logistic.py"), ("MaskedCoefLogisticRegression._pre_fit/fit", L+"logistic.py"), ("_score_predictions", L+"base.py")],
 ["coef_, intercept_, classes_, predict, scores_"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
