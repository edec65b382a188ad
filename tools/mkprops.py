#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the records stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

FAM = ["src/response/linear.rs", "src/response/logistic.rs", "src/response/poisson.rs", "src/response/binomial.rs",
       "src/response/exponential.rs", "src/response/gamma.rs", "src/response/inverse_gaussian.rs"]

prop("C01", "Unregularized and ridge fits are the penalized maximum-likelihood estimate",
 "For every family and link, any data with a unique finite optimum, and any combination of offset, frequency weights, variance weights, intercept and standardization, a fit that returns Ok (which canonical-link fits of well-conditioned data with default options always do) reports coefficients (on the original covariate scale) that maximize the weighted log-likelihood minus the ridge penalty (l2/2)*sum(sigma_j*beta_j)^2, where sigma_j is the covariate's weighted sample standard deviation when standardization is on (1 for a constant covariate) and 1 when it is off. The intercept is never penalized, the reported model likelihood is that objective's value at the reported coefficients, and the log-likelihood uses sum of w*f*(y*eta - A(eta)).",
 ["inputs", "configurations"],
 "all datasets, families, links, ridge strengths, weights, offsets, intercept/standardization choices, both float widths",
 "The tests compare a few dozen hand-picked datasets with R; the claim is for every dataset and every combination of options, and each option is tested almost only alone.",
 ["src/irls.rs", "src/glm.rs", "src/regularization.rs", "src/data.rs", "src/link.rs"] + FAM,
 [("IRLS step and termination", "src/irls.rs"), ("ridge regularizer", "src/regularization.rs"), ("standardization and back-transformation", "src/data.rs")],
 ["Fit::result", "Fit::model_like", "FitConfig::fit"])
prop("C02", "Lasso and elastic-net fits satisfy the L1 optimality conditions",
 "For every family and link and any data, weights, offset, intercept and standardization choice, an L1 or elastic-net fit that returns Ok is, to solver tolerance, a maximizer of the log-likelihood minus l1*sum(sigma_j*|beta_j|) minus the ridge term: each non-zero coefficient balances the data gradient against the penalties and each (numerically) zero coefficient has a data gradient within the l1 bound. The intercept is never penalized, and a vanishing l1 gives the ridge or unregularized fit. A canonical-link fit of well-conditioned data, standardized or of covariates of order one, does return Ok if the iteration limit is large enough (20 000).",
 ["inputs", "configurations"],
 "all datasets, families, links, l1/l2 strengths from negligible to dominating, weights, offsets, intercept/standardization choices",
 "The tests compare a handful of glmnet results; which coefficients are active and which are zero depends on every input value and on the penalty strength.",
 ["src/regularization.rs", "src/irls.rs", "src/data.rs"],
 [("ADMM state and update", "src/regularization.rs"), ("ADMM-aware termination", "src/irls.rs")],
 ["Fit::result", "Fit::model_like"])
prop("C03", "Internal standardization and covariate units never change an unregularized fit",
 "Without regularization, switching standardization off, or replacing any non-constant covariate by a non-degenerate affine function of itself (a pure rescaling when there is no intercept), changes every result only by the corresponding change of coordinates: fitted means, likelihood, deviance, leverage, residuals, test statistics and p-values stay the same and coefficients, scores, information and covariance transform accordingly. With regularization and standardization on, rescaling or (with an intercept) shifting a covariate likewise changes nothing but the coordinates.",
 ["inputs", "configurations"],
 "all datasets, families, weights and offsets, every affine change of every covariate",
 "One test compares standardized and raw results on one logistic dataset; the claim is for every dataset, weight pattern, scale and shift, including no-intercept models.",
 ["src/data.rs", "src/fit.rs"],
 [("Standardizer", "src/data.rs"), ("inverse_transform_* / transform_*", "src/data.rs")],
 ["Fit::*"])
prop("C04", "Frequency weights are equivalent to repeating rows",
 "A model with integer frequency weights gives the same coefficients, likelihoods, deviance, dispersion, covariance, information, test statistics, p-values, degrees of freedom, AIC and BIC as the model in which every row is repeated that many times, and a frequency of zero is the same as leaving the row out. Per-row residuals equal those of each replicate, except that leverage and leave-out quantities refer to the whole group of identical rows.",
 ["inputs", "configurations"],
 "all datasets, all frequency vectors (including zeros and large counts), combined with variance weights, offsets, regularization and every family",
 "Tests compare a few weighted fits against replicated data for one or two families; any statistic may forget or double-apply a weight in some combination.",
 ["src/data.rs", "src/fit.rs", "src/glm.rs"],
 [("apply_freq_weights / freq_sum / n_obs / n_eff / x_conj", "src/data.rs")],
 ["Fit::*"])
prop("C05", "Variance weights act as inverse dispersions and obey their scaling laws",
 "Multiplying all variance weights by a constant c leaves unregularized coefficients, fitted means, leverage and the dispersion (defined per unit of weight) unchanged, multiplies likelihood, deviance, information and test statistics by c, divides covariances by c, and scales Pearson and deviance residuals, raw or standardized, and Wald z statistics by sqrt(c); under regularization the same holds if the penalties are multiplied by c as well. All-ones weights are the same as no weights, and for fixed-dispersion families an integer variance weight gives the same coefficients, likelihood and deviance as repeating the row.",
 ["inputs", "configurations"],
 "all datasets, all positive weight vectors and all scale factors, with frequency weights, offsets and regularization",
 "Tests use two or three weight vectors; a weight used with the wrong power or left out of one statistic only shows for other patterns.",
 ["src/data.rs", "src/fit.rs"],
 [("apply_var_weights / sum_weights / n_eff", "src/data.rs"), ("dispersion", "src/fit.rs")],
 ["Fit::*"])
prop("C06", "Linear offsets are exactly fixed additions to the linear predictor",
 "Adding a constant to every offset shifts the intercept by minus that constant and changes nothing else; moving a known multiple of a covariate into the offset shifts that coefficient (in unregularized models) and leaves the fitted means, likelihood, deviance, residuals, leverage and covariance alone; an all-zero offset is the same as none. The null model, all tests, leave-one-out refits and reduced refits keep the offset, and prediction on the training rows with the training offset returns the fitted means.",
 ["inputs", "configurations"],
 "all datasets, families, offset vectors, weights, with and without intercept and standardization",
 "Offsets are tested on a few datasets per family, mostly with canonical links and without weights.",
 ["src/data.rs", "src/glm.rs", "src/irls.rs", "src/fit.rs"],
 [("linear_predictor_std, init_guess, irls_mat_vec, null_model_fit", "src/glm.rs, src/irls.rs, src/fit.rs")],
 ["Fit::*"])
prop("C07", "Results do not depend on row order, column order, memory layout or number type",
 "Permuting observations (with their weights and offsets) permutes per-row results and changes nothing else; permuting covariates permutes coefficients, scores, information and covariance accordingly. Array memory layout (row-major, column-major, strided or reversed views) and the numeric type used for the response do not change any result, and single precision agrees with double precision to single accuracy.",
 ["inputs", "configurations"],
 "all datasets and all permutations of rows and columns; all layouts and element types; every family",
 "Tests always use one row order, one layout and mostly f64.",
 ["src/model.rs", "src/data.rs", "src/fit.rs", "src/irls.rs"],
 [("to_shape(Order::F) copy of the design", "src/model.rs"), ("Yval conversions", "src/response.rs")],
 ["ModelBuilder::data", "Fit::*"])
prop("C08", "Every kind of residual equals its documented definition",
 "For every family, link, weighting and regularization, response, working, partial, Pearson, deviance and studentized residuals (and the standardized forms) equal their documented formulas in terms of the fitted means, variance function, link derivative, weights, leverage and dispersion, with the sign of y minus the fitted mean, and are finite wherever the formula is. Squared deviance residuals sum (with frequencies) to the deviance, Pearson residuals are orthogonal to the weighted design, and for least squares deviance and Pearson residuals coincide.",
 ["inputs", "configurations"],
 "all datasets, families, links, weights, offsets and regularization strengths",
 "Tests check a few residual types on a few datasets against R; weights, offsets, non-canonical links and no-intercept models are rarely combined.",
 ["src/fit.rs", "src/link.rs"] + FAM,
 [("resid_* functions and deviance_terms", "src/fit.rs")],
 ["Fit::resid_resp", "Fit::resid_work", "Fit::resid_part", "Fit::resid_pear", "Fit::resid_pear_std", "Fit::resid_dev", "Fit::resid_dev_std", "Fit::resid_student"])
prop("C09", "Leverage, influence and leave-one-out results agree with real refits",
 "The hat matrix is the derivative of fitted means with respect to responses, its trace is the parameter count (the effective count under ridge), leverages lie in [0,1] for unregularized and ridge fits of canonical links, and Cook's distances follow from them. The exact leave-one-out coefficients equal those of a fresh fit without that row (for a row with frequency weight, without the whole group) under the same options, and for unregularized least squares the one-step influence coefficients equal the exact difference.",
 ["inputs", "configurations"],
 "all datasets, families, weights, offsets, regularization, each left-out row",
 "Two leave-one-out tests on one dataset each; leverage under regularization, offsets, frequency weights or non-canonical links is hardly covered.",
 ["src/fit.rs", "src/data.rs"],
 [("hat / leverage / infl_coef / loo_exact / cooks", "src/fit.rs")],
 ["Fit::hat", "Fit::leverage", "Fit::cooks", "Fit::infl_coef", "Fit::loo_exact"])
prop("C10", "Score is the objective's gradient and Fisher its expected information, anywhere",
 "At every parameter vector in the model's domain (not only at the optimum) the score equals the gradient of the penalized log-likelihood in the original coordinates, and vanishes at an unregularized or ridge fit; the Fisher matrix equals the expected negative Hessian including the ridge curvature, is symmetric, and does not depend on the solver's internal state or on the L1 penalty. The likelihood-ratio statistic against any parameter vector is twice the difference of penalized log-likelihoods.",
 ["inputs", "configurations"],
 "all datasets, families, links, weights, offsets, penalties, and all parameter vectors in the domain",
 "Tests evaluate the score mostly at the optimum and the information at one or two points.",
 ["src/fit.rs", "src/regularization.rs", "src/link.rs", "src/data.rs"],
 [("score / fisher / lr_test_against", "src/fit.rs"), ("inverse_transform_fisher / inverse_transform_score", "src/data.rs")],
 ["Fit::score", "Fit::fisher", "Fit::lr_test_against"])
prop("C11", "Covariance, dispersion and Wald z statistics follow from the data and the fit",
 "Dispersion is exactly 1 for logistic, Poisson, binomial and exponential models and deviance over ((1-K/n_eff)*sum of weights) otherwise; the residual degrees of freedom are the total frequency minus the parameter count. The covariance is dispersion times the sandwich of regularized and data information inverses (the plain inverse without regularization), symmetric positive, and the Wald z of each coefficient is the coefficient over its standard error.",
 ["inputs", "configurations"],
 "all datasets, families, weights, offsets, regularization, intercept and standardization choices",
 "Tests compare covariance with R for a few fits; weights with regularization and standardization together are not covered.",
 ["src/fit.rs", "src/data.rs"],
 [("covariance / dispersion / wald_z / ndf / fisher_inv", "src/fit.rs")],
 ["Fit::covariance", "Fit::dispersion", "Fit::wald_z", "Fit::ndf"])
prop("C12", "Null model, likelihood-ratio, score and Wald tests compare with the right null",
 "The null likelihood is the maximum likelihood of the model with only the intercept (nothing without one) and the same offset and weights, unpenalized; the likelihood-ratio statistic is twice the gap to the fit's objective, is non-negative and zero for a model without covariates. The score and Wald statistics are the documented quadratic forms at the null parameters, all three coincide for unregularized least squares, and the tests' degrees of freedom count the covariates; R-squared is one minus deviance over null deviance and lies in [0,1] for models with an intercept.",
 ["inputs", "configurations"],
 "all datasets, families, links, offsets, weights, regularization, with and without intercept",
 "Tests verify a handful of null likelihoods; offsets with weights, no-intercept and regularized models are sampled thinly or not at all.",
 ["src/fit.rs"],
 [("null_model_fit / lr_test / score_test / wald_test / r_sq", "src/fit.rs")],
 ["Fit::null_like", "Fit::lr_test", "Fit::score_test", "Fit::wald_test", "Fit::test_ndf", "Fit::r_sq", "Fit::rss"])
prop("C13", "p-values are correct tail probabilities of the right statistics",
 "The omnibus p-value is the upper chi-squared tail of the likelihood-ratio statistic; Wald p-values are two-sided normal tails (fixed dispersion) or Student-t tails with the residual degrees of freedom (estimated dispersion). Each exact p-value equals the chi-squared or F tail of the deviance increase of a fresh fit of the model without that covariate (or without the intercept, unregularized) under the same remaining options, so all p-values lie in [0,1].",
 ["inputs", "configurations"],
 "all datasets, families, weights, offsets, intercept/standardization choices, regularization, each parameter",
 "Tests compare a few p-values with R; no-intercept models and drop-one fits with weights, offsets or ridge are not covered.",
 ["src/fit.rs"],
 [("pvalue_lr_test / pvalue_wald / pvalue_exact / dev_without_covariate", "src/fit.rs")],
 ["Fit::pvalue_lr_test", "Fit::pvalue_wald", "Fit::pvalue_exact"])
prop("C14", "Statistics of a fit do not depend on what was asked before",
 "Whatever sequence of methods is called on a fit, in whatever order and however often, each returns the value it would return if called first on a fresh fit. Fits and models do not influence each other: interleaving queries on several fits, refitting the same model with other options, or repeating a fit gives the same answers.",
 ["histories"],
 "all call sequences over the whole query interface, on one fit or interleaved on several fits of one or several models",
 "The one caching test calls four methods once; there are thousands of orders in which lazily cached values can be initialized.",
 ["src/fit.rs"],
 [("OnceCell caches", "src/fit.rs")],
 ["Fit::*"],
 [("lazy caches", "phi, dev_terms, resid_pear, covariance, fisher_inv, fisher_std_inv, hat, null_model", "src/fit.rs")])
prop("C15", "Builder steps commute, duplicates and inconsistent inputs are rejected",
 "Applying the model-building options in any order, and the fit options in any order or through an options struct, gives the same model and the same fit, in which the last value given of each fit option counts. Giving offset, frequency or variance weights twice is an error wherever in the sequence it happens, and a response, offset or weight vector whose length differs from the number of rows is always rejected with an error rather than a panic or a silent broadcast.",
 ["histories", "inputs"],
 "all sequences of builder and fit-option calls, all (mis)matching lengths",
 "Tests check one duplicate and two length mismatches; orders of calls and combinations of mistakes are not covered.",
 ["src/model.rs", "src/fit/options.rs"],
 [("ModelBuilderData::build and setters", "src/model.rs")],
 ["ModelBuilder", "ModelBuilderData::build", "Fit::options"],
 [("deferred error", "first/last builder error kept until build()", "src/model.rs")])
prop("C16", "The iteration is a monotone, budgeted, restartable search",
 "Every fit ends within its iteration budget: with a budget of m it either returns the same result and history as with a larger budget, or fails with the max-iterations error carrying the steps taken. The returned coefficients and likelihood belong to the best step of the recorded history, whose likelihoods never decrease without L1, the step count matches, and restarting from the result, from any recorded step or from any reasonable initial guess (predictions within a few units of linear predictor of the optimum) reaches the same optimum of a concave problem.",
 ["histories", "inputs", "configurations"],
 "every budget from zero up, every intermediate step, every start on a lattice around the optimum, all families and penalties",
 "Tests look at default budgets and starts only; one test restarts from the optimum.",
 ["src/irls.rs", "src/glm.rs", "src/fit.rs", "src/fit/options.rs"],
 [("Irls iterator, step_with, step_scale", "src/irls.rs"), ("max_by over the history", "src/glm.rs")],
 ["Fit::history", "Fit::n_iter", "Fit::model_like", "RegressionError::MaxIter", "FitOptions"],
 [("Irls", "guess, n_iter, last_like_data, done, history", "src/irls.rs")])
prop("C17", "Prediction applies the fitted model to any rows",
 "Predicting gives the inverse link of intercept plus covariates times the reported coefficients plus the given offset, row by row, for any number of rows including none, any layout, and independently of the training rows, weights and standardization. Predictions lie in the family's range for links that guarantee it.",
 ["inputs", "configurations"],
 "all fits and all new row sets and offsets",
 "Prediction is tested on a few datasets, mostly on the training rows.",
 ["src/fit.rs", "src/data.rs"],
 [("predict", "src/fit.rs")], ["Fit::predict"])
prop("C18", "Links and families obey the exponential-family identities on their whole domain",
 "For every built-in link the inverse link inverts the link, maps the whole linear-predictor domain into the closed response range and is monotone; the natural-parameter map equals the canonical link of the mean and its derivative is one over (link slope times variance). Per-observation deviance is zero only at y equal to the mean and positive elsewhere, with finite likelihood, score and information for any linear predictor a user can reach without leaving the float range.",
 ["inputs"],
 "all floating-point linear predictors and responses in the domain",
 "Tests check about ten values per link.",
 ["src/link.rs"] + FAM,
 [("Link / Transform implementations; log_partition, variance, log_like_sat", "src/response/")],
 ["link::Link", "link::Transform", "Fit::predict", "Fit::lr_test_against", "Fit::deviance"])
prop("C19", "Quantile residuals are the normal quantiles of the fitted distribution",
 "For linear, exponential and gamma models with any link, weights, offset and regularization, the quantile residual of each row is the standard normal quantile of the fitted response distribution's CDF at y, with the fitted mean and the dispersion divided by the row's variance weight (exponential: no dispersion). They increase with y for a fixed fit, and in the linear case equal the response residual over its fitted standard deviation.",
 ["inputs", "configurations"],
 "all datasets, links, weights, offsets and penalties of the continuous families",
 "Three tests on one dataset each.",
 ["src/fit.rs", "src/response/linear.rs", "src/response/exponential.rs", "src/response/gamma.rs"],
 [("resid_quantile, get_distribution", "src/fit.rs, src/response/")], ["Fit::resid_quantile"])
prop("C20", "AIC and BIC are consistent with likelihood, deviance and sample size",
 "AIC is deviance plus twice the parameter count and BIC is parameter count times log of the total frequency minus twice the model likelihood, each minus twice the frequency-weighted sum of log variance weights. Between two nested models on the same data, differences of AIC and BIC are therefore exactly the likelihood-ratio change plus the parameter penalty.",
 ["inputs", "configurations"],
 "all datasets, families, weights, offsets, nested model pairs",
 "One or two values are compared with R.",
 ["src/fit.rs"], [("aic / bic", "src/fit.rs")], ["Fit::aic", "Fit::bic"])
prop("C21", "User-defined links behave exactly like built-in ones",
 "A user-defined link that restates a built-in link gives the same fits and statistics as the built-in, whether or not it is declared canonical. A user-defined link with a correct forward map, inverse and natural-parameter transformation gives fits that are stationary points of the likelihood and statistics that follow the documented formulas.",
 ["configurations", "inputs"],
 "all datasets, options and statistics, for custom links of every family that accepts one",
 "Custom links appear only in documentation examples and one test.",
 ["src/link.rs", "src/glm.rs", "src/irls.rs", "src/fit.rs"],
 [("Transform::adjust_errors / adjust_variance / adjust_errors_variance and the Canonical blanket impl", "src/link.rs")],
 ["link::Link", "link::Transform", "Fit::*"])
prop("C22", "Responses outside the family's support are rejected, all others accepted",
 "Building a model fails with the invalid-response error if any response is outside the family's support (logistic outside [0,1], binomial above N, exponential, gamma or inverse Gaussian not positive and finite, any NaN), wherever in the data it occurs, and succeeds for every supported value and element type. Accepted responses enter the fit with exactly their numeric value.",
 ["inputs"],
 "all response values of every element type, at every position",
 "Tests try two or three invalid values.",
 FAM + ["src/model.rs", "src/response.rs"],
 [("Yval::into_float", "src/response/")], ["ModelBuilderData::build"])
prop("C23", "Fits never silently return nonsense or panic, even on degenerate data",
 "For any correctly shaped finite data, however ill-posed (separable, rank-deficient, constant covariates, fewer rows than parameters, zero frequencies, saturated fits, extreme values), building and fitting either returns an error or an Ok fit whose coefficients and likelihood are finite. No method of an Ok fit panics on such data.",
 ["inputs", "configurations"],
 "all finite datasets including every degenerate shape, all families and options, all methods",
 "Tests contain one under-constrained example.",
 ["src/irls.rs", "src/glm.rs", "src/data.rs", "src/fit.rs"],
 [("error propagation from solves, step search, initial guess", "src/irls.rs, src/glm.rs")],
 ["FitConfig::fit", "Fit::*"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
