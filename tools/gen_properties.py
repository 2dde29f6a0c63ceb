#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

D = "diff_diff/"
prop("C01", "Regressions return the least-squares fit and its documented covariance",
 "Every regression the library runs returns the exact ordinary-least-squares coefficients, residuals and fitted values for its design, and the covariance it reports is the documented one (homoskedastic, HC1, or cluster-robust with the G/(G-1)*(n-1)/(n-k) factor). When columns are linearly dependent, redundant columns are dropped, reported as NaN (with a warning, an error or silence as configured) and every other coefficient, residual and covariance equals that of the regression without them. None of this depends on the units, order or magnitude of the columns.",
 ["inputs", "configurations"], "all finite designs (any shape n>=k, column scale, correlation, duplicated/collinear columns), outcomes, cluster label types and rank-deficiency modes",
 "Tests check a few well-scaled random designs; conditioning, column scale spread, cluster label types and rank deficiency patterns form an unbounded input space.",
 [D+"linalg.py"], [("rank detection and reduced solve", D+"linalg.py:solve_ols"), ("sandwich covariance", D+"linalg.py:compute_robust_vcov"), ("regression object", D+"linalg.py:LinearRegression")],
 ["return values of solve_ols, compute_robust_vcov, LinearRegression.fit/predict/get_inference"])

prop("C02", "Estimate, SE, t, p-value, interval and significance always agree",
 "In every result the library returns, at every level (overall, per period, per group-time cell, per cohort, per placebo), the t-statistic is estimate/SE, the p-value is the two-sided probability of that statistic under the documented reference distribution, the confidence interval at the configured level is symmetric around the estimate with the matching critical value (or is the documented bootstrap percentile interval), and significance flags and stars follow from the p-value and level. An undefined SE gives an undefined t-statistic, p-value and interval and nothing is called significant; a zero SE never produces a finite non-zero t-statistic. (Under the wild cluster bootstrap the t-statistic is the documented cluster-robust one, while SE, p-value and interval come from the draws.) This holds for every significance level.",
 ["inputs", "configurations"], "all estimators, result levels, alpha values and inference modes, including degenerate data with zero or undefined variance",
 "Tests assert positivity or one alpha on one dataset; agreement across six derived fields, nested levels and degenerate variances in every estimator is never cross-checked.",
 [D+"results.py", D+"staggered_results.py", D+"sun_abraham.py", D+"triple_diff.py", D+"synthetic_did.py", D+"trop.py", D+"estimators.py", D+"diagnostics.py", D+"utils.py"],
 [("p-value and interval helpers", D+"utils.py:compute_p_value, compute_confidence_interval"), ("coefficient inference", D+"linalg.py:LinearRegression.get_inference"), ("event-study inference", D+"staggered_aggregation.py")],
 ["public result objects"])

prop("C03", "Reports, tables and plots show the fitted numbers unchanged",
 "Every exported view of a result (text summary, dictionary, data frame, plot) contains exactly the numbers held by the result object, for every level, with nothing dropped, duplicated, mislabelled or rounded beyond the displayed digits. An interval shown under a stated confidence level is an interval at that level (event-study and group plots draw effect plus or minus the normal quantile times SE at the plot's level; the robust plot draws the scalar robust interval). Producing a view never changes the result.",
 ["inputs", "configurations"], "all result types x export methods x alpha values x period/group label types",
 "Tests check that summaries contain a heading or that a frame has columns, for one result each.",
 [D+"results.py", D+"staggered_results.py", D+"sun_abraham.py", D+"bacon.py", D+"triple_diff.py", D+"trop.py", D+"honest_did.py", D+"pretrends.py", D+"power.py", D+"visualization.py"],
 [("text/dict/frame views", D+"results.py"), ("plot data extraction", D+"visualization.py:_extract_plot_data")],
 ["summary(), to_dict(), to_dataframe(), matplotlib artists"])

prop("C04", "Basic DiD equals the saturated regression it documents",
 "The two-group two-period estimator returns the coefficient on treatment x post of the regression of the outcome on treatment, post, their interaction, the covariates and the requested fixed effects; without covariates or fixed effects this is the difference of the four cell-mean differences, and R-squared, residuals, counts and standard errors are those of that regression. Dummy fixed effects, absorbed fixed effects and the formula interface give the same estimate as the equivalent explicit specification, and absorbed effects also give the standard error and degrees of freedom of the dummies they stand for when inference is not clustered. A refit reports only the latest fit.",
 ["inputs", "configurations", "histories"], "all data with the four cells populated (any imbalance, dtype, covariates, fixed effects), all robust/cluster settings, all refit sequences",
 "Tests use balanced or single synthetic datasets and loose tolerances; equivalence between specification routes on unbalanced data and across refits is not sampled.",
 [D+"estimators.py", D+"linalg.py", D+"utils.py"],
 [("2x2 design", D+"estimators.py:DifferenceInDifferences.fit"), ("formula parser", D+"estimators.py:_parse_formula"), ("demeaning", D+"utils.py:demean_by_group")],
 ["DiDResults fields"])

prop("C05", "Multi-period event study equals its interacted regression",
 "The multi-period estimator returns, for each post period, the coefficient on treatment x that period in the regression with treatment, period dummies, interactions, covariates and fixed effects; without covariates each equals the double difference of that period's cell means against the pooled omitted pre-treatment periods. The average effect is their mean and its standard error comes from their joint covariance.",
 ["inputs", "configurations"], "all panels or repeated cross sections with any period labels, any post-period set, unbalanced cells, covariates, fixed effects and clustering",
 "Tests check effect magnitude on generated data within tolerance.",
 [D+"estimators.py", D+"linalg.py", D+"results.py"],
 [("event-study design", D+"estimators.py:MultiPeriodDiD.fit"), ("averaging", D+"estimators.py:MultiPeriodDiD.fit")],
 ["MultiPeriodDiDResults fields"])

prop("C06", "Two-way fixed effects equals the dummy-variable regression",
 "The two-way fixed-effects estimator returns the coefficient of treatment x post from the regression that includes a full set of unit and period dummies and the covariates, on balanced and unbalanced panels alike, with standard errors clustered by unit unless another cluster is named. On a two-period panel it equals the two-by-two difference of differences.",
 ["inputs", "configurations"], "all panels (balanced or not, any unit/time label type and order), covariates, cluster choice",
 "Tests check sign/magnitude on one or two balanced panels; equality to the dummy-variable fit is a for-all-inputs statement.",
 [D+"twfe.py", D+"utils.py"], [("within transformation", D+"utils.py:within_transform"), ("fit", D+"twfe.py:TwoWayFixedEffects.fit")],
 ["DiDResults from the two-way estimator"])

prop("C07", "Wild cluster bootstrap inference is a valid null-imposed test",
 "The wild cluster bootstrap keeps the point estimate of the regression unchanged, draws its reference distribution with the null imposed, computes its p-value from the null-imposed draws and its standard error and interval from the recorded distribution of the coefficient around the estimate, with the configured level, weight type and replication count. With absorbed or two-way within effects it is the bootstrap of the same regression with explicit dummies. Under no effect its p-value is close to uniform, and under an overwhelming effect it is close to zero. The same seed gives the same result.",
 ["inputs", "configurations", "histories"], "all clustered datasets with at least two clusters, weight types, seeds, replication counts and effects",
 "Tests check only ranges of the p-value on single datasets; uniformity and power are statements over the distribution of datasets.",
 [D+"utils.py", D+"estimators.py", D+"twfe.py"], [("wild bootstrap", D+"utils.py:wild_bootstrap_se"), ("estimator plumbing", D+"estimators.py:_run_wild_bootstrap_inference")],
 ["WildBootstrapResults, DiDResults with inference='wild_bootstrap'"])

prop("C08", "Group-time effects equal their textbook 2x2 definitions",
 "For every treatment cohort and period, the staggered estimator reports the difference between the cohort's average outcome change since its base period and that of the chosen comparison group (never-treated, or not-yet-treated), with the base period following the varying/universal and anticipation rules; with covariates it is the outcome-regression, inverse-probability or doubly-robust version of the same contrast, with a standard error that includes the estimation of the outcome or propensity model in the first two. Exactly the identified cells are reported, each with the right unit counts, and every control unit is untreated, net of anticipation, in both periods being compared. Never-treated units may be coded as 0 or infinity with the same result.",
 ["inputs", "configurations"], "all staggered panels (irregular periods, cohort sizes, unbalanced rows), control groups, base periods, anticipation, estimation methods",
 "Tests check a handful of seeds for rough magnitude; the definition quantifies over every cohort, period and configuration combination.",
 [D+"staggered.py"], [("2x2 contrast", D+"staggered.py:CallawaySantAnna._compute_att_gt_fast"), ("outcome regression / IPW / DR", D+"staggered.py")],
 ["group_time_effects of the result"])

prop("C09", "Staggered aggregations and their bootstrap follow from the group-time effects",
 "The overall, event-study and cohort aggregates equal the documented cohort-size-weighted averages of the reported group-time effects over exactly the documented cells, and their analytical standard errors equal those implied by the unit-level influence functions, the estimated cohort-size weights included. With the multiplier bootstrap, point estimates are unchanged, standard errors approach the analytical ones, and p-values and intervals are the ones implied by the bootstrap draws. Results for one aggregation do not depend on which other aggregations were requested.",
 ["inputs", "configurations", "histories"], "all staggered panels, aggregation requests, balancing windows, anticipation, bootstrap weights, replication counts and seeds",
 "Tests check presence of keys and rough magnitude; weighting identities over arbitrary cohort structures are not enumerated.",
 [D+"staggered_aggregation.py", D+"staggered_bootstrap.py", D+"staggered.py"], [("aggregation mixin", D+"staggered_aggregation.py"), ("multiplier bootstrap", D+"staggered_bootstrap.py")],
 ["overall_att, event_study_effects, group_effects, bootstrap_results"])

prop("C10", "Interaction-weighted event study equals the saturated cohort regression",
 "The interaction-weighted estimator's cohort-by-event-time effects are the coefficients of the two-way fixed-effects regression with cohort-by-relative-period interactions (never-treated as controls and the reference period omitted), its event-study effects are their cohort-share-weighted averages with weights that sum to one in every relative period, and its overall effect is the documented average over post-treatment periods. Standard errors follow from the joint clustered covariance by the delta method, or from the pairs bootstrap by unit.",
 ["inputs", "configurations"], "all staggered panels, control groups, anticipation, covariates, balanced or not, never-treated coded 0 or infinity",
 "Tests compare magnitudes on a few seeds.",
 [D+"sun_abraham.py", D+"utils.py"], [("saturated regression", D+"sun_abraham.py:SunAbraham._fit_saturated_regression"), ("IW aggregation", D+"sun_abraham.py:_compute_iw_effects")],
 ["event_study_effects, cohort_effects, cohort weights, overall ATT"])

prop("C11", "Bacon decomposition reproduces the two-way fixed-effects estimate",
 "The decomposition lists every admissible two-group comparison exactly once with its difference-in-differences estimate on the correct window, weights that are non-negative and sum to one, and per-type totals that match the list. Its reported two-way estimate is the fixed-effects regression coefficient, and with exact weights on a balanced panel the weighted sum of comparisons equals that estimate. The reported decomposition error is the gap between the two.",
 ["inputs", "configurations"], "all staggered panels with any number and spacing of cohorts and periods, with or without never-treated units, both weight modes",
 "Tests allow large tolerances on the identity for one or two designs.",
 [D+"bacon.py", D+"utils.py"], [("2x2 comparisons", D+"bacon.py:BaconDecomposition"), ("exact weights", D+"bacon.py:_recompute_exact_weights")],
 ["comparisons list, weights, twfe_estimate, decomposition_error"])

prop("C12", "Synthetic DiD is a convex reweighting of controls and pre-periods",
 "The unit weights and time weights are non-negative and sum to one over exactly the control units and pre-treatment periods, and the reported effect is the weighted double difference those weights imply on the outcome; pre-treatment fit is the error those weights imply. Standard error, p-value and interval follow from the reported placebo or bootstrap replications. Shifting every outcome by a constant, adding a common period shock or permuting units leaves the effect unchanged.",
 ["inputs", "configurations"], "all balanced block-adoption panels, regularisation settings, variance methods, covariates, any unit/period labels and outcome magnitude",
 "Tests check weight sums and rough effect size on a few panels with small outcomes.",
 [D+"synthetic_did.py", D+"utils.py"], [("weights", D+"utils.py:compute_synthetic_weights, compute_time_weights"), ("effect", D+"utils.py:compute_sdid_estimator"), ("inference", D+"synthetic_did.py")],
 ["SyntheticDiDResults fields"])

prop("C13", "Triple difference equals the eight-cell contrast by every method",
 "Without covariates the regression, inverse-probability and doubly-robust triple-difference estimates all equal the difference between the two within-partition double differences of cell means, for any cell sizes, and with covariates each adjusts as documented (the regression version equals the fully interacted regression plus covariates; the doubly-robust one is correct if either model is). Estimate and standard error do not change when a constant is added to the outcome and scale with it. All eight cells must be populated or the fit is rejected.",
 ["inputs", "configurations"], "all datasets with eight populated cells of any relative size, covariates, methods and options",
 "Tests use equal-sized cells from one generator, which is exactly where wrong weights are invisible.",
 [D+"triple_diff.py"], [("three methods", D+"triple_diff.py:TripleDifference"), ("validation", D+"triple_diff.py:_validate_data")],
 ["TripleDiffResults fields"])

prop("C14", "Factor-model panel estimator reduces to its documented objective",
 "The triply-robust panel estimator reports the average, over exactly the treated observations, of observed outcome minus counterfactual fitted from control observations only; with no nuclear-norm factor and flat weights the counterfactual is the two-way fixed-effects fit on control cells, and in general each fitted effect is the minimiser of the documented weighted, nuclear-norm-penalised objective. The tuning parameters it reports are a minimiser of the leave-one-out criterion over the configured grid (coordinate-wise for the documented two-step search), treatment must be absorbing, and shifting or scaling outcomes and reordering rows moves the estimate equivariantly.",
 ["inputs", "configurations"], "all absorbing-treatment panels (unbalanced, staggered, single treated unit), both estimation methods, all grids including infinity, both variance methods",
 "The reference test command skips the estimator's test file, and those tests check magnitude on a few panels.",
 [D+"trop.py"], [("twostep fit", D+"trop.py:TROP._estimate_model"), ("joint fit", D+"trop.py:TROP._fit_joint"), ("LOOCV", D+"trop.py:TROP._loocv_score_obs_specific")],
 ["TROPResults fields"])

prop("C15", "Sensitivity bounds are the documented worst case over the allowed violations",
 "The robust bounds equal the set of average post-treatment effects compatible with the reported event-study coefficients and the chosen restriction (smoothness, relative magnitude, or both) at the given strength, the robust interval contains the bounds and, with no allowed violation, reduces to the restriction's point identification with that aggregate's standard error. Bounds and intervals widen monotonically with the strength, and a reported breakdown value separates strengths whose interval excludes zero from those whose interval includes it. Results are the same whether the event study came from the multi-period or the staggered estimator.",
 ["inputs", "configurations"], "all event-study coefficient vectors, covariances, period counts, restriction types, strengths and levels",
 "Tests sample a few strengths on one event study and check ordering.",
 [D+"honest_did.py"], [("constraint construction and LP", D+"honest_did.py"), ("breakdown search", D+"honest_did.py:HonestDiD.breakdown_value, sensitivity_analysis")],
 ["HonestDiDResults, SensitivityResults"])

prop("C16", "Pre-trend power and minimum detectable violation are inverse functions",
 "For every pre-period covariance, violation shape, level and target power, the power at the minimum detectable violation equals the target, power is the noncentral chi-square tail probability of the joint pre-trend test, equals the level at zero violation, increases with the violation size, and the power curve is that same function on its grid. The pre-period coefficients and covariance used are the ones in the supplied event study, whatever the columns are called.",
 ["inputs", "configurations"], "all covariances (correlated, tiny, large), numbers of pre-periods, violation types and custom weights, alpha, target power, event-study sources and column names",
 "Tests check ranges for one event study with the default column name.",
 [D+"pretrends.py"], [("power and MDV", D+"pretrends.py:PreTrendsPower"), ("pre-period extraction", D+"pretrends.py")],
 ["PreTrendsPowerResults, PreTrendsPowerCurve"])

prop("C17", "Power, minimum detectable effect and sample size are mutually inverse",
 "For every design, level, alternative and target, the power at the minimum detectable effect equals the target power, the required sample size is enough to reach the target and not grossly more, power increases with effect size, sample size and number of periods and decreases with noise and intra-cluster correlation, and equals the level at zero effect. Simulated power, coverage and bias are the proportions and averages of the simulations actually run, reproducible from the seed, for every supported estimator.",
 ["inputs", "configurations"], "all designs (group sizes, fractions, periods, rho), alphas, powers, alternatives, effect signs; all estimators and seeds in simulation",
 "Tests check a few textbook values and directions.",
 [D+"power.py"], [("closed forms", D+"power.py:PowerAnalysis"), ("simulation", D+"power.py:simulate_power")],
 ["PowerResults, SimulationPowerResults"])

prop("C18", "Placebo tests are honest re-estimations on the placebo assignment",
 "Each placebo diagnostic equals what one gets by hand: fake timing re-estimates on pre-treatment data only, fake groups re-estimates with the fake assignment, permutation draws reassign treatment across whole units keeping the number treated and compare the original estimate with the recorded draws, and leave-one-out drops one treated unit at a time. The parallel-trends checks report the trend difference, equivalence bounds and distributional distance of the pre-treatment outcome changes they document. No diagnostic modifies its input, the same seed gives the same answer, and an effect-free permutation p-value is close to uniform.",
 ["inputs", "configurations"], "all panels, placebo choices, seeds and permutation counts, label types",
 "Tests assert that a p-value lies between zero and one on fixed data.",
 [D+"diagnostics.py"], [("placebo tests", D+"diagnostics.py")], ["PlaceboTestResults"])

prop("C19", "Data-preparation helpers conserve the data",
 "Reshaping, balancing, indicator, event-time and cohort-aggregation helpers neither invent, lose, duplicate nor misplace observations: every output value is traceable to its input cell, indicators match the stated rule for every dtype, balanced output contains exactly the documented unit-period set, and inputs are left untouched. Control ranking returns every eligible control exactly once, in score order, with scores that do not depend on row order.",
 ["inputs", "configurations"], "all wide/long frames, dtypes (strings, dates, categories, floats, missing), row orders, indexes and options",
 "Tests use docstring-sized frames with sorted integer labels.",
 [D+"prep.py"], [("helpers", D+"prep.py")], ["returned frames, input frames after the call"])

prop("C20", "Synthetic data carries exactly the effects and structure it advertises",
 "Every data generator (and built-in dataset table) returns the requested number of units and periods, the requested treated share and timing, and a true-effect column equal to the requested effect on exactly the treated observations; with zero noise the outcome is the documented deterministic model so the matching estimator recovers the effect exactly. The same seed reproduces the data bit for bit, different seeds differ, and only documented parameters influence it.",
 ["inputs", "configurations"], "all generator parameter combinations and seeds", 
 "Tests call each generator with a couple of parameter sets.",
 [D+"prep_dgp.py"], [("generators", D+"prep_dgp.py")], ["returned frames"])

prop("C21", "Results do not depend on how the data frame is laid out",
 "Shuffling rows, changing the index, relabelling units, relabelling groups or clusters, adding unrelated columns, changing numeric dtype of identifiers or column order never changes any estimate, standard error, p-value or count of any estimator or diagnostic (up to floating-point noise). No call modifies the data frame it was given.",
 ["inputs", "configurations"], "all estimators x all layout transformations x all datasets",
 "Tests feed sorted, range-indexed frames with integer labels almost exclusively.",
 [D+"estimators.py", D+"twfe.py", D+"staggered.py", D+"sun_abraham.py", D+"bacon.py", D+"synthetic_did.py", D+"triple_diff.py", D+"trop.py", D+"diagnostics.py", D+"utils.py"],
 [("per-estimator data preparation", "fit methods")], ["result objects before/after the transformation"])

prop("C22", "Estimates move with the outcome and not with the units of measurement",
 "For every estimator, adding a constant to the outcome leaves effects and standard errors unchanged, multiplying the outcome by c multiplies effects by c and standard errors by |c| while p-values stay put, negating the treatment-group coding where symmetric flips the sign, and rescaling or shifting a covariate changes nothing. This holds for outcomes of any reasonable magnitude.",
 ["inputs", "configurations"], "all estimators x datasets x affine transformations of outcome and covariates over many orders of magnitude",
 "Metamorphic relations over magnitudes are absent from the tests, which use outcomes around 10.",
 [D+"linalg.py", D+"estimators.py", D+"staggered.py", D+"sun_abraham.py", D+"synthetic_did.py", D+"triple_diff.py", D+"trop.py", D+"bacon.py"],
 [("scale handling", D+"linalg.py"), ("covariate adjustment", D+"staggered.py")], ["result objects under transformed inputs"])

prop("C23", "Same seed, same answer; fits are isolated from each other",
 "Every randomised procedure gives bit-identical results for the same seed and data and a different draw for a different seed, and never reads or changes the global random state. Refitting one estimator object, on the same or other data, in any order, gives exactly what a fresh object gives, and results already returned never change afterwards.",
 ["histories", "configurations"], "all estimators and diagnostics with randomness, all sequences of fits on shared or separate objects",
 "Tests fit an object once; interleaved histories are unbounded.",
 [D+"estimators.py", D+"staggered.py", D+"staggered_bootstrap.py", D+"sun_abraham.py", D+"synthetic_did.py", D+"trop.py", D+"diagnostics.py", D+"power.py", D+"utils.py"],
 [("generators and fitted state", "fit methods")], ["result objects over histories of calls; numpy global state"])

prop("C24", "Parameters round-trip and configuration errors are rejected",
 "For every estimator, reading the parameters and building or updating another object with them gives an equivalently configured estimator that produces identical results, updating one parameter changes only it, and unknown parameter names or values outside the documented choices are rejected with an error rather than ignored, both at construction and on update; a refused update leaves the configuration as it was. Every documented option takes effect, and convenience functions behave like the class they wrap.",
 ["configurations"], "all estimators x parameter subsets x valid and invalid values",
 "Tests set one or two parameters per estimator.",
 [D+"estimators.py", D+"staggered.py", D+"sun_abraham.py", D+"bacon.py", D+"synthetic_did.py", D+"triple_diff.py", D+"trop.py", D+"honest_did.py", D+"pretrends.py"],
 [("get_params/set_params", "each estimator class")], ["get_params(), set_params(), constructor"])

prop("C25", "Unusable data is refused, never silently turned into a number",
 "When a required column is missing, the outcome or a used column contains missing values where they are not supported, the treatment or period indicator is not of the required form, a needed comparison group or period is absent, or treatment timing is inconsistent within units, the estimator raises a clear error (or, where documented, warns and reports not-a-number) instead of returning a finite estimate computed from something else (a missing outcome in CallawaySantAnna and TROP, whose panels may be unbalanced, counts as an unobserved cell). The same holds for the inputs of the power formulas, the preparation helpers and the analyses that take results, and validate_did_data flags such tables. Valid data is never refused.",
 ["inputs", "fault_sequences"], "all estimators x single and combined data corruptions at every position",
 "Tests cover a few messages per estimator; corruptions at arbitrary positions and combinations are not sampled.",
 [D+"utils.py", D+"estimators.py", D+"twfe.py", D+"staggered.py", D+"sun_abraham.py", D+"bacon.py", D+"synthetic_did.py", D+"triple_diff.py", D+"trop.py", D+"linalg.py"],
 [("validation", "fit methods, utils.validate_binary, linalg.solve_ols finiteness check")], ["exceptions and warnings of fit"])

prop("C26", "All estimators agree and recover the truth when parallel trends hold",
 "On noise-free panels where trends are exactly parallel, every estimator returns the true effect (overall, and per cohort, period or event time where it reports them), and placebo effects are zero. Where designs coincide (two periods, or one cohort against never-treated) the different estimators return the same point estimate on noisy data too.",
 ["inputs", "configurations"], "all panels generated from the identifying assumptions, all effect patterns, all estimators and options",
 "Tests check recovery within large noise tolerances and seldom across estimators.",
 [D+"estimators.py", D+"twfe.py", D+"staggered.py", D+"sun_abraham.py", D+"bacon.py", D+"synthetic_did.py", D+"triple_diff.py", D+"trop.py"],
 [("identification", "all fit methods")], ["point estimates of all estimators on shared data"])

prop("C27", "Reported uncertainty matches actual sampling variability",
 "Across repeated samples from models satisfying each estimator's assumptions, the reported standard errors match the actual spread of the estimates, intervals cover the truth and tests of a true null reject at about their nominal rates, for analytical, clustered, bootstrap, jackknife and placebo inference alike. The power the library predicts for a design is the rate at which its test rejects in that design.",
 ["inputs", "configurations"], "all data-generating models satisfying the assumptions, all inference modes",
 "A single dataset cannot show miscalibrated inference; it is a statement about the distribution over datasets.",
 [D+"linalg.py", D+"utils.py", D+"staggered.py", D+"staggered_bootstrap.py", D+"sun_abraham.py", D+"synthetic_did.py", D+"triple_diff.py", D+"trop.py", D+"estimators.py"],
 [("variance estimators", "all fit methods")], ["estimate/SE/p-value streams over repeated samples"])

prop("C28", "Dataset loading survives network and cache faults",
 "A dataset request returns a complete, well-formed table whatever the network does: a good download is cached and reused byte for byte, a failed or interrupted download falls back to the cached copy or the built-in table, and never leaves behind a cache entry that makes later loads fail or return partial data. Forcing a download uses fresh content when available, clearing the cache removes only cached datasets, a load that has to return the built-in stand-in says so with a warning, and unknown names are rejected.",
 ["fault_sequences", "crash_points", "histories"], "all sequences of loads, forced loads, clears and network/disk faults (errors, timeouts, truncated transfers, undecodable bytes, interrupted writes)",
 "Tests call the built-in constructors; no fault or crash is ever injected.",
 [D+"datasets.py"], [("download and cache", D+"datasets.py:_download_with_cache"), ("loaders", D+"datasets.py")],
 ["returned frames, cache directory content"])

prop("C29", "The optional accelerator is a drop-in replacement",
 "The compiled accelerator changes speed, not answers: with one installed, every analysis returns the numbers it returns without it (bootstrap spreads agree in size and are reproducible under a seed), the accelerator only ever receives arguments of the types it accepts, for the analysis that was asked for, and what it returns (chosen tuning parameters, bootstrap spread) is what the result reports. When it reports numerical instability, returns unusable covariances, or fails in a search or bootstrap, the pure-Python answer is used instead, with a warning for the regression fallback. DIFF_DIFF_BACKEND=python never calls it, DIFF_DIFF_BACKEND=rust without it refuses to import, and otherwise an installed one is used.",
 ["inputs", "configurations", "fault_sequences"], "all analyses, all backend settings, accelerator present, absent or failing at any call",
 "The accelerator's own tests are skipped where it is not built, so the dispatch, type conversion and fallback code never runs.",
 [D+"_backend.py", D+"linalg.py", D+"staggered_bootstrap.py", D+"utils.py", D+"trop.py"],
 [("selection", D+"_backend.py"), ("regression dispatch and fallback", D+"linalg.py:_solve_ols_rust"), ("factor-model search and bootstrap", D+"trop.py")],
 ["accelerator calls and arguments, results with and without it, warnings, import outcome"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
