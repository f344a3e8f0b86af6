"""Source of /verif/properties.jsonl (kept as code so that the wording stays diffable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
S = "src/ondil/"
LM, GL, SC = S+"estimators/online_linear_model.py", S+"estimators/online_gamlss.py", S+"scaler.py"
GR, CD, BE, UT = S+"gram.py", S+"coordinate_descent.py", S+"base/estimator.py", S+"utils.py"
EN, RI, RL, FA = S+"methods/elasticnet.py", S+"methods/ridge.py", S+"methods/recursive_least_squares.py", S+"methods/factory.py"
IC, BD = S+"information_criteria.py", S+"base/distribution.py"

prop("C01", "Streaming least squares equals discounted batch least squares",
 "After an initial fit and any number of updates, an online linear model with the ordinary-least-squares method has exactly the coefficients and predictions of one weighted least-squares solve over every observation it has accepted, each observation once, with weight sample_weight*(1-forget)^(number of observations accepted after it). The result does not depend on how the stream was cut into batches (single rows, bursts, or one batch). With input scaling on, the rows are the ones standardised with the scaling in force when their batch was absorbed.",
 ["histories","schedules","inputs","configurations"], "every delivery schedule (batch boundaries, bursts, duplicates, reordering), sample weights (none, scalar, per-row, zero), forget factor, intercept and scaling option",
 "Existing tests compare one gram update (single step and one batch) on one data set; none drives an estimator through a history of updates, mixed batch sizes, weights and forgetting together.",
 [LM, RL, GR], [("recursive inverse-gram and y-gram update", GR+": update_inverted_gram, update_y_gram"), ("fit/update of the linear model", LM+": fit, update")],
 [("inverse gram, y gram","discounted sufficient statistics", LM)], ["coef_", "predict()", "score()"])
prop("C02", "Online scaler tracks the discounted weighted history exactly",
 "After fit and any updates, the scaler's mean and variance are those of one weighted pass over every row it has accepted, weighted sample_weight*(1-forget)^(number of rows accepted after it), independent of batching. transform standardises exactly the columns selected for scaling with these statistics and leaves the others untouched, and inverse_transform undoes transform.",
 ["histories","schedules","inputs","configurations"], "every batching schedule, weights including zeros, forget factor, column selection (all, none, boolean mask, integer index), magnitude of the data",
 "Tests fix a handful of batch/incremental comparisons on standard normal data; they do not mix batch sizes, weights, forgetting and column selection along a history.",
 [SC, GR], [("weighted Welford recursion with forgetting", SC+": update"), ("initial weighted moments", SC+": fit")],
 [("cumulative weight, M","discounted weight sum and squared deviations", SC)], ["mean_", "var_", "std_", "transform()", "inverse_transform()"])
prop("C03", "Observation accounting is conserved",
 "On every estimator the reported number of observations is always the sum of the sample weights of exactly the batches that were accepted since the last fit, and the effective training length is (1-(1-forget)^n)/forget of that number (n itself without forgetting), per distribution parameter where forgetting differs per parameter. Rejected or failed calls, reads, checkpoints and restarts never change these numbers, and a refit starts them again.",
 ["histories","schedules","fault_sequences","configurations"], "every interleaving of fit, update, partial_fit, reads, rejected batches, failed calls and restarts, with any weights and forget factors",
 "No existing test looks at the counters after more than one call or after a failed call.",
 [LM, GL, SC, UT, BE], [("counter updates", LM+", "+GL+", "+SC), ("calculate_effective_training_length", UT)],
 [("n_observations_, n_training_","absorbed weight and effective length", BE)], ["n_observations_","n_samples_","n_training_"])
prop("C04", "Regularised coefficients solve the discounted penalised problem",
 "For lasso, elastic net and ridge, after any history each reported coefficient vector is what coordinate descent reaches on the penalised weighted least-squares problem of exactly the absorbed, discounted observations: within the requested tolerance no active coefficient can be moved to lower the penalised objective, the objective is never above that of the warm start, and all coefficients respect the user's bounds. The penalty grid runs geometrically from the smallest lasso penalty that zeroes every regularised coefficient down to lambda_eps times it, so the first lasso row has all regularised coefficients zero, and unregularised intercepts are never penalised.",
 ["histories","schedules","inputs","configurations"], "every history of updates, warm-start rule, cyclic or random coordinate order (any permutation sequence), bounds, early stopping, tolerance and iteration limits, weights, forgetting, sign and scale of the data",
 "Tests compare a single batch lasso with scikit-learn on fixed data; warm starts along an update history, random coordinate order, bounds, fully regularised models and negative correlations are not exercised.",
 [EN, RI, CD, GR, LM], [("coordinate descent", CD), ("lambda grid", EN+": _get_lambda_max"), ("gram updates", GR+": update_gram, update_y_gram")],
 [("coefficient path","one row per penalty", LM)], ["coef_path_", "coef_", "predict_path()"])
prop("C05", "Path selection minimises the criterion on the whole history",
 "The coefficients an online linear model serves with a path-based method are always the row of the current path that minimises the chosen information criterion, computed from the discounted, weighted residual sum of squares each row accumulated over all accepted batches, the effective training length and the row's number of non-zero coefficients. With criterion max the row with the smallest accumulated residual sum of squares is chosen. The selection does not depend on how the residual history was cut into calls beyond the path in force when each observation arrived.",
 ["histories","schedules","inputs","configurations"], "every batching schedule, weights, forget factor and criterion",
 "No test checks which row is selected after an update, or with weights or forgetting.",
 [LM, IC], [("residual sum of squares recursion", LM+": fit, update"), ("information criterion", IC)],
 [("_rss","accumulated residual sum of squares per path row", LM)], ["coef_", "coef_path_"])
prop("C06", "Distributional updates absorb every observation exactly once",
 "However many inner and outer iterations an online distributional regression needs, after each accepted call every distribution parameter's coefficients are those of the (penalised) weighted least-squares problem over all accepted observations, each entering once with its sample weight, the working weight and working response of the last iteration of the call that brought it, and discount (1-forget)^(number of later observations). The working quantities are those of iteratively reweighted least squares at the recorded fitted values, an update starts from the parameters the model was predicting before it, and each parameter's step uses the newest values of the others.",
 ["histories","schedules","inputs","configurations"], "every update history, batching, distribution, parameter order, per-parameter forget factor, method and iteration limits",
 "Coefficient tests cover one fit of four distributions; no test checks any coefficient after update, where repeated iterations could double count or lose an observation.",
 [GL, GR, RL, EN], [("iterate from the old gram, commit the new one at the end", GL+": _inner_update, update"), ("inner fit commit rule", GL+": _inner_fit")],
 [("_x_gram, _y_gram vs _x_gram_new, _y_gram_new","committed and in-flight sufficient statistics", GL)], ["coef_", "coef_path_", "debug information (documented _debug_* dictionaries)", "predict_distribution_parameters()"])
prop("C07", "Distributional model selection uses the discounted weighted history",
 "For path-based methods in distributional regression the served coefficients of each parameter are the path row minimising the chosen information criterion. The criterion is computed from the history of all accepted observations - each counted once with its sample weight and discount, as weighted working residuals (local_rss) or log-likelihood contributions (global_ll) - with the effective training length and the number of non-zero coefficients of the row plus those of the other parameters.",
 ["histories","schedules","inputs","configurations"], "every update history and batching, weights, forget factor, criterion and selection strategy",
 "No test updates a path-based distributional model and checks which row was selected.",
 [GL, IC, UT], [("model-selection recursion", GL+": _fit_select_model, _update_select_model"), ("running mean of working weights", UT+": online_mean_update")],
 [("_model_selection_data, _mean_of_weights","accumulated criterion data", GL)], ["coef_","coef_path_"])
prop("C08", "A rejected or failed call leaves no trace",
 "If fit, update or partial_fit raises - because the input is invalid (wrong shape, NaN or infinite values, response outside the distribution's support, bad weights, too few rows, singular design) or because an error such as a memory error, numerical error or interrupt strikes at any point inside the call - the estimator afterwards behaves exactly as if that call had either not happened or completed in full. Invalid input is refused as such, never absorbed, and the refusal never changes the model: predictions, counters and every later update or refit are identical to those of an estimator that never saw the call.",
 ["fault_sequences","crash_points","histories","inputs"], "every kind of invalid batch and every point inside a call at which an exception can strike, at any position of any history",
 "scikit-learn's estimator checks verify that bad input raises, never what state is left behind or that the next call still works.",
 [BE, LM, GL, SC], [("input validation before mutation", LM+", "+GL+", "+SC), ("state rollback", BE)],
 [("all fitted attributes","model state", BE)], ["predict*()", "coef_", "n_observations_", "is_fitted", "subsequent update()/fit()/partial_fit()"])
prop("C09", "Checkpoint, crash and replay reproduce the uninterrupted model",
 "A model saved with pickle (or deep-copied) at any point between calls and restored after a crash - in the same process or a fresh one with a different hash seed - continues exactly like the original: replaying the batches after the checkpoint gives bit-identical coefficients, counters, predictions and later updates to a run that was never interrupted. Saving or copying does not disturb the running model, and cloning yields an unfitted estimator that learns the same model from the same history.",
 ["crash_points","histories","fault_sequences","configurations"], "every crash point (between calls or inside one), checkpoint interval, lost or torn checkpoint write, and history",
 "Tests never pickle, copy or restart an estimator mid-history.",
 [GL, LM, SC, BE, FA], [("all state lives in picklable instance attributes", BE)],
 [("instance __dict__","the whole durable state", BE)], ["pickle round trip", "coef_", "predict*()", "update()"])
prop("C10", "Reads are pure and independent of concurrent requests",
 "Predictions, quantiles, scores, transforms and other read-only calls never change the model and depend only on the model and the row asked for: the same row gets the same answer whichever other rows share the request, in whatever order requests are made, and whichever thread interleaving concurrent readers of one model experience. Any later update gives the same result as if no read had happened.",
 ["schedules","histories","inputs"], "every interleaving of concurrent readers at source-line granularity, every grouping and order of read requests",
 "Tests are single-threaded and call predict once, on the training matrix.",
 [GL, LM, SC, BD], [("read paths compute on local copies", GL+": predict_distribution_parameters"), ("np.copy in transform", SC)],
 [], ["predict*()", "transform()", "score()"])
prop("C11", "Estimators sharing configuration objects do not influence each other",
 "Estimators that share distribution, estimation-method, equation, dictionary or array objects in their constructors learn exactly what they would learn alone, under any interleaving of their calls in one or several threads; the same holds for the parameters of one distributional model sharing a method object. Fitting and updating never modify the objects passed to the constructor, so get_params, clone and a second estimator built from them still see what the user passed, and per-parameter settings given as a dictionary are applied to the parameter named by the key in any key order.",
 ["schedules","histories","configurations"], "every interleaving of the calls of several estimators, every set of shared objects and partial or permuted per-parameter dictionaries",
 "Each test builds one estimator with its own objects and runs it alone.",
 [GL, LM, FA, EN, RI], [("copy of the estimation method per parameter", FA+": get_estimation_method"), ("parameter and equation normalisation", GL+": _process_parameter, _process_equation")],
 [], ["coef_", "get_params()", "predict*()"])
prop("C12", "Caller data is never modified, never retained, and any layout works",
 "Estimators and the scaler never write to the arrays, lists or frames passed to fit, update, predict or transform, and overwriting those buffers (or arrays the estimator returned) after the call returns cannot change the model or later results. Results are the same for any container and memory layout of the same numbers: C or Fortran order, strided views, read-only buffers, lists, data frames; an equation naming data-frame columns selects exactly those columns.",
 ["histories","schedules","inputs"], "every point at which a caller may reuse a buffer, for every call and container type along a history",
 "Tests pass fresh contiguous arrays and never reuse or inspect them afterwards.",
 [GL, LM, SC], [("np.copy in transform and design matrix", SC+", "+LM)],
 [], ["caller buffers", "coef_", "predict*()"])
prop("C13", "Every call terminates within its iteration limits",
 "Every fit and update of a distributional regression performs at most max_it_outer outer rounds with at most max_it_inner iterations per parameter, and each coordinate descent at most max_iterations plus one sweeps per penalty, whatever the data, the tolerances or the values the distribution's derivatives return, and then returns or raises. With valid data every admissible combination of iteration limits, prefit rounds, step sizes and cautious updates completes without an error, prefit rounds use a single inner iteration, and a loop ends before its limit only once the deviance has settled within the tolerances (or, in a fit, got worse). An update spends no further round, and no parameter a further iteration, once it has settled.",
 ["inputs","configurations","fault_sequences","histories"], "every data stream including outliers and non-finite working quantities, every combination of limits and tolerances",
 "Tests use default limits on well-behaved data.",
 [GL, CD], [("outer and inner loop exits", GL+": _outer_fit, _outer_update, _inner_fit, _inner_update"), ("sweep limit", CD+": online_coordinate_descent")],
 [("iteration schedule","inner iterations per outer round", GL)], ["number of derivative evaluations seen by the distribution", "return or exception"])
prop("C14", "Same history, same bits: diagnostics and reruns never change results",
 "Two estimators with the same configuration and the same history of calls end up bit-identical, whatever ran before in the process. Debug mode and every verbosity level, and reading diagnostics at any time, leave the coefficients, counters and predictions bit-identical to a silent run, and the recorded diagnostics describe the iterations that actually ran.",
 ["histories","schedules","configurations"], "every history, with diagnostics switched to any level and any other estimators active in between",
 "Tests run each scenario once with one verbosity.",
 [GL, BE], [("debug copies", GL+": _inner_fit, _inner_update"), ("no global state", S)],
 [("_debug_* dictionaries","recorded iterations", GL)], ["coef_", "predict*()", "get_debug_information()"])
prop("C15", "Served predictions are valid and coherent at every point of the stream",
 "After any history of accepted batches every predicted distribution parameter is finite and inside its support (a call whose estimation diverges raises and changes nothing), predicted quantiles are non-decreasing in the level, lie inside the distribution's support and match the predicted distribution, predict is its mean and predict_median its 50% quantile, with one row per input row. The link-scale prediction maps to the response-scale prediction through the link, and the reported contributions add up to the link-scale prediction.",
 ["histories","inputs","configurations"], "every distribution, update history (including boundary and outlying observations) and request",
 "Prediction tests call predict on one fitted model for shape only; no test predicts after updates or with the inflated distributions.",
 [GL, BD, S+"distributions"], [("link inverse maps into the parameter support", S+"links"), ("working-weight clipping keeps updates finite", GL+": _inner_update")],
 [], ["predict()", "predict_median()", "predict_quantile()", "predict_distribution_parameters()"])
prop("C16", "partial_fit is fit first, update afterwards, whatever went wrong before",
 "On every estimator a sequence of partial_fit calls gives bit-identically the model of fit on the first accepted batch followed by update on the later ones, and partial_fit, fit and update can be mixed freely with the same meaning. Batches that are rejected, at the beginning or later, do not change which call is made next, and is_fitted turns true exactly with the first accepted batch.",
 ["histories","fault_sequences","schedules"], "every sequence of accepted and rejected batches and every mixture of the three calls",
 "Tests call partial_fit at most once on valid data through scikit-learn's checks.",
 [BE, LM, GL, SC], [("dispatch on is_fitted", BE+": partial_fit")],
 [("n_observations_","presence marks a fitted model", BE)], ["is_fitted", "coef_", "predict*()"])
prop("C17", "Refitting forgets everything that came before",
 "Calling fit on an estimator that has been fitted and updated any number of times gives bit-identically the model, and the same behaviour under all later updates, as fit on a newly constructed estimator with the same parameters. This holds when the number of features, the data, or parameters changed with set_params differ from the earlier life of the estimator.",
 ["histories","configurations"], "every earlier history, including histories with other shapes, failures and changed parameters",
 "Tests never refit a model that has been updated.",
 [GL, LM, SC, FA], [("fit rebuilds all state", GL+": fit, _prepare_estimator"), ("fresh scaler and method per fit", LM+": _prepare_fit")],
 [], ["coef_", "predict*()", "n_observations_"])
prop("C18", "With forgetting, the model recovers once disturbances stop",
 "After any finite disturbance of the stream - outliers, a different regime, bursts, missing stretches, rejected batches and failed calls - an online distributional or linear model whose forget factor leaves a window 1/forget of at least 50 observations (20 for linear models) and that then receives clean batches from a fixed process reaches, within a bounded number of observations proportional to 1/forget, a predictive distribution whose expected log score is close to that of the true process. Without disturbance the same bound holds from the initial fit.",
 ["histories","fault_sequences","schedules","configurations"], "every disturbance history followed by a bounded clean tail, every distribution",
 "No test feeds more than one update or checks adaptation.",
 [GL, LM, GR, SC, S+"distributions"], [("exponential discounting of gramians", GR), ("online IRLS", GL)],
 [], ["predict_distribution_parameters()", "predict()"])
prop("C19", "Link functions invert and differentiate correctly",
 "Every link function's inverse undoes the link on its support and the reported derivatives are the derivatives of the link and of its inverse.",
 ["inputs"], "every link, every value in its support",
 "Tests sample a few grids.", [S+"links"], [("closed-form formulas", S+"links")])
prop("C20", "Distribution derivatives are the derivatives of the log-likelihood",
 "The first derivative, second derivative (or its documented expectation) and cross derivative each distribution reports agree with its log density.",
 ["inputs"], "every distribution, parameter vector and observation",
 "The tests that compare with R need rpy2 and do not run here.", [S+"distributions"], [("closed-form formulas", S+"distributions")])
prop("C21", "Density, distribution function, quantile function and sampling agree",
 "For every distribution the quantile function inverts the distribution function, whose derivative is the density, log versions are their logarithms, and random variates follow it with the documented shape.",
 ["inputs"], "every distribution, parameter vector and point",
 "Tests check shapes and a few values.", [S+"distributions", BD], [("scipy delegation and hand-written inflated versions", S+"distributions")])
prop("C22", "Information criteria follow their documented formulas",
 "AIC, AICc, BIC and HQC computed from a log-likelihood or a residual sum of squares equal their documented formulas.",
 ["inputs"], "all inputs", "Tests sample a few values.", [IC], [("formulas", IC)])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
