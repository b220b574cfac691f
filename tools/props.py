TECH = "contract-based deductive verification of the real Python source (PyVC: obligations discharged by normalisation + z3), cross-checked on the running code"
MODELS = "irtorch/models/"
BASE = MODELS + "base_irt_model.py"
NOTE = ("Every obligation generated from the current source is discharged for all sizes, parameters and data; floats are treated as reals and the torch/pandas operations as modelled "
        "(the models are compared with the installed libraries on every run). ")


def P(id, title, statement, over, text, why, files, mech, note="", observe=(), state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=list(state), mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None), note=NOTE + note)


PROPS = [
 P("P01", "Every IRT model returns a probability distribution per item",
   "For every fitted model and every latent score, the response probabilities of each item are non-negative, sum to one over its categories, and are zero for categories the item does not have; simulated test data are drawn from exactly that distribution.",
   ["inputs", "configurations"], "all latent scores, all parameter values (decreasing thresholds for the graded response model), any number of items, latent variables, respondents and categories per item",
   "Tests compare a handful of thetas, items and category counts with fixed parameters; the claim is for every size, every category pattern and every real parameter value.",
   [MODELS + f for f in ("base_irt_model.py", "one_parameter_logistic.py", "two_parameter_logistic.py", "three_parameter_logistic.py", "generalized_partial_credit.py", "graded_response.py", "nominal_response.py", "monotone_nn.py", "monotone_polynomial.py", "monotone_b_spline.py", "surprisal_spline.py", "nested_logit.py")] +
   ["irtorch/torch_modules/" + f for f in ("softplus_linear.py", "negation_layer.py", "monotone_polynomial.py", "b_spline.py")],
   [("softmax over the item's categories, missing categories masked with -inf", BASE + ":probabilities_from_output"), ("model forward", MODELS + "*.py:forward")],
   observe=["item_probabilities"]),
 P("P02", "Parametric models follow their published formula and parameter table",
   "The probabilities of the 1PL, 2PL, 3PL, generalized partial credit, graded response and nominal response models equal the textbook formula evaluated at the parameters the model reports in its item parameter table.",
   ["inputs", "configurations"], "all latent scores, all parameter values, any number of items, latent variables and categories per item",
   "Tests check shapes and a few values; that the table and the probabilities describe the same model must hold for every item, category pattern and parameter value.",
   [MODELS + f for f in ("one_parameter_logistic.py", "two_parameter_logistic.py", "three_parameter_logistic.py", "generalized_partial_credit.py", "graded_response.py", "nominal_response.py")],
   [("item_parameters", MODELS + "*.py:item_parameters"), ("forward / probabilities_from_output", MODELS + "*.py:forward")], observe=["item_parameters", "item_probabilities"]),
 P("P03", "Log-likelihood equals the sum of log probabilities of observed responses",
   "The log-likelihood of data under a model is the sum, over the responses that are not missing, of the log of the probability the model gives to that response; the per-response form lists them respondent by respondent with NaN for each missing response.",
   ["inputs", "configurations"], "all data sets, missing patterns, parameters and latent scores of any size",
   "Tests use one small data set and a mocked model; missing patterns, item counts and category patterns are unbounded.",
   [BASE, MODELS + "graded_response.py", MODELS + "three_parameter_logistic.py"],
   [("log_likelihood", BASE + ":log_likelihood")], observe=["log_likelihood"]),
 P("P04", "Items respond only to the latent variables they are related to",
   "When a model is given an item-to-latent-variable relationship matrix, the answers to an item depend only on the latent variables it is related to: changing all the other latent variables, by any amount and under any parameter values, leaves its probabilities unchanged, and its slopes on them are reported as zero.",
   ["inputs", "configurations"], "all relationship matrices (each item related to at least one latent variable), parameters, latent scores, category patterns and model options",
   "Tests inspect masks on one small matrix; the free parameters are packed in flat vectors and scattered through masks, so independence must hold for every matrix, size and parameter value.",
   [MODELS + f for f in ("two_parameter_logistic.py", "three_parameter_logistic.py", "generalized_partial_credit.py", "graded_response.py", "nominal_response.py", "monotone_nn.py", "monotone_polynomial.py", "surprisal_spline.py", "nested_logit.py")] +
   ["irtorch/torch_modules/" + f for f in ("softplus_linear.py", "negation_layer.py", "monotone_polynomial.py")],
   [("weights of unrelated latent variables stay zero (masks)", MODELS + "*.py:forward"), ("zero_outputs / free_weight masks", "irtorch/torch_modules/softplus_linear.py:SoftplusLinear.forward")],
   note="The neural network is verified with two latent variables (its modules are created in a loop over them). ", observe=["item_probabilities", "item_parameters"]),
 P("P05", "Monotone models are monotone in the reported direction",
   "In the monotone neural network, polynomial and B-spline models, the log-odds of each response category over the one below it (for multiple choice items: of the correct answer over every other one) never move against the direction the model reports for that item and latent variable, and hence neither does the expected item score, whatever the parameter values.",
   ["inputs", "configurations"], "all parameter values, latent scores, category patterns, relationship directions and model options",
   "Tests try a few grids with one random initialisation; monotonicity is a for-all over every real parameter vector and every point, and would break silently only in some regions.",
   [MODELS + f for f in ("monotone_nn.py", "monotone_polynomial.py", "monotone_b_spline.py")] + ["irtorch/activation_functions.py"] +
   ["irtorch/torch_modules/" + f for f in ("softplus_linear.py", "negation_layer.py", "monotone_polynomial.py", "b_spline.py")],
   [("non-negative weights and increasing activations", "irtorch/torch_modules/softplus_linear.py:SoftplusLinear.forward"), ("positive derivative polynomial", "irtorch/torch_modules/monotone_polynomial.py:MonotonePolynomialModule.forward"),
    ("increasing spline coefficients", MODELS + "monotone_b_spline.py:forward"), ("item_theta_relationship_directions", MODELS + "*.py:item_theta_relationship_directions")],
   note="Monotonicity is shown through the sign of the derivative of the forward expression; the step from log-odds to expected scores is ordinary mathematics and is checked on the running code. The derivative of the third-party B-spline basis is assumed to have non-negative tail sums. The neural network is verified with two latent variables. ",
   observe=["item_probabilities", "expected_scores", "item_theta_relationship_directions"]),
 P("P06", "Expected scores are the mean score under the item probabilities",
   "The expected item scores are the expectation of the item score (category index, or the probability of the correct category for nominal data) under the item probabilities, the total score is their sum over items, and an item's population difficulty is one minus its mean relative expected score.",
   ["inputs", "configurations"], "all latent scores, parameters, category patterns and correct-category lists of any size",
   "Tests mock the probabilities and compare a few numbers; the claim is for every model, size and category pattern.",
   [BASE, MODELS + "nominal_response.py"], [("expected_scores", BASE + ":expected_scores"), ("population_difficulty", BASE + ":population_difficulty")], observe=["expected_scores", "population_difficulty"]),
 P("P07", "Information functions equal the Fisher information of the model",
   "Item information is the expected outer product of the gradient of the log response probability, it is symmetric, test information is the sum of the item informations, and information in a direction is the quadratic form of the information matrix in the direction's cosines.",
   ["inputs", "configurations"], "all latent scores, parameters (strictly ordered thresholds for the graded response model), category patterns, numbers of latent variables and directions",
   "Tests check shapes and a mocked case; the identity must hold for every model and size, and involves derivatives that a sample of points cannot settle.",
   [BASE], [("information", BASE + ":information")], observe=["information"]),
 P("P08", "Reported gradients are the true derivatives",
   "probability_gradients and expected_item_score_gradients return the derivatives of the item probabilities and of the expected item scores with respect to every latent variable, with zero for categories that do not exist, and leave the caller's latent scores untouched; an item's population discrimination is the mean of those score gradients.",
   ["inputs", "configurations"], "all latent scores, parameters, category patterns and numbers of latent variables",
   "Tests compare shapes or single points; a derivative must agree everywhere, for every category and latent variable.",
   [BASE], [("probability_gradients", BASE + ":probability_gradients"), ("expected_item_score_gradients", BASE + ":expected_item_score_gradients")], observe=["probability_gradients", "expected_item_score_gradients"]),
 P("P09", "Scale transformations invert and compose in order",
   "Transforming latent scores and transforming back returns the original scores, for every single scale and for any sequence of scales attached to a model; scales are applied in the order they were added, and detaching them restores the original scale.",
   ["inputs", "configurations"], "all latent scores, invertible rotation matrices, reversal patterns and sequences of scales",
   "Tests check one scale at a time on one matrix; the composition order and the inverse must be right for every sequence and input.",
   [BASE, "irtorch/rescale/rotate.py", "irtorch/rescale/reverse.py", "irtorch/rescale/scale.py"],
   [("transform_theta / inverse_transform_theta", BASE + ":inverse_transform_theta"), ("Rotate", "irtorch/rescale/rotate.py"), ("Reverse", "irtorch/rescale/reverse.py")], observe=["transform_theta", "inverse_transform_theta"]),
 P("P10", "Scale Jacobians are exact and rescaled gradients obey the chain rule",
   "The Jacobian of a scale is the matrix of partial derivatives of its transform, the Jacobian of a sequence of scales is the derivative of the whole transformation, and gradients and information of a rescaled model are those of the original model mapped by the inverse Jacobian.",
   ["inputs", "configurations"], "all latent scores, invertible rotations, reversal patterns, sequences of scales, models and numbers of latent variables",
   "Tests use one latent variable or a diagonal Jacobian where a transposed or mis-ordered product goes unnoticed.",
   [BASE, "irtorch/rescale/rotate.py", "irtorch/rescale/reverse.py", "irtorch/rescale/scale.py"],
   [("theta_transform_jacobian", BASE + ":theta_transform_jacobian"), ("_rescale_gradients", BASE + ":_rescale_gradients")], observe=["theta_transform_jacobian", "probability_gradients", "information"]),
 P("P11", "Bit scores measure the entropy change of the items in bits",
   "The bit score of a latent score is the total change of the selected items' entropies, in bits, from the starting score to it in the direction of increasing expected scores, the other latent variables held at zero or at the population medians; it starts at zero, never decreases, and its slope is the sum of the items' absolute entropy slopes; the starting score by guessing is the median score of respondents who answer correctly with the guessing probability.",
   ["inputs", "configurations"], "all latent scores, models, parameters, selections of items, starting scores, populations and directions",
   "Tests compare shapes and monotonicity for one model; the base of the logarithm, the selected items, the direction and the position of the other latent variables are unbounded.",
   ["irtorch/rescale/bit.py", "irtorch/_internal_utils.py", "irtorch/outlier_detector.py"],
   [("jacobian", "irtorch/rescale/bit.py:jacobian"), ("transform, _compute_multi_dimensional_bit_scores", "irtorch/rescale/bit.py"), ("bit_score_starting_theta_mc", "irtorch/rescale/bit.py"), ("entropy, random_guessing_data", "irtorch/_internal_utils.py")],
   note="The slope is proved for one latent variable over the contracts of the model functions (P01, P06, P08); the score itself (a sorted, merged grid) and guessing are bounded checks on the running code. ", observe=["transform", "transform_to_1D", "jacobian"]),
 P("P12", "Missing responses are recognised, kept apart and imputed as documented",
   "NaN and -1 are both treated as missing everywhere; imputation replaces exactly the missing responses, by the value the method documents (zero, the item's observed mean, an incorrect category of the item, the rounded prior expected score), one-hot codes are one column per category with all zeros for a missing response, and the caller's data are left as they were.",
   ["inputs", "configurations"], "all response matrices and missing patterns (NaN, -1 or both), category patterns, correct-category lists and models",
   "Tests use a four-column matrix; which cells are missing, how they are coded and how many rows and categories there are is unbounded.",
   ["irtorch/utils.py", "irtorch/_internal_utils.py", "irtorch/irt_dataset.py"],
   [("impute_missing", "irtorch/utils.py:impute_missing"), ("impute_missing_internal / one_hot_encode_test_data / get_missing_mask", "irtorch/_internal_utils.py"), ("PytorchIRTDataset", "irtorch/irt_dataset.py")],
   observe=["impute_missing", "one_hot_encode_test_data", "PytorchIRTDataset[i]"]),
 P("P13", "Sum score distributions follow from the item probabilities",
   "The distribution of the sum score conditional on the latent scores is the distribution of a sum of independent item scores with the model's probabilities: adding an item convolves the distribution with that item's probabilities, the first item's distribution is its probabilities, and every respondent is treated alone; incorrect-response probabilities are the shares of the incorrect categories.",
   ["inputs", "configurations"], "all item probabilities, category patterns, numbers of items and respondents",
   "Tests check a few small cases; the recursion must be right after every item, for every category pattern.",
   ["irtorch/_internal_utils.py", "irtorch/utils.py"], [("conditional_score_distribution, sum_incorrect_probabilities", "irtorch/_internal_utils.py")],
   note="The enumeration of all response patterns is a bounded cross-check only (two and three items).", observe=["conditional_score_distribution"]),
 P("P14", "Spline, flow and linking scales are monotone bijections",
   "The rational quadratic spline maps its input interval increasingly onto its output interval through the knots its parameters define and continues linearly outside, its inverse undoes it, and the log determinant it returns is the log of its slope at every point; the flow and linking scales built on it standardise, transform, invert, reverse and differentiate accordingly, and the flow's log probability is the density of the scores under the change of variables.",
   ["inputs", "configurations"], "all inputs inside and outside the bounds, all parameters, bounds, numbers of bins and of variables, means and standard deviations, both directions",
   "Tests check a few points and that inverse(forward(x)) is close; a wrong slope in one bin, one tail or one direction shows only at other inputs.",
   ["irtorch/torch_modules/rational_quadratic_spline.py", "irtorch/torch_modules/neural_spline_flow.py", "irtorch/rescale/flow.py", "irtorch/rescale/link_common_items.py", "irtorch/activation_functions.py", "irtorch/torch_modules/softplus_linear.py"],
   [("_rational_quadratic_spline, _spline_transform, _compute_cumparams, _pad_derivatives", "irtorch/torch_modules/rational_quadratic_spline.py"), ("log_prob, inverse", "irtorch/torch_modules/neural_spline_flow.py"), ("transform, inverse, jacobian", "irtorch/rescale/flow.py"), ("transform, inverse, jacobian", "irtorch/rescale/link_common_items.py")],
   note="The round trip follows from the proved formula of either direction and the proved algebra of one bin (the root inverts the interpolant, slopes are positive, corners are met); the composition of these lemmas and inputs on both sides of a bound in one call are bounded checks on the running code, as is the order of two evaluations of the linking network.", observe=["forward", "inverse", "jacobian", "log_prob"]),
 P("P15", "Marginal likelihood and quadrature are the integrals they stand for",
   "The loss marginal maximum likelihood minimises is minus the log of the average, over the quadrature weights, of the likelihood of each respondent's observed responses under the model; for Gauss-Hermite the points and weights are those of the normal distribution with the given covariance; a missing response does not change it.",
   ["inputs", "configurations"], "all response matrices with missing responses, parameters, models, grids, weights and covariances",
   "Tests mock the model or check that the loss decreases; the integrand and weights must be right for every model, grid and missing pattern.",
   ["irtorch/estimation_algorithms/mml.py", "irtorch/utils.py"],
   [("_train_step / _marginal likelihood", "irtorch/estimation_algorithms/mml.py"), ("gauss_hermite", "irtorch/utils.py")], observe=["MML loss"]),
 P("P16", "Latent scores are the estimates their method names",
   "EAP scores are the mean of the posterior the model, the observed responses and the prior define over the quadrature grid, whatever the number of items; starting values and grids come from the training scores they are documented to use; and scores of a rescaled model are the original scores moved to the published scale.",
   ["inputs", "configurations"], "all response matrices with missing responses, parameters, priors (from scores or an estimated covariance), latent variables and scales",
   "Tests mock the estimation or compare shapes; which posterior is averaged, over which grid, with which missing responses left out, is unbounded.",
   [BASE], [("latent_scores, _eap_theta_scores, _ml_map_theta_scores, _create_grid, _prior_log_probabilities", BASE)],
   note="ML and MAP scores come from an iterative optimiser: a bounded check on the running code only.", observe=["latent_scores"]),
 P("P17", "The other estimation algorithms optimise the objective they name",
   "Autoencoder, variational autoencoder and joint maximum likelihood training minimise the negative log-likelihood of the observed responses under the model at the latent scores they hold (plus, for the variational algorithm, the importance weighted divergence from the standard normal prior); encoders have the documented layers, the sum scores they start from are those of the observed responses, and the reported latent scores are the encoder's means.",
   ["inputs", "configurations"], "all response matrices with missing responses, parameters, models, noise draws, annealing factors and encoder outputs",
   "Tests run a training step on a small mock and check that it ran; which quantity is minimised, and over which responses, is unbounded.",
   ["irtorch/estimation_algorithms/ae.py", "irtorch/estimation_algorithms/vae.py", "irtorch/estimation_algorithms/jml.py", "irtorch/estimation_algorithms/encoders/base_encoder.py"],
   [("AE", "irtorch/estimation_algorithms/ae.py"), ("VAE", "irtorch/estimation_algorithms/vae.py"), ("JML", "irtorch/estimation_algorithms/jml.py"), ("encoders", "irtorch/estimation_algorithms/encoders")],
   note="Encoder networks and joint maximum likelihood starting from sum scores inside the objective are bounded checks on the running code.", observe=["training losses", "theta_scores"]),
 P("P18", "A fit ends in the state that was recorded with the lowest loss",
   "Whatever the course of the losses and learning rates, training by marginal, joint or autoencoder-based maximum likelihood runs at most the requested number of epochs and stops earlier exactly when the learning rate was changed the requested number of times; the model (and the latent scores, or the encoder) then holds the values it had right after the earliest step (for the autoencoders: evaluation of the interval average) with the lowest loss, and the reported training scores belong to that state.",
   ["histories", "inputs"], "all numbers of epochs, mini-batches and evaluation intervals, all loss sequences and learning rate sequences, all sequences of parameter values the optimiser produces",
   "Tests run one or two epochs on mocks; which epoch is kept, whether the kept state is a copy and when training stops depend on the whole history of losses, which is unbounded.",
   ["irtorch/estimation_algorithms/" + f for f in ("mml.py", "jml.py", "ae.py", "vae.py")],
   [("MML training loop", "irtorch/estimation_algorithms/mml.py:_training_loop"), ("JML training loop", "irtorch/estimation_algorithms/jml.py:_training_loop"), ("autoencoder training loops", "irtorch/estimation_algorithms/ae.py:_training_loop, _train_step")],
   note="Loops are decided by invariants over the number of optimiser steps (no bound on epochs or batches); the optimiser and the scheduler are assumed to write arbitrary values. A loss that is not a number and batches skipped for batch normalisation are bounded checks on the running code.",
   observe=["model parameters after fit", "training_theta_scores", "training_history"]),
 P("P19", "Evaluation measures equal their definitions on the observed responses",
   "Residuals, accuracy, infit and outfit, group fit, observed and model-implied proportions, log-likelihoods and sum score probabilities equal their published definitions computed from the model's probabilities at the given latent scores, over the responses that are observed; missing responses never count, and groups partition the respondents by latent score.",
   ["inputs", "configurations"], "all response matrices and missing patterns, latent scores, models, group counts and aggregation levels",
   "Tests mock the model on four respondents without missing data; missing patterns, category patterns and group boundaries are unbounded.",
   ["irtorch/evaluator.py", "irtorch/_internal_utils.py", "irtorch/utils.py"],
   [("Evaluator", "irtorch/evaluator.py"), ("correlation_matrix, joint_entropy_matrix", "irtorch/_internal_utils.py")],
   note="Q3, mutual information difference, the prediction table and correlations of incomplete data are bounded checks on the running code.", observe=["Evaluator.*"]),
 P("P20", "A saved model answers like the model that was saved",
   "A model of the same structure that loads a saved file gives the outputs, training scores and scale transformations of the model that was saved, whatever its own parameters were and whatever happened to the saved model after saving.",
   ["inputs", "histories"], "all parameters, latent scores, training scores, sequences of scales and later changes to the saved model",
   "Tests save one model and compare keys; every parameter, buffer and scale has to come back, and none may stay shared with the saved model.",
   [BASE], [("save_model / load_model", BASE)], note="Neural network, spline and nested models are bounded checks on the running code.", state=[dict(name="saved file", meaning="state dict, algorithm and scale list of the model", where=BASE + ":save_model")], observe=["save_model", "load_model"]),
 P("P21", "Data utilities partition and describe the data; cross-validation holds out",
   "Splitting keeps every respondent exactly once in the requested proportion, cross-validation folds partition the respondents, the score of a parameter combination is the mean held-out log-likelihood of models fitted from scratch on exactly the other folds, guessing data answer correctly with the guessing probability and choose distractors equally often, the parameter grid holds every combination once, item categories are the highest observed response plus one, and the Gauss-Hermite rule integrates the multivariate normal moments it is built for.",
   ["inputs"], "all data sets, ratios, fold counts, grids and normal distributions",
   "Tests look at sizes for one data set; a lost or duplicated respondent for other sizes goes unnoticed.",
   ["irtorch/utils.py"], [("split_data, _prepare_cross_validation_data, _create_param_grid, get_item_categories, gauss_hermite", "irtorch/utils.py")], observe=["split_data", "cross_validation", "random_guessing_data", "get_item_categories", "gauss_hermite"]),
 P("P22", "Rank based transformations follow the ranks of the scores",
   "The normal scores of a sample are the normal quantiles of rank / (n + 1); a rank scale gives every latent score the quantile of the average rank of the training score nearest to it; interpolation is linear between the sorted points and continues outside with the end slopes.",
   ["inputs", "configurations"], "all samples without and with ties, latent scores, points in any order, distributions and numbers of variables",
   "Tests check monotonicity and one tie; ranks, ties, neighbours and end slopes are decided for all samples here.",
   ["irtorch/latent_variable_functions.py", "irtorch/rescale/rank_cdf.py"],
   [("quantile_transform, interp", "irtorch/latent_variable_functions.py"), ("RankCDF", "irtorch/rescale/rank_cdf.py")],
   note="The normal scores are proved for samples without ties; interpolation and the rank scale sort and search and are bounded checks on the running code. ", observe=["quantile_transform", "interp", "RankCDF.transform"]),
 P("P23", "Latent densities are the distributions fitted to the scores",
   "A Gaussian mixture's density is the weighted sum of its normal densities and its log-likelihood the sum of the logs over the observations; a fitting iteration sets weights, means and covariances to those of the observations weighted by their probability of each component; the multivariate normal has the mean and covariance of the data; and the density of a quantile multivariate normal is that of the data.",
   ["inputs", "configurations"], "all data, weights, means and positive definite covariances, one to three components, any number of variables and observations",
   "Tests check one fitted example; the formula has to hold for every component, parameter and data set.",
   ["irtorch/torch_modules/gaussian_mixture_model.py", "irtorch/quantile_mv_normal.py", "irtorch/latent_variable_functions.py"],
   [("pdf, forward, fit", "irtorch/torch_modules/gaussian_mixture_model.py"), ("fit_multivariate_normal, pdf", "irtorch/quantile_mv_normal.py")],
   note="Loops over components are unrolled for one, two and three components; the normal log density of the installed library is taken as given; the quantile multivariate normal's density is a bounded check. ", observe=["pdf", "fit"]),
 P("P24", "Analysing data never modifies the caller's data or the fitted model",
   "Asking a fitted model for probabilities, likelihoods, scores, gradients, information or evaluations, rescaling latent scores, looking for outliers, preparing and splitting data, and training on data leave the tensors and lists the caller passed in (responses, latent scores, model outputs, masks, gradients, matrices) as they were; all but training also leave the model's parameters and buffers as they were, and asking again gives the same answer.",
   ["inputs", "histories"], "all data with missing responses, latent scores, parameters, models and sizes",
   "Tests look at results, not at the arguments after the call; an in-place update shows only for some inputs (a missing response, a scale, a category that does not exist) and in the next call.",
   [BASE, "irtorch/evaluator.py", "irtorch/_internal_utils.py", "irtorch/utils.py", "irtorch/outlier_detector.py", "irtorch/irt_dataset.py", MODELS + "graded_response.py", MODELS + "nominal_response.py", "irtorch/rescale/reverse.py", "irtorch/rescale/rotate.py", "irtorch/torch_modules/negation_layer.py", "irtorch/estimation_algorithms/ae.py", "irtorch/estimation_algorithms/vae.py"],
   [("in-place tensor operations on fresh copies only", BASE), ("Evaluator", "irtorch/evaluator.py"), ("missing data helpers", "irtorch/_internal_utils.py")],
   note="Functions whose results are pandas tables, iterative estimation and whole training runs are bounded checks on the running code. ", observe=["arguments after the call", "parameters after the call"]),
 P("P25", "Outliers are the values outside the interquartile fence",
   "A value is reported as an outlier exactly when it lies outside the fence of the requested sides, the fence being the quartiles of its column extended by factor times the interquartile range; new observations are judged by the same fence and the extreme non-outlier is the most extreme value inside it.",
   ["inputs", "configurations"], "all data, factors of at least one and sides",
   "Tests use one column with an obvious outlier; boundary behaviour and the choice of sides are decided for all data here.",
   ["irtorch/outlier_detector.py"], [("OutlierDetector", "irtorch/outlier_detector.py")], observe=["identify_outliers", "is_outlier", "smallest_largest_non_outlier"]),
]
NA = {}
