prop("C01", "Category probabilities are valid distributions for every respondent and item",
     "For every model family, parameter setting and latent score, each item's category probabilities are finite, non-negative, sum to one over the categories that item has, and are zero for categories it does not have. A respondent's probabilities do not depend on which other respondents are evaluated together with it, and evaluating again gives the same values.",
     ["inputs", "configurations"], "all model families, item/category layouts, latent dimensions, parameters and latent scores, including extreme ones",
     "Tests check a few shapes and mocked outputs per model; ragged category layouts, extreme scores and batch composition are not explored.",
     [BASE, M + "model_mix.py", M + "nested_logit.py", M + "graded_response.py", M + "monotone_nn.py", M + "surprisal_spline.py"],
     [("padding mask and softmax over the categories of each item", BASE + " probabilities_from_output"), ("model specific forward passes", M)],
     "Thousands of generated models and scores per run; float32 tolerance 5e-5.")
prop("C02", "Reported item parameters reproduce the model through the documented formulas",
     "Plugging the reported item parameters of the closed-form models (1PL, 2PL, 3PL, generalized partial credit, graded response, nominal response) into their documented formulas gives exactly the model's category probabilities, in both the default and the classical IRT parameterisation. Nested logit and mixed models give the probabilities that follow from their sub-models: the correct response has the correct-response model's probability, incorrect options share the rest according to the distractor model, and a mixed model's items are its sub-models' items in order.",
     ["inputs", "configurations"], "all closed-form models, masks, category layouts, answer keys and parameter values",
     "Tests compare shapes and a handful of hand set values.",
     [M + "one_parameter_logistic.py", M + "two_parameter_logistic.py", M + "three_parameter_logistic.py", M + "generalized_partial_credit.py", M + "graded_response.py", M + "nominal_response.py", M + "nested_logit.py", M + "model_mix.py"],
     [("item_parameters and forward of every model", M)],
     "Float64 reference formulas evaluated from the reported parameter tables.")
prop("C03", "Monotone models are monotone in the direction they report",
     "For the models that promise monotone curves (monotone neural networks, monotone polynomials, monotone B-splines, surprisal splines and the one- to three-parameter, partial credit and graded models), the expected item score is monotone in every latent variable, whatever the parameter values. The reported relationship direction of an item and latent variable is the direction the expected score really moves in, and zero for unrelated pairs.",
     ["inputs", "configurations"], "all parameter values, category layouts, masks, degrees, knots and activation settings of the monotone families",
     "Tests look at single random initialisations or mock the modules.",
     [M + "monotone_nn.py", M + "monotone_polynomial.py", M + "monotone_b_spline.py", M + "surprisal_spline.py", TM + "softplus_linear.py", TM + "monotone_polynomial.py", TM + "b_spline.py", TM + "negation_layer.py"],
     [("positivity constrained layers and cumulative category sums", TM), ("item_theta_relationship_directions", M)],
     "Sweeps over each latent variable for random (also strongly scaled and trained) parameters.")
prop("C04", "Item relationship masks hold before, during and after estimation",
     "When a model is built with an item/latent-variable relationship mask, a latent variable that is switched off for an item has no influence on that item's probabilities, for any parameter values and also after fitting. Related latent variables do influence the item.",
     ["inputs", "configurations", "histories"], "all maskable models, masks, parameters, and training histories with the available algorithms",
     "Tests check that the mask reaches the weights of a few freshly constructed models.",
     [M + "two_parameter_logistic.py", M + "nominal_response.py", M + "monotone_nn.py", M + "monotone_polynomial.py", M + "surprisal_spline.py", EST + "mml.py", EST + "jml.py"],
     [("free/fixed weights, masks multiplied in the forward passes", M)],
     "Influence observed by moving one latent variable at a time, before and after real fits.")
prop("C05", "The log-likelihood is the log probability of the observed responses",
     "The log-likelihood of a response is the logarithm of the probability the model gives to it, elementwise, summed over items and respondents, for every model. Missing responses contribute nothing, whatever placeholder they carry, and do not shift the others; the likelihood is additive over respondents and its gradient with respect to the latent scores is its true derivative.",
     ["inputs", "configurations"], "all models, category layouts, response matrices and missing patterns",
     "Tests use small matrices with one missing pattern and compare with values produced by the same code.",
     [BASE, M + "model_mix.py", M + "nested_logit.py", M + "graded_response.py", M + "three_parameter_logistic.py", M + "surprisal_spline.py"],
     [("log_likelihood", BASE)], "Compared with log of the model's own probabilities in float64; gradients with finite differences.")
prop("C06", "Expected scores and population item statistics match the probabilities",
     "The expected score of an item is the probability-weighted item score (the probability of the keyed answer for multiple choice items), individually or summed over the test. Population difficulty and discrimination are the averages over the given population that their documentation defines.",
     ["inputs", "configurations"], "all models, answer keys, latent scores and populations",
     "Tests mock probabilities for one layout.",
     [BASE], [("expected_scores, population_difficulty, population_discrimination", BASE)], "Float64 recomputation from the probabilities.")
prop("C07", "Gradients with respect to latent scores are true derivatives on every scale",
     "Gradients of category probabilities and expected scores are the derivatives of those curves, respondent by respondent, independent of the batch. With scale transformations attached, they are the derivatives with respect to the transformed scores (chain rule with the transformation's Jacobian), and asking for gradients never changes the caller's tensors.",
     ["inputs", "configurations"], "all models, latent scores and scale pipelines",
     "Tests check shapes and one mocked model.",
     [BASE, R + "bit.py", R + "flow.py", R + "rotate.py"], [("probability_gradients, expected_item_score_gradients, rescaled gradients", BASE)],
     "Richardson finite differences of the probabilities.")
prop("C08", "Fisher information equals its definition on every scale",
     "Item and test information equal the Fisher information computed from the category probabilities and their derivatives, as a matrix and for every requested direction. It is non-negative, additive over items, and on a transformed scale it is the information about the transformed scores.",
     ["inputs", "configurations"], "all models, latent scores, angles and scale pipelines",
     "Tests verify shapes and one value.",
     [BASE], [("information", BASE)], "Reference from float64 probabilities and gradients; closed form for the 2PL.")
prop("C09", "Scale transformations compose, invert and differentiate consistently",
     "A model's transformed latent scores are its added scale transformations applied in order; the inverse transformation undoes them in reverse order, and the reported Jacobian is the derivative of the whole pipeline. Estimated scores are returned on the transformed scale exactly when rescaling is requested, and detaching the transformations restores the original scale.",
     ["inputs", "configurations", "histories"], "all sequences of adding and detaching scales, latent dimensions and scores",
     "Tests use at most one scale at a time.",
     [BASE, R + "scale.py"], [("transform_theta, inverse_transform_theta, theta_transform_jacobian", BASE)], "Random pipelines of up to three real scales.")
prop("C10", "Splines and flows are increasing, invertible and carry the right density",
     "Rational quadratic splines are strictly increasing and finite over the whole real line, map their input bounds to their output bounds, are undone by their inverse, and report the logarithm of their slope inside and outside the bounds. Normalizing flows built on them have a density that integrates to one, and flow scales transform latent variables separately, keep the respondents' order, invert exactly, report their true Jacobian and bring fitted scores close to the requested distribution.",
     ["inputs", "configurations"], "all bin counts, bounds, parameters, base distributions and inputs",
     "Tests check shapes and round trips for one default spline.",
     [TM + "rational_quadratic_spline.py", TM + "neural_spline_flow.py", R + "flow.py"],
     [("spline forward/inverse and linear tails", TM + "rational_quadratic_spline.py"), ("log_prob", TM + "neural_spline_flow.py"), ("fit and standardisation", R + "flow.py")],
     "Double precision finite differences, numerical integration of the density, fitted flows.")
prop("C11", "Bit scores are the entropy change accumulated from the starting score",
     "A bit score is the accumulated absolute change of the selected items' entropies, in bits, when moving from the starting latent score to the respondent's score along one latent variable with the others at the population median (zero without a population). It is zero at and below the start, never decreases in the direction of increasing item scores, and its reported slope matches the curve; for multiple choice tests the start can be the latent score of random guessers.",
     ["inputs", "configurations"], "all smooth models, item subsets, starts, populations and scores",
     "Tests mock the model and compare with stored numbers.",
     [R + "bit.py", IU, "irtorch/outlier_detector.py"], [("grid accumulation", R + "bit.py transform"), ("entropy", IU)],
     "Independent float64 total variation of the entropy curves along a fine path.")
prop("C12", "Rank-based and reversing scale transformations do exactly what they say",
     "Rank scores are the requested distribution's quantiles at average rank / (n + 1) of the scores the scale was built from: order preserving, equal for ties, taken from the nearest known score for new respondents and independent of who is scored together. Reversal flips exactly the flagged latent variables and is its own inverse, with the matching Jacobian.",
     ["inputs", "configurations"], "all score samples including ties, distributions, flags and new scores",
     "Tests use one small sample.",
     [R + "rank_cdf.py", R + "reverse.py"], [("average ranks and inverse CDF", R + "rank_cdf.py"), ("sign flips", R + "reverse.py")],
     "scipy ranks and quantile functions as reference.")
prop("C13", "Rotations are invertible linear maps that simplify the loadings",
     "A rotation multiplies latent scores by its matrix, is undone by its inverse and has that matrix as Jacobian. Rotations computed from scores, loadings or data use the average expected-score slopes as loadings; orthogonal methods give orthogonal matrices that keep distances and total information, and varimax does not lower the varimax criterion.",
     ["inputs", "configurations"], "all rotation matrices, methods, models and scores",
     "Tests check one 2x2 matrix.",
     [R + "rotate.py", BASE], [("rotation and inverse", R + "rotate.py")], "Linear algebra in float64.")
prop("C14", "Linking through common items aligns the two scales",
     "A link maps scores of one model monotonically to another model's scale (decreasing only when declared inverted) so that the common items get matching probabilities; when the scales differ by a linear change, the fitted link recovers it. Its Jacobian is its slope, a spline link's inverse undoes it, the linked models keep their parameters, and impossible links are refused.",
     ["inputs", "configurations"], "pairs of models with common items in any position and order, both methods, both directions",
     "Tests mock the models and check shapes.",
     [R + "link_common_items.py", TM + "rational_quadratic_spline.py"], [("divergence loss over the common items", R + "link_common_items.py"), ("sign multiplier", R + "link_common_items.py")],
     "Constructed pairs with known relation; divergence recomputed independently.")
LS = [("latent_scores and its estimation methods", BASE)]
prop("C15", "Maximum likelihood scores are where the likelihood is largest",
     "Maximum likelihood latent scores maximise the likelihood of each respondent's observed responses: no other score is noticeably more likely, in one or several latent variables. A respondent's score does not depend on the order or presence of other respondents, missing responses are left out, a single respondent may be given as a vector, and impossible requests are refused.",
     ["inputs", "configurations"], "models with a well-defined maximum for global optimality, all differentiable models for local optimality; response patterns with interior maxima; missing patterns; batches",
     "Tests check shapes, or mock the optimiser.",
     [BASE], LS, "Independent grid and multi-start maximisation in float64.")
prop("C16", "MAP scores maximise likelihood times the latent prior",
     "Maximum a posteriori scores maximise the likelihood times a centred normal prior whose covariance is the one of the fitted model (marginal maximum likelihood), that of the training scores or, nothing fitted, the identity. They equal the prior mode without responses, shrink less under wider priors, and do not depend on the order or presence of other respondents or on how missing responses are coded.",
     ["inputs", "configurations"], "models, prior covariances, response and missing patterns",
     "Tests check shapes on one model.",
     [BASE, EST + "mml.py"], LS, "Independent multi-start maximisation of the posterior in float64.")
prop("C17", "EAP scores are posterior means",
     "Expected a posteriori scores are the posterior means of the latent variables under the centred normal prior of the fitted model or of the training scores, with missing responses left out; they converge to the exact posterior mean as the integration grid is refined, stay finite for very long tests, and do not depend on other respondents. More than four latent variables are refused.",
     ["inputs", "configurations"], "models with one to three latent variables, priors, grids, test lengths, missing patterns",
     "Tests check shapes on one model.",
     [BASE, EST + "mml.py"], LS, "Dense numerical integration in float64.")
prop("C18", "Standard errors describe the uncertainty of the scores they come with",
     "Standard errors of maximum likelihood scores are the square roots of the diagonal of the inverse of the information matrix, at the score, of the items the respondent answered (infinite for a latent variable those items say nothing about), on the scale the scores are returned on, and match the actual spread of estimates over simulated respondents. Scores from a variational encoder are its posterior means with its posterior standard deviations, carried to a transformed scale by the delta method.",
     ["inputs", "configurations"], "models, scores, transformations, autoencoder and variational fits",
     "Tests check shapes.",
     [BASE, EST + "vae.py", EST + "ae.py"], LS, "Information recomputed from probabilities; simulation of the estimator's spread.")
prop("C20", "A saved model behaves exactly like the original after loading",
     "After saving a model and loading it into a model of the same structure, category probabilities, item parameters, expected scores, scale transformations, latent scores, training data, training history and training scores are those of the saved model. Saving does not change the model; loading parameters of another shape is refused.",
     ["inputs", "histories"], "all model families, fitted with each algorithm or not, with all scale transformations",
     "One test saves one model and compares parameters.",
     [BASE, R], [("save_model, load_model", BASE)], "Bitwise comparison of observable behaviour through files in a scratch directory.")
prop("C21", "Marginal maximum likelihood maximises the marginal likelihood of the data",
     "The training loss of marginal maximum likelihood is minus the marginal log-likelihood of the observed responses under the model and the normal latent distribution with the given mean and covariance, up to the integration rule's accuracy; missing responses are left out. Its quadrature rule integrates low-order polynomials exactly, and fitting simulated data gives a model at least as likely as the one that generated them. Impossible requests are refused.",
     ["inputs", "configurations", "histories"], "models, covariances, both integration rules, data with missing responses",
     "Tests mock the model and check that fitting runs.",
     [EST + "mml.py", UT], [("integration points and marginal likelihood", EST + "mml.py"), ("gauss_hermite", UT)],
     "Reference marginal likelihood by independent float64 quadrature.")
prop("C22", "Fitting leaves a usable model that reflects the best state of training",
     "After fitting with any algorithm the model is in evaluation mode with finite parameters and probabilities, the algorithm with its training data, loss history and training scores is attached, the caller's data are unchanged and trainable parameters stay trainable. The same seed reproduces the fit exactly, training lowers the loss, the kept parameters belong to the best state of the run, no more epochs are run than asked for, and training stops by itself when the loss stops improving. A fit that is interrupted leaves a model that answers, and can be fitted, like any model with its parameters.",
     ["histories", "configurations"], "algorithms, models, data with missing responses, epoch limits and seeds",
     "Tests run one or two epochs and check attributes.",
     [EST + "base_irt_algorithm.py", EST + "mml.py", EST + "ae.py", EST + "vae.py", EST + "jml.py"], [("fit and training loops", EST)], "Real fits observed through their histories and results.")
prop("C23", "Autoencoder fits minimise the response loss and score with the encoder",
     "The autoencoder's training loss is the negative log-likelihood per respondent of the observed responses at the encoder's scores, its updates follow that loss's gradient for model and encoder, and missing responses are imputed for the encoder only. Training scores and later encoder scores are the trained encoder's output for each respondent separately, and fits recover the generating scores.",
     ["inputs", "histories", "configurations"], "models, encoder layouts, input encodings, imputations, batches and missing patterns",
     "Tests mock the encoder and check shapes.",
     [EST + "ae.py", EST + "encoders/standard_encoder.py", BASE], [("training loop and encoder input", EST + "ae.py")], "Losses, updates and scores recomputed from the encoder.")
prop("C24", "Variational fits maximise the evidence lower bound they document",
     "The variational autoencoder's training loss estimates the negative (importance weighted) evidence lower bound of the observed responses under a standard normal prior, with the divergence annealed linearly where annealing is on. Scores are posterior means of the trained encoder, credible intervals are the corresponding normal intervals, and samples follow the mixture of the respondents' posteriors; fits recover generating scores with honest posterior spread.",
     ["inputs", "histories", "configurations"], "models, importance samples, annealing, imputations, missing patterns",
     "Tests mock the encoder and check shapes.",
     [EST + "vae.py", EST + "encoders/variational_encoder.py"], [("loss, annealing, theta samples", EST + "vae.py")], "Monte Carlo reference with standard errors.")
prop("C25", "Joint maximum likelihood maximises the joint likelihood from the given start",
     "Joint maximum likelihood starts from the given scores, or from standardised sum scores of the observed responses, minimises the negative joint log-likelihood of scores and parameters with missing responses left out, in full or in batches, and ends at values at least as likely as those that generated the data. The caller's starting scores are left alone, and starts of the wrong shape are refused.",
     ["inputs", "histories", "configurations"], "models, starts, batch sizes, missing patterns",
     "Tests run two epochs and check shapes.",
     [EST + "jml.py"], [("training loop and starting scores", EST + "jml.py")], "Losses and first updates recomputed independently.")
EVM = [("evaluation methods", EV)]
prop("C26", "Residuals, infit and outfit follow their definitions",
     "Residuals are observed minus expected item scores (one minus the chosen answer's probability for multiple choice), missing where the response is and averaged as asked. Infit is the sum of squared score residuals over the sum of model variances and outfit the average squared standardised residual, per item or respondent; both are near one when the model holds. Left-out data are the training data, left-out scores are estimated by the method asked for, and nothing passed in is changed.",
     ["inputs", "configurations"], "all models, responses, missing patterns, levels",
     "Tests mock the model for one data set.",
     [EV], EVM, "Recomputed in float64 from probabilities.")
prop("C27", "Accuracy, precision and recall count the model's most probable answers",
     "The predicted answer is the item's most probable category. Accuracy is the share of observed responses that are predicted, overall, per item or per respondent; precision, recall and F1 are their usual definitions averaged over the item's categories, plainly or weighted by frequency. Missing responses do not count.",
     ["inputs", "configurations"], "all models, responses, missing patterns, levels",
     "Tests mock the model for one data set.",
     [EV], EVM, "Independent counting.")
prop("C28", "Evaluation log-likelihoods and grouped fit describe the right respondents",
     "The evaluated log-likelihood is that of the observed responses at the given or estimated scores, in total, per item or per respondent, summed or averaged over what was observed. Grouped fit orders respondents by a latent score, splits them in equal groups and reports for each group its mid point on the scale asked for, the observed category proportions among observed responses, the average model probabilities, raw residuals or residuals standardised by the binomial standard error of the item's observed responses, and the average log-likelihood of the group's own responses.",
     ["inputs", "configurations"], "all models, responses, missing patterns, group numbers, latent variables, scales",
     "Tests mock the model for one data set.",
     [EV, IU], EVM, "Recomputed in float64 from probabilities and ranks.")
prop("C29", "Sum score distributions are the model-implied distributions",
     "The sum score distribution has one probability per possible sum score (number correct for multiple choice), non-negative and summing to one: the convolution of the item score distributions averaged over the training scores, over the scores of given population data, over samples from the variational posterior, over the fitted model's latent distribution, or over a density fitted to the scores.",
     ["inputs", "configurations"], "all models, populations, density methods",
     "Tests mock the model for one layout.",
     [EV], EVM, "Independent convolution and integration.")
prop("C30", "Q3 is the correlation of residuals and its p-values are honest",
     "Q3 of two items is the correlation of their residuals over the respondents who answered both, labelled by item, undefined on the diagonal. Its p-values are two-sided tail shares under data simulated from the model at the same scores with the same responses missing: symmetric, between zero and one; items never answered together have none. Dependent items stand out and independent ones do not.",
     ["inputs", "configurations"], "all models, responses, missing patterns",
     "Tests mock the model for one data set.",
     [EV, IU], EVM + [("correlation_matrix", IU)], "Recomputed correlations and an independently simulated null distribution.")
prop("C31", "Mutual information differences compare observed with model-implied dependence",
     "The mutual information difference of two items is the mutual information of their observed responses (over respondents who answered both) minus that implied by the model at the given scores, in the base asked for, with its absolute value alongside, and undefined for items never answered together. P-values are the shares of larger absolute differences in data simulated from the model at those scores with the same responses missing.",
     ["inputs", "configurations"], "all models, responses, missing patterns, bases",
     "Tests mock the model for one data set.",
     [EV, IU], EVM + [("joint_entropy, entropy", IU)], "Recomputed mutual information in float64 and an independent null simulation.")
prop("C32", "Simulated responses follow the model's probabilities",
     "Simulated data have one whole-numbered category per respondent and item, drawn independently across respondents and items with the model's probabilities, never a category an item does not have, reproducible under a seed and without gradients or changes to the scores.",
     ["inputs", "configurations"], "all models and latent scores",
     "Tests check the shape.",
     [BASE], [("sample_test_data", BASE)], "Frequencies with six-sigma bounds over thousands of draws.")
prop("C19", "Asking a fitted model changes neither the model nor what is handed in",
     "Computing probabilities, scores, gradients, information, fit measures, plots, imputations or simulated data leaves the model's parameters, gradient flags, modes, scales, training data and training scores, and the tensors handed in, as they were, also when interrupted. Whatever was asked before, a question gets the answer a fresh copy of the model gives (random ones under the same seed). Models share no parameters or scales with other models or copies, and detaching scales restores the original.",
     ["histories", "inputs", "configurations"], "call histories over the public methods, all models, scales, fitted by all algorithms",
     "Tests make one call per mocked model; call histories and preservation of state are not explored.",
     [BASE, EV, "irtorch/plotter.py", UT, IU], [("public methods of models, evaluation and plots", BASE + ", " + EV + ", irtorch/plotter.py")],
     "Full state snapshots around every call and comparison with answers of pristine copies.")
prop("C33", "Latent densities are the distributions they claim to be",
     "A Gaussian mixture's density is the weighted sum of its normal components, non-negative and integrating to one, and its log-likelihood is that of the data. Fitting never lowers it, reproduces the data's mean and covariance, ends at a local maximum, and survives components without data; cross-validation picks a better number of components. Quantile transformation gives the normal quantiles of ranks, its density is the normal density of the transformed scores, and interpolation is linear between sorted points, extrapolating the edge slopes, finite with ties.",
     ["inputs", "configurations"], "data sets, dimensions, numbers of components, evaluation points",
     "Tests check shapes and one small mixture.",
     [TM + "gaussian_mixture_model.py", "irtorch/quantile_mv_normal.py", "irtorch/latent_variable_functions.py", EV],
     [("EM fit and density", TM + "gaussian_mixture_model.py"), ("quantile_transform, interp", "irtorch/latent_variable_functions.py")],
     "Compared with scipy densities in float64 and numerical integration.")
prop("C34", "Cross-validation holds every respondent out once and scores fairly",
     "Cross-validation fits every combination of hyperparameters once per fold to an untrained copy of the model, each respondent validating exactly once and training otherwise, with additional arguments reaching the fits. It reports one row per combination, in grid order, with the log-likelihood of the held out respondents averaged over folds. Nothing leaks between folds, combinations or into the model passed in, several processes give the result of one, and the data and the number of threads are as before.",
     ["inputs", "histories", "configurations"], "data sets, fold numbers, grids, algorithms, missing responses",
     "Tests mock the folds.",
     [UT], [("cross_validation and its workers", UT)], "A recording algorithm logs every fit; the log is checked offline.")
prop("C35", "Imputation fills in the missing responses and only those",
     "Imputation returns new data in which observed responses are unchanged and every missing response is filled in: by zero, by the item's mean over its observed responses, by an incorrect category of that item drawn uniformly (never the correct one), or by the item's rounded expected score at the prior mean. The data handed in are unchanged; unknown methods and missing requirements are refused.",
     ["inputs", "configurations"], "data sets, missing codes and patterns, models, methods",
     "Tests check one small table per method.",
     [UT], [("impute_missing", UT)], "Exact comparison per response; frequencies with six-sigma bounds.")
prop("C36", "Responses are coded, split, scored and summarised without loss",
     "One-hot coding, missing masks, item categories, sum scores and number correct scores are those of the observed responses, also for models built from data. Splitting puts each respondent in exactly one part. The same seed reproduces all random results. Quadrature rules have the mean, covariance and fourth moments asked for; conditional sum score distributions are convolutions; entropies, pairwise-complete correlations, regressions and guessing data follow their definitions.",
     ["inputs", "configurations"], "data sets, category layouts, missing codes, ratios, seeds",
     "Tests check single small examples.",
     [IU, UT, BASE], [("data helpers", IU), ("split_data, gauss_hermite, set_seed", UT)], "Independent numpy and scipy references.")
prop("C37", "Outliers lie beyond the quartile fences",
     "A value is an outlier exactly when it lies more than the factor times the quartile range below the first or above the third quartile of its variable, on the sides asked for, for the data itself and for new data judged against it; the smallest and largest non-outliers are the extreme values within the fences. Data are unchanged and impossible settings are refused.",
     ["inputs", "configurations"], "data sets with heavy tails and ties, factors, sides",
     "Tests check one small table.",
     ["irtorch/outlier_detector.py"], [("OutlierDetector", "irtorch/outlier_detector.py")], "numpy quantiles in float64.")
prop("C38", "The intermodel vigorish compares models through equivalent coins",
     "The intermodel vigorish of two models is the relative gain in the weight of the biased coins whose expected log-likelihoods equal the models' mean log-likelihoods per observed response, at the scores given or at each model's own estimated scores. It is zero of a model over itself, reverses consistently when the models are exchanged, and is positive for a model better than a coin flip.",
     ["inputs", "configurations"], "pairs of models, data sets, missing responses, score estimates",
     "Tests check one mocked pair.",
     [UT], [("imv", UT)], "Reference coin weights by bracketing root search.")
prop("C39", "Plots show the model's values at the scores on their axes",
     "Plots of entropy, information, log-likelihood, probabilities, slopes, expected scores and group fit show, at each score on the axis, the model's value at that score, on the transformed scale where asked for; ranges and values of the other latent variables are those given, or the range and median of the training scores on the plotted scale. Distribution, relationship, transformation and training history plots show the scores, average slopes, transformed scores and losses. Missing responses do not count.",
     ["inputs", "configurations"], "models, items, one or two plotted latent variables, scales, ranges, fixed values",
     "Tests check that a figure is returned.",
     ["irtorch/plotter.py"], [("Plotter", "irtorch/plotter.py")], "Figure data compared with values recomputed at the axis scores.")
prop("C40", "Bundled data sets are complete, sound and correctly keyed",
     "The bundled data sets have their documented respondents and items, whole category numbers from zero or missing responses, and answer keys under which the keyed answer is the one better respondents choose; the binary version follows from data and key, and changing returned data does not change the data set. The downloaded questionnaire is filtered, reversed and recoded as documented, and cached.",
     ["inputs", "configurations"], "all bundled data sets, generated stand-ins for the download",
     "Tests check the shapes.",
     ["irtorch/load_dataset.py"], [("loaders", "irtorch/load_dataset.py")], "Independent recoding of generated submissions; consistency statistics of the bundled data.")
prop("C41", "The constrained layers keep their constraints for every parameter value",
     "Softplus layers are linear with positive weights, connecting only the inputs and outputs of the same group and none that are switched off; direction layers multiply each related item by its direction; monotone polynomials are polynomials of their degree, monotone in each related input, additive and unaffected by unrelated ones; the bounded activation is increasing, bounded and has its slope as gradient, also vectorised; spline bases and their derivatives are the B-spline ones. Training rows keep responses, mask and encoder input together. Encoders of any depth have the layers asked for and encode each respondent alone in evaluation mode; bounded ones stay within minus one and one.",
     ["inputs", "configurations"], "layer layouts, groups, masks, degrees, knots, parameter values, data sets",
     "Tests check single layouts and shapes.",
     [TM + "softplus_linear.py", TM + "negation_layer.py", TM + "monotone_polynomial.py", TM + "b_spline.py", "irtorch/activation_functions.py", "irtorch/irt_dataset.py"],
     [("layers", TM), ("BoundedELU", "irtorch/activation_functions.py"), ("PytorchIRTDataset", "irtorch/irt_dataset.py")],
     "Weights recovered from responses to unit inputs; scipy spline references.")
prop("C42", "Models fitted in parallel are fitted as if alone",
     "Fitting several models at once returns them in order, each fitted exactly once to all the data with the arguments given, as it would be alone, with its own training data, history and scores and sharing nothing with the others, however many models and processes there are. The data and the number of threads are as before, also after a failing fit, which is reported. The verbosity level decides which messages are reported.",
     ["histories", "configurations", "schedules"], "numbers of models and processes, model kinds, algorithms, missing responses",
     "Tests mock the process pool.",
     [UT, "irtorch/config.py"], [("fit_multiple_models_cpu", UT), ("set_verbosity", "irtorch/config.py")], "A recording algorithm and comparison with sequential fits.")
prop("C43", "Storage of responses and scores does not change results",
     "The same responses give the same results however they are stored: as floats, doubles or integers of any size, with missing responses as NaN, -1 or both, in row or column order, or as part of a larger table. This holds for log-likelihoods, residuals, accuracies, predictions, fit statistics, group fit, dependence statistics, latent scores, imputation, item categories, one-hot codes, splits and for models fitted with the same seed. The same holds for the layout of scores, and neither responses nor scores are changed by a call.",
     ["inputs", "configurations"], "all model families and algorithms, eleven ways to store responses, four layouts of scores",
     "Tests use contiguous float tensors throughout.",
     [EV, BASE, UT, IU, EST + "jml.py"], [("evaluation", EV), ("log_likelihood, latent_scores", BASE), ("fit", EST + "jml.py")], "Metamorphic comparison between stored forms.")
