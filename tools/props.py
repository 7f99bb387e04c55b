# One row per property: id, title, statement, over, quantifier text, why tests can't, files, mechanisms, bounds note
W = "The existing tests run the function on one or two literal inputs, print the result and pass whenever nothing crashes; "
P = []
def prop(id, title, st, qt, why, files, mech, bounds, over=("inputs",), observe=()):
    P.append(dict(id=id, title=title, statement=st, over=list(over), qtext=qt, why=W + why, files=files, mech=mech, bounds=bounds, observe=list(observe)))
C = "src/core/common.hpp"
KD = "src/core/tree/kd_tree.hpp"
prop("C01", "kNN tree queries return exactly the k nearest points",
  "For every point set, query point, leaf size and metric (Euclidean, Manhattan, Chebyshev), a k-nearest-neighbour query of the KD-tree with k not above the number of points returns k distinct valid indices whose reported distances are exact and ascending, such that no other point is closer than any of them. Unknown metrics and requests for more neighbours than points are rejected.",
  "all points and queries, duplicates and collinear sets included, metrics and leaf sizes", "pruning errors show only for particular positions of query and points", [KD, "src/core/metric.hpp", C],
  [("tree construction", "tree::KDTree::build_tree"), ("branch pruning", "tree::KDTree::query_single_data, check_intersection")], "up to 5 arbitrary points in 1-D, 3-4 partly arbitrary and 7 fixed points in 2-D with an arbitrary query, k up to 4", over=("inputs", "configurations"))
prop("C02", "Radius tree queries return exactly the points within the radius",
  "For every point set, query, radius, leaf size and metric, a radius query of the KD-tree returns for each query row, in order, exactly the indices of all points at distance at most the radius (points exactly on the ball included), each once and with its exact distance; a query without neighbours gets an empty answer.",
  "all points, queries and radii, boundary cases included", "boundary and pruning errors need specific positions", [KD],
  [("range pruning", "tree::KDTree::query_radius, check_intersection")], "up to 5 arbitrary points in 1-D, 3-4 partly arbitrary and 6 fixed points in 2-D", over=("inputs", "configurations"))
prop("C03", "Sorting returns an ordered permutation of its input, ties in order",
  "Sorting a matrix along an axis, or a vector of vectors by rows or by one column, returns a rearrangement of exactly the input values (whole rows for row sorting) in ascending order. Argsort returns, for every line, a permutation of the positions that lists the values in the requested direction, equal values keeping their original order. An axis that does not exist is rejected.",
  "every matrix/vector content of the bounded shapes, including ties, both axes, both orders", "orderings and ties of arbitrary values are quantified over all inputs", [C],
  [("argsort of a flattened matrix / a vector", "common::argsort"), ("sort along an axis", "common::sort"), ("row comparator", "common::sortrows")], "matrices up to 4 entries per line, vectors up to 5, all real contents")
prop("C04", "argmax/argmin/clip/fmin/where select what their names promise",
  "Argmax and argmin return, for each line of a matrix along the chosen axis, the first position whose value is extreme in that line. Clipping and element-wise minimum return for each element exactly the bounded (or smaller) value, where-selection takes each element from the first alternative exactly when its condition holds, and the map maximum returns the key of a largest value. An axis that does not exist is rejected.",
  "all contents of bounded shapes, ties included", "first-of-ties and boundary values need all inputs", [C],
  [("argmax/argmin", "common::argmax, common::argmin"), ("clip", "common::clip"), ("element-wise minimum", "common::fmin"), ("selection", "common::where"), ("largest map value", "common::max_element")], "matrices up to 3x3 / lines of 4")
prop("C05", "Stacking, flattening, slicing, repeating and merging lose nothing",
  "Horizontal and vertical stacking, row-major flattening, vector-to-matrix conversion, tiling, alternating merge and inclusive slicing each return exactly the input elements at the positions their definition fixes. A slice is rejected exactly when its (inclusive) range leaves the array or is reversed, and incompatible shapes or ragged rows are rejected.",
  "all element values, every start and end of a slice within and one past the array", "index arithmetic at every range boundary is not sampled", [C],
  [("stacking", "common::hstack, common::vstack"), ("flatten / vec2mat", "common::flatten, common::vec2mat"), ("repeat", "common::repeat"), ("slice", "common::slice"), ("merge", "common::merge")], "shapes up to 3x3, slices of up to 3x3 and 4 elements, all start/end values", over=("inputs",))
prop("C06", "Set-like operations on values and rows are exact",
  "Unique returns the distinct values ascending, each with an index at which it occurs; removing duplicate rows keeps the first occurrence of each distinct row in input order. Set difference returns, ascending and without repeats, exactly the elements of the first sequence absent from the second; containment and equality hold exactly when every element is present, respectively when the sequences are identical. Combinations of size k lists every k-subset of positions exactly once.",
  "all contents of bounded sizes, with every pattern of repeats", "patterns of equal elements are quantified over", [C],
  [("unique", "common::unique"), ("row dedup", "common::remove_duplicate_rows"), ("difference", "common::difference"), ("subset / equality", "common::contains, common::is_equal"), ("combinations", "common::combinations")], "up to 4 values or 4 rows, combinations up to 6 choose 4; inputs of the unsorted variant of difference are sorted ascending")
E_ = "src/core/math/extmath.hpp"; O = "src/core/math/ops.hpp"
prop("C07", "Means, variances, covariance, median, mode and sums match definitions",
  "Mean, population variance, sum, cumulative sum, centring, covariance (divisor n-1), median, mode and squared norm, over all elements or along an axis, equal their textbook definitions for every input. The mode is a most frequent value together with its count, the smallest element when all values differ. Unknown axes are rejected.",
  "all real matrix contents of bounded shape, both axes and the whole-array variants", "algebraic identities must hold for every content", [O, E_],
  [("statistics", "math::mean, math::var, math::median, math::mode, math::cov, math::center, math::cumsum")], "matrices up to 3x3 (median lines up to 4), real arithmetic")
prop("C08", "Distances and norms are metrics; regression scores match definitions",
  "Euclidean, Manhattan and Minkowski distances and the matrix/row norms equal their definitions, are symmetric, zero exactly for equal points, and satisfy the triangle inequality. The mean error score is the mean squared difference and the explained variance score is one minus residual variance over target variance (one for a perfect prediction). Inputs of different length are rejected.",
  "all real points of bounded dimension", "metric axioms quantify over all pairs and triples of points", ["src/core/metric.hpp", C, E_],
  [("distances", "metric::euclidean_distance, manhattan_distance, minkowski_distance"), ("norms", "common::norm, math::row_norms"), ("scores", "metric::mean_absolute_error, metric::explained_variance_score")], "up to 3 dimensions, 3 samples; triangle inequality for Manhattan up to 2 dimensions and Euclidean in 1")
prop("C09", "Sigmoid, softmax, logsumexp and Gaussian density are exact and finite",
  "The sigmoid lies in [0,1] and equals 1/(1+exp(-x)); softmax rows are non-negative, sum to one and equal the normalised exponentials; logsumexp equals the logarithm of the sum of exponentials; the Gaussian helper equals the log density. Sigmoid, softmax and logsumexp never overflow to infinity or NaN for finite inputs, nor lose a row to underflow.",
  "all real inputs up to magnitude 1000, both axes", "overflow for large magnitudes appears only outside the sampled literals", [E_, "src/core/math/proba.hpp"],
  [("max-shifted exponentials", "math::softmax, math::logsumexp"), ("sigmoid", "math::sigmoid"), ("Gaussian", "math::gaussian_fn")], "matrices up to 3x3; exp/log as uninterpreted functions with their algebraic laws, overflow threshold 709, underflow to zero below -746")
prop("C10", "Entropy and Gini impurity equal their weighted definitions",
  "The entropy and Gini impurity of a label vector equal the (sample-weighted) definitions over the class frequencies, are zero for pure labels, and Gini stays within [0,1). A weight vector of the wrong length is rejected.",
  "all label patterns and all positive weights of bounded length", "the partition of labels into classes and the weights are quantified", [E_],
  [("impurity", "math::entropy, math::gini")], "up to 4 labels, weights in (0,8]")
L = "src/core/loss/"
prop("C11", "Every loss gradient is the derivative of the loss value it reports",
  "For each of the five losses (squared, log, hinge, Huber, softmax) and each regularisation setting, the gradient returned for given data, labels and weights is the partial derivative, with respect to each weight, of the value returned for the same arguments, wherever that value is differentiable.",
  "all data, labels, weights and regularisation strengths of bounded shape", "the gradient identity over all inputs is not asserted by any test", [L + f for f in ("mean_squared_error.hpp", "log_loss.hpp", "hinge_loss.hpp", "huber_loss.hpp", "softmax_loss.hpp")],
  [("value/gradient pairs", "loss::*::evaluate, loss::*::gradient")], "up to 3 samples, 2 features, 3 classes; kinks excluded")
prop("C12", "Loss values equal their definitions, penalties and averaging included",
  "The value of each loss equals its definition: squared error, log loss of the sigmoid and softmax cross-entropy averaged over the samples, hinge max(0, threshold - margin) and Huber with its threshold summed over them. The configured penalty is included, and with the default configuration there is none where the loss says so. Log and softmax losses and their gradients stay finite and exact however far the scores are from zero or from each other.",
  "all data, labels, weights and penalties of bounded shape", "tests never compare a loss value with its definition", [L + f for f in ("mean_squared_error.hpp", "log_loss.hpp", "hinge_loss.hpp", "huber_loss.hpp", "softmax_loss.hpp")],
  [("loss values", "loss::*::evaluate")], "up to 3 samples, 2 features, 3 classes; scores up to 2000 with exp underflowing to zero below -746 and overflowing above 709")
LB = "src/core/optimizer/lbfgs/"
prop("C13", "A line search accepts only steps meeting its condition, or reports failure",
  "When a line search succeeds, the accepted step satisfies the configured condition (sufficient decrease; plus the curvature condition for Wolfe; plus the strong curvature condition for strong Wolfe), and the returned point, value and gradient belong to that step. It tries x + step*d points only, never more than its trial limit, gives up only at its limits, and reports failure by a negative code; only a non-positive step or an ascent direction is rejected as input.",
  "every objective/gradient oracle (each returned value arbitrary), every direction and parameter within range", "the condition must hold for every objective, not one quadratic", [LB + "search_policies/backtracking.hpp", LB + "search_policies/bracketing.hpp", LB + "params.hpp"],
  [("backtracking", "optimizer::LineSearchBacktracking::search"), ("bracketing", "optimizer::LineSearchBracketing::search")], "up to 3 trials, dimension up to 2", over=("inputs", "histories", "configurations"))
prop("C14", "L-BFGS follows BFGS directions, never goes uphill, stops when documented",
  "Starting at the given point, every trial point of the quasi-Newton optimizer lies on the line through the current point along minus the BFGS inverse-Hessian approximation (built from the last m updates) times the gradient. The objective never increases from one accepted point to the next, the optimizer stops exactly at gradient tolerance, objective-change tolerance over the configured past, line-search failure or the iteration limit, and returns the last accepted point.",
  "every objective/gradient oracle, start point and tolerance within the iteration bounds", "tests see one dataset; the recursion over histories is not sampled", [LB + "lbfgs.hpp"],
  [("two-loop recursion and stopping", "optimizer::LBFGS::optimize")], "up to 4 iterations and 2 dimensions (3 memory pairs), in part with gradients from a small fixed set", over=("inputs", "histories", "configurations"))
SG = "src/core/optimizer/sgd/"
prop("C15", "SGD visits each sample once per epoch and takes exact gradient steps",
  "Each epoch of stochastic gradient descent visits disjoint batches of correctly aligned samples (in order when not shuffled) and moves the weights by exactly minus the decayed learning rate times the (clipped) gradient at the current weights. It stops exactly when the epoch loss has failed to improve by the tolerance for the configured number of consecutive epochs, returns the last weights then, and throws when it never converged.",
  "every loss oracle, start weights, learning rate, tolerance and every shuffle", "stopping and alignment depend on the loss history and shuffle order", [SG + "sgd.hpp", "src/core/optimizer/base.hpp"],
  [("epoch loop", "optimizer::SGD::optimize"), ("shuffling", "random::shuffle_data")], "up to 4 samples, 4 epochs, 2 features", over=("inputs", "histories", "configurations"))
prop("C16", "SAG steps along the average of the latest gradient of every batch",
  "Each step of stochastic average gradient moves the weights by exactly minus the decayed learning rate times the average, over all batches, of the most recent (clipped) gradient computed for each batch (zero before its first). Batches, stopping, returned weights and the error on non-convergence follow the same rules as stochastic gradient descent.",
  "every loss oracle, start weights, learning rate, tolerance and every shuffle", "the gradient memory only shows over several steps of arbitrary gradients", [SG + "sag.hpp"],
  [("gradient table", "optimizer::SAG::optimize")], "up to 4 samples, 3 batches, 5 epochs, 2 features", over=("inputs", "histories", "configurations"))
prop("C17", "Truncated gradient shrinks each weight by the penalty, never past zero",
  "Each step of the truncated-gradient optimizer takes the plain gradient step and then moves every weight towards zero by the cumulative penalty (learning rate times alpha times l1 ratio, summed over the steps so far), stopping at zero instead of changing sign. Batches, stopping, returned weights and the error on non-convergence follow the same rules as stochastic gradient descent.",
  "every loss oracle, start weights, learning rate, alpha, l1 ratio and shuffle", "sign cases and clipping at zero depend on all values", [SG + "tg.hpp"],
  [("truncation", "optimizer::TruncatedGradient::truncate")], "up to 2 batches, 4 epochs, 3 features", over=("inputs", "histories", "configurations"))
prop("C18", "Coordinate descent moves only the best coordinate to its soft threshold",
  "Each iteration of stochastic coordinate descent evaluates the gradient on all (aligned) samples and changes exactly one coordinate: the one whose soft-thresholded minimiser decreases the beta-smooth l1 model most, set to that minimiser. It runs exactly the configured number of iterations and returns the last weights.",
  "every gradient oracle, start weights, beta from {1/2,1,3}, lambda and shuffle", "the choice of coordinate compares arbitrary gradients", [SG + "scd.hpp"],
  [("coordinate choice", "optimizer::SCD::optimize")], "up to 3 features and 2 iterations; any beta in one dimension (thorough)", over=("inputs", "histories", "configurations"))
prop("C19", "Decay and update policies follow their formulas over every history",
  "Step decay and exponential decay give, for every epoch, exactly lr*gamma^floor(epoch/step) and lr*exp(-gamma*epoch), never increasing for gamma within (0,1] resp. non-negative. The vanilla, momentum and Nesterov updates follow their velocity recurrences over any sequence of gradients, the velocity surviving from one batch and epoch to the next.",
  "all parameters, epochs and gradient sequences within bounds", "the recurrence shows only over several arbitrary steps", [SG + "decay_policies/step_decay.hpp", SG + "decay_policies/exponential_decay.hpp", SG + "update_policies/vanilla_update.hpp", SG + "update_policies/momentum_update.hpp", SG + "update_policies/nesterov_momentum_update.hpp"],
  [("decay", "optimizer::StepDecay::compute, optimizer::ExponentialDecay::compute"), ("updates", "optimizer::*Update::update")], "epochs up to 31, 3 consecutive updates", over=("inputs", "histories"))
prop("C20", "Train/test and feature splits partition the samples, rows kept intact",
  "Splitting into train and test sets assigns every sample to exactly one side with its features and label together, the train side having floor(n*fraction) samples, and keeps the order when not shuffling. Dividing on a feature puts each row index on exactly one side in row order: left when the feature is not above the threshold, right when it is.",
  "all contents, every fraction in [0,1], every shuffle, every threshold", "fractions at rounding boundaries and shuffles are not sampled", ["src/core/data/split.hpp"],
  [("train/test split", "data::train_test_split"), ("threshold split", "data::divide_on_feature")], "up to 7 samples unshuffled, 5 shuffled")
prop("C21", "Shuffles and permutations are bijections; random draws stay in range",
  "Shuffling data returns every sample exactly once with its label attached, a permutation of a matrix rearranges its whole rows or columns without changing them, and random matrices and integers have the requested shape and lie within the requested range, for every outcome of the random source.",
  "every outcome of the random source, all contents", "tests see one random outcome", ["src/core/math/shuffle.hpp", "src/core/math/random.hpp"],
  [("shuffling", "random::shuffle_data, random::permutation"), ("drawing", "random::rand, random::randint, random::randn")], "up to 4 samples or lines; the random source returns arbitrary values in its contract range", over=("inputs", "schedules"))
LM = "src/methods/linear_model/"
prop("C22", "Linear regression returns the least-squares solution and predicts with it",
  "For every design matrix of full column rank and every target vector, the fitted weights (one per feature, plus one for the intercept column when it is enabled) leave a residual orthogonal to every column of the design, so no other weights have a smaller squared error, and equal the true weights when the targets are exactly linear. Predictions for new rows are the linear score, intercept included, and a second fit forgets the first.",
  "all full-rank designs and targets of bounded shape, all new rows", "optimality against every other weight vector is a statement over all inputs", [LM + "linear_regression.hpp", LM + "base.hpp"],
  [("normal equations", "linear_model::LinearRegression::fit"), ("linear score", "linear_model::BaseLinearModel::predict_label")], "arbitrary 3x1 and 2x2 designs, fixed 5x3 designs with arbitrary targets")
prop("C23", "Ridge regression minimises the penalised squares at any penalty",
  "For every design (rank-deficient ones and fewer samples than features included), every target vector and every positive penalty, the gradient of half the squared error plus half the penalty times the squared weights vanishes at the fitted weights, so they are the unique minimiser. The default penalty is one half with intercept; predictions are the linear score and a second fit forgets the first.",
  "all designs, targets, positive penalties and new rows of bounded shape", "optimality and the role of the penalty are never asserted", [LM + "ridge_regression.hpp", LM + "base.hpp"],
  [("penalised normal equations", "linear_model::RidgeRegression::fit")], "arbitrary 3x1 and 2x2 designs, fixed 5x2 and rank-deficient designs with arbitrary targets", over=("inputs", "configurations"))
prop("C24", "Lasso and perceptron follow their update rules on the full design",
  "Fitting the lasso performs, from zero weights and for the configured number of iterations, best-coordinate soft-thresholded descent on the mean squared error of the data with its intercept column. Fitting the perceptron from its random start performs mini-batch subgradient steps on max(0, -t*score) with labels read as -1 and +1. Both then predict with the fitted intercept: the lasso the linear score, the perceptron 1 exactly when the score is positive and 0 otherwise.",
  "all data or targets, label patterns, penalties, learning rates, initial weights and new rows of bounded shape", "the tests print the fitted weights and compare nothing", [LM + "lasso_regression.hpp", LM + "perceptron.hpp", LM + "base.hpp"],
  [("lasso", "linear_model::LassoRegression::fit"), ("perceptron", "linear_model::Perceptron::fit, predict")], "2-3 samples, 1-2 features, 1-2 iterations or one epoch; in part with fixed designs", over=("inputs", "configurations"))
prop("C25", "Logistic regression trains by its solver and predicts the likelier class",
  "Fitting with each supported solver (SGD, SAG, coordinate descent, L-BFGS) performs that solver's steps on the averaged log loss, with its l2 penalty, of the data extended by an intercept column, from a random start. The probability of class 1 is the sigmoid of the linear score with intercept, the two probabilities sum to one, and the prediction is 1 exactly when the score is positive. Every unsupported solver/penalty pair is rejected.",
  "all initial weights, labels, learning rates, penalties, shuffles and queries within bounds", "the decision rule is a statement about all weights and queries, and training is never compared with the gradient", [LM + "logistic_regression.hpp", LM + "base.hpp", "src/core/math/extmath.hpp"],
  [("solver dispatch", "linear_model::LogisticRegression::fit_data"), ("decision rule", "linear_model::LogisticRegression::predict, predict_prob")], "fixed 2-sample designs (1-2 features), one epoch (1-3 steps); queries up to magnitude 1000; coordinate descent without penalty; L-BFGS one iteration", over=("inputs", "configurations", "schedules"))
prop("C26", "Softmax regression trains on cross-entropy and predicts the top class",
  "Fitting performs mini-batch gradient steps on the averaged cross-entropy with its l2 penalty from all-one weights, for one weight column per class including the intercept. Class probabilities are the softmax of the linear scores, non-negative with sum one, also for a single row, and the prediction is the first class of largest score.",
  "all data or step sizes, labels, penalties, shuffles and queries within bounds", "gradient identity and decision rule hold for all inputs or not at all", [LM + "softmax_regression.hpp", "src/core/loss/softmax_loss.hpp"],
  [("training", "linear_model::SoftmaxRegression::fit_data"), ("decision rule", "linear_model::SoftmaxRegression::predict, predict_prob")], "2-4 samples, 1-2 features, 2-3 classes, one epoch of 1-3 steps", over=("inputs", "configurations", "schedules"))
NBD = "src/methods/naive_bayes/"
prop("C27", "Gaussian naive Bayes learns class moments and predicts the posterior mode",
  "Fitting yields the distinct labels ascending, their frequencies as priors, and per class and feature the mean and the variance plus the smoothing share of the largest variance, whatever was fitted before. The probabilities of a row are the normalised products of prior and Gaussian densities, and the predicted label is that of the class with the largest posterior.",
  "all training data and label assignments, smoothing values and queries within bounds", "moments and posterior are compared with nothing in the tests", [NBD + "gaussian_naive_bayes.hpp", NBD + "base.hpp"],
  [("moments", "naive_bayes::GaussianNB::update_mean_variance"), ("posterior", "naive_bayes::GaussianNB::joint_log_likelihood, BaseNB::predict_prob, predict")], "up to 4x2 arbitrary training data, 3 classes; predictions and probabilities for arbitrary queries on fixed (thorough: arbitrary) training sets", over=("inputs", "configurations", "histories"))
prop("C28", "Multinomial naive Bayes learns smoothed shares and predicts the mode",
  "Fitting yields the distinct labels ascending, their frequencies as priors and the per-class feature totals, whatever was fitted before. The score of a class is the log prior plus the query amounts times the logs of the smoothed shares (total + alpha)/(class total + alpha*features); probabilities are the normalised scores and the predicted label is that of the largest score.",
  "all non-negative training data, label assignments, smoothing values and queries within bounds", "counts and shares are compared with nothing in the tests", [NBD + "multinomial_naive_bayes.hpp", NBD + "base.hpp"],
  [("counts", "naive_bayes::MultinomialNB::compute_feature_prob"), ("score", "naive_bayes::MultinomialNB::compute_log_likelihood, joint_log_likelihood")], "up to 4x2 training data, 3 classes, arbitrary queries", over=("inputs", "configurations", "histories"))
TR = "src/methods/tree/"
prop("C29", "Decision tree classifier splits at the best threshold and predicts labels",
  "Every node splits at a threshold halfway between two neighbouring distinct values of some feature with the largest impurity decrease (gini or entropy) among all such splits. It stays a leaf exactly when that decrease is not above the minimum (or zero), it holds too few samples, the depth limit is reached, or a child would be below the leaf minimum. A query gets the class shares of the training samples of its leaf, and the label of the most frequent class (smallest label on ties), whatever was fitted before.",
  "all data of bounded shapes with ties, every labelling, every query and setting", "optimal splits and stopping rules are statements over all data; the test prints predictions", [TR + "base.hpp", TR + "decision_tree_classifier.hpp", "src/core/data/split.hpp", "src/core/math/extmath.hpp"],
  [("split search", "decision_tree::DecisionTree::best_split, choose_feature_threshold"), ("growing and stopping", "decision_tree::DecisionTreeClassifier::build_tree"), ("prediction", "decision_tree::DecisionTreeClassifier::predict, predict_prob")], "up to 4 arbitrary values of one feature, 2x2 arbitrary or 5x2 fixed data, every labelling with 2-3 classes, depth up to 4", over=("inputs", "configurations", "histories"))
prop("C30", "Regression tree splits at the best threshold and predicts leaf means",
  "Every node splits at a threshold halfway between two neighbouring distinct feature values with the largest decrease of the spread of the targets (variance, or mean absolute deviation from the median). It stays a leaf exactly when that decrease is not above the minimum (or zero), the standard deviation of its targets is at most the minimum, it holds too few samples, the depth limit is reached, or a child would be below the leaf minimum. A query gets the mean target of the training samples of its leaf.",
  "all feature values or targets of bounded shapes with ties, every query and setting", "optimal splits and stopping rules are statements over all data; the test aborts at present", [TR + "base.hpp", TR + "decision_tree_regressor.hpp", "src/core/math/ops.hpp"],
  [("split search", "decision_tree::DecisionTree::best_split, choose_feature_threshold"), ("growing and stopping", "decision_tree::DecisionTreeRegressor::build_tree, compute_impurity"), ("prediction", "decision_tree::DecisionTreeRegressor::predict")], "up to 4 arbitrary positions, 3-4 samples with 1-3 arbitrary targets, one or two features", over=("inputs", "configurations", "histories"))
prop("C31", "KMeans runs Lloyd iterations from data points and labels by nearest centroid",
  "Fitting starts from distinct training samples (random) or from samples drawn in proportion to the squared distance to the nearest chosen one, keeping the best of the drawn candidates (kmeans++). Each iteration moves every centroid to the mean of the samples nearest to it (first centroid on ties, a centroid without samples stays) until the total movement is below the tolerance or the iterations are used up. Predict labels each row with its nearest centroid.",
  "all samples, starts, random draws, tolerances and queries within bounds", "the fit depends on random draws and ties; the test aborts at present", ["src/methods/cluster/kmeans.hpp", "src/core/math/random.hpp"],
  [("start", "cluster::KMeans::init_centroid, kmeans_plusplus"), ("iterations", "cluster::KMeans::kmeans_lloyd"), ("labels", "cluster::KMeans::predict_label")], "3 arbitrary samples in 1-D (1-3 iterations), 2 in 2-D; 4-5 fixed samples with 2-3 clusters, every start and an arbitrary query", over=("inputs", "schedules", "configurations"))
prop("C32", "Gaussian mixture fits by EM and predicts posterior responsibilities",
  "From normalised random responsibilities, fitting alternates expectation and maximisation: weights, means and (full or shared) regularised covariances are the responsibility-weighted moments, responsibilities the normalised weighted Gaussian densities. It stops once the mean log-likelihood moves less than the tolerance, keeps the best restart, and reports too few samples or no convergence by an exception. Precisions are the inverses of the covariances, of which the stored factors are square roots, whatever was fitted before. Predict returns a component of largest posterior, predict_prob the posteriors.",
  "all samples, regularisations, initial responsibilities, tolerances and queries within bounds", "the test prints the fitted means; EM identities hold for all data or not at all", ["src/methods/mixture/gaussian_mixture.hpp", "src/core/math/linalg.hpp"],
  [("EM steps", "mixture_model::GaussianMixture::initialize_parameters, e_step, m_step, estimate_gaussian_parameters"), ("stopping and restarts", "mixture_model::GaussianMixture::fit_data"), ("prediction", "mixture_model::GaussianMixture::predict, predict_prob, math::logsumexp")], "1 component: 3 samples in 1-D or 2 in 2-D, all arbitrary; 2 components: 2-3 samples, one of {samples, regularisation, responsibilities, tolerance, query} arbitrary, one to two EM steps", over=("inputs", "configurations", "histories"))
prop("C33", "KNN classifier predicts a majority label of the nearest samples",
  "For every training set, labelling, query and number of neighbours up to the number of samples, the predicted label of each query row is a most frequent label among some choice of its nearest training samples in the configured metric (Euclidean or Manhattan), with either search (brute force or KD-tree) and whatever was fitted before. Brute force rejects any other metric, and both reject more neighbours than samples.",
  "all data, labellings, queries and neighbour counts within bounds", "ties and pruning make the vote a statement over all inputs; the test does not even build", ["src/methods/neighbors/k_nearest_neighbors.hpp", "src/core/tree/kd_tree.hpp", "src/core/math/ops.hpp"],
  [("search and vote", "neighbors::KNearestNeighbors::fit, predict, brute_force")], "3-4 arbitrary points on a line with every labelling, or 4-6 fixed points in the plane with arbitrary queries; 1-3 neighbours, 2-3 classes", over=("inputs", "configurations", "histories"))
DE = "src/methods/decomposition/"
prop("C34", "PCA finds principal directions and projects around the training mean",
  "The components are orthonormal eigenvectors of the sample covariance for its largest eigenvalues, which are the explained variances; shares divide by the total variance, singular values by definition. Signs make the largest training score of a component positive. New rows are projected after subtracting the training mean. The model covariance is the components' variance plus the mean left-out variance, the precision its inverse, and the score the mean Gaussian log-likelihood under them, whatever was fitted before.",
  "all data sets whose centred matrix has a fixed left basis and arbitrary mean, singular values and rotation", "the test prints the fitted values; it projects only the training data", [DE + "pca.hpp", DE + "base.hpp", "src/core/math/linalg.hpp", "src/core/math/extmath.hpp"],
  [("fit and projection", "decomposition::PCA::fit_data, transform_data"), ("model covariance", "decomposition::PCA::get_covariance, get_precision, score"), ("signs", "math::svd_flip")], "4 samples, 1-3 and 5 features; singular values in [0.25, 8] or zero; Eigen's SVD is replaced by its contract (the factors the data were built from, every sign)", over=("inputs", "configurations", "histories"))
prop("C35", "Truncated SVD returns the leading singular triplets and projects onto them",
  "When the random sketch spans an invariant subspace of the data (in particular one as wide as the data), the components are the orthonormal right singular vectors of the largest singular values, which are returned, for every power-iteration normaliser (LU, QR, none) and number of iterations. Explained variances are the variances of the projected training data, shares divide by the total variance, and new rows are projected without centring. Too wide a sketch and unknown normalisers are rejected.",
  "all data of bounded shape with a fixed left basis and arbitrary singular values, all queries", "the test prints results for one data set and one normaliser", [DE + "truncated_svd.hpp", DE + "base.hpp", "src/core/math/linalg.hpp"],
  [("sketch", "math::randomized_svd, lu, qr"), ("fit and projection", "decomposition::TruncatedSVD::fit_data, transform_data")], "4 samples, 2-3 and 5 features, 1-2 components, 0-1 power iterations; Eigen's SVD is replaced by its contract; sketches are triangular combinations of the right basis", over=("inputs", "configurations", "schedules"))
prop("C36", "Matrix factorisations multiply back and have the promised structure",
  "LU returns a permutation, a unit lower and an upper triangular factor whose product is the matrix (or the permuted lower factor), for tall and wide matrices. QR returns orthonormal columns and an upper triangular factor with that product. Cholesky returns the lower (or upper) factor with positive diagonal and rejects exactly the matrices that are not positive definite. The pseudo-inverse satisfies the four Moore-Penrose conditions, singular values at most 1e-6 counting as zero, and logdet is the log of a positive determinant and minus infinity otherwise.",
  "all matrices of bounded shape", "identities over all matrices; the functions have no tests of their own", ["src/core/math/linalg.hpp"],
  [("factorisations", "math::lu, qr, cholesky"), ("inverse and determinant", "math::pinv, logdet")], "LU up to 3x3 (thorough 4x3), QR up to 3x1 and 2x2 arbitrary and 3x2 with a fixed column, Cholesky up to 3x3, pseudo-inverse up to 4x2; Eigen's SVD is replaced by its contract")
prop("C37", "Text loaders keep every value in its place and reject uneven files",
  "Loading a whitespace separated text file into a matrix (or rows) and labels gives one row per line that holds values, in file order, with all values but the last as features and the last as label, whatever the separators, line ends, final newline and earlier contents of the outputs. Files whose rows differ in length, without data or missing are rejected by an exception. The transaction loader gives one list per line, blank lines included. Nothing outside the parsed values is read.",
  "all values and file layouts of bounded size", "every test loads one well-formed file", ["src/core/data/load.hpp"],
  [("parsing", "data::loadtxt (three overloads)")], "up to 3 lines (thorough 4) of up to 3 values, blank lines anywhere, 4 separators, 3 line ends, any values; number syntax is the platform's (values travel as tokens)", over=("inputs", "configurations", "histories"))
prop("C38", "Hash tree counts each itemset exactly whatever its shape",
  "After any history of building itemsets of one length in, counting itemsets and querying, a query with a minimum support lists every built itemset whose number of counted occurrences since it was first built reaches that support, exactly once and with that number, and nothing else, for every leaf capacity and fan-out of at least one.",
  "all itemsets, histories of bounded length, leaf sizes and fan-outs", "splits and hash collisions depend on the items; the test prints one tree", ["src/core/tree/hash_tree.hpp"],
  [("insertion and splitting", "tree::HashTree::build_tree, insert"), ("counting", "tree::HashTree::add_support"), ("query", "tree::HashTree::compute_frequency_itemsets, dfs")], "up to 3 itemsets (thorough 4) of 1-3 arbitrary items of 2-6, up to 2 additions, leaf and fan-out 1-4", over=("inputs", "histories", "configurations"))
prop("C39", "Apriori finds exactly the frequent confident rules",
  "For every list of transactions, minimum support and confidence, mining yields each rule A => B with disjoint non-empty sides exactly once when A and B together occur in a transaction and in at least the minimum number of transactions (share times number, rounded down) and the share of A's transactions that also hold B reaches the minimum confidence, together with that share, and no other rule. It throws exactly when no item is frequent. Order, repetitions and earlier fits do not matter.",
  "all transactions of bounded size, all supports and confidences, all earlier fits", "the rule set depends on the order and repetition of items and on exact thresholds; the test prints the rules of one file", ["src/methods/rule_model/apriori.hpp", "src/core/tree/hash_tree.hpp", "src/core/preprocessing/transaction_encoder.hpp", C],
  [("frequent itemsets", "rule_model::Apriori::fit_data, generate_k_subsets, is_prefix"), ("rules", "rule_model::Apriori::transform_data; common::combinations, difference")], "2-3 transactions of up to 3 arbitrary items of 3 (repeats allowed), or up to 4 fixed transactions over 4-5 items; any support and confidence", over=("inputs", "configurations", "histories"))
prop("C40", "Transaction encoding is exact: a column per item, a row per transaction",
  "The encoded sparse matrix has one row per transaction and one column per distinct item in ascending order; a row stores, exactly once, each item of its transaction in the item's column, and nothing else, whatever the order and repetitions within a transaction, and empty transactions give empty rows.",
  "all transactions of bounded size over any items", "the test prints one encoding", ["src/core/preprocessing/transaction_encoder.hpp"],
  [("encoding", "preprocessing::TransactionEncoder::fit_transform")], "up to 5 items in 1-3 transactions (thorough 6 in 2-4), any values", over=("inputs", "configurations"))
prop("C41", "Spectral clustering labels rows by clustering the Laplacian's eigenvectors",
  "Fitting builds the Gaussian similarity of the rows, its graph Laplacian and the eigenvectors of its smallest eigenvalues, clusters them, and predict labels every row accordingly.",
  "all data sets, widths and numbers of clusters", "the class has no test", ["src/methods/cluster/spectral_clustering.hpp", "src/core/math/linalg.hpp"],
  [("fit and labels", "cluster::SpectralClustering")], "none")
prop("C42", "Axes, orders and options that do not exist are refused",
  "Every function that takes an axis or a norm order (mean, sum, variance, median, mode, norms, cumulative sum, softmax, logsumexp, repeat, sort, argsort, argmax, argmin, shuffle, Minkowski distance) throws an invalid-argument error for every value it does not support. Every estimator, tree and solver configured by name (metric, solver, criterion, initialisation, covariance type, normaliser, line search, penalty and its solver) throws one for every text that is not a supported name, instead of returning a result.",
  "every integer from -300 to 300 as axis or order, every text of up to 18 printable characters as option", "an unsupported value that slips through gives uninitialised or empty results only for that value", [C, O, E_, "src/core/math/linalg.hpp", "src/core/math/shuffle.hpp", "src/core/metric.hpp", KD, "src/core/optimizer/lbfgs/lbfgs.hpp", "src/methods/linear_model/logistic_regression.hpp", "src/methods/cluster/kmeans.hpp", "src/methods/mixture/gaussian_mixture.hpp", "src/methods/decomposition/pca.hpp", "src/methods/decomposition/truncated_svd.hpp", "src/methods/neighbors/k_nearest_neighbors.hpp", "src/methods/tree/decision_tree_classifier.hpp", "src/methods/tree/decision_tree_regressor.hpp"],
  [("axis dispatch", "math::mean, var, sum, median, mode, cumsum, norm2, logsumexp, softmax; common::repeat, sort, argsort, argmax, argmin, norm; random::shuffle_data"), ("option dispatch", "fit and predict of the estimators, optimizer::LBFGS::optimize, tree::KDTree")], "2x2 matrices, 4 samples; axis -300..300, texts up to 18 characters", over=("inputs", "configurations"))
NA = [("C41", "The class is unfinished: fit_transform decomposes a Laplacian that is never built, laplace_matrix and predict do not compile when instantiated (X.cols(j), an empty return from a value-returning function), and math::eig does not compile for real matrices. There is no code to execute symbolically, and finishing it would be new work, not a repair.")]
