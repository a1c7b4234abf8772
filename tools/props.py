#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files.split(),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Sliding windows hold exactly the most recent items, in order",
  "After any sequence of updates, a fixed-size window contains exactly the most recent min(n, window size) items that were added, in arrival order and including duplicates; an unlimited window contains all of them. Reading a window never changes it.",
  "histories inputs configurations", "every sequence of updates and reads, every window size >= 1, every kind of item (numbers, arrays, repeated values)",
  "Tests push at most 5 items through windows of size 1, 3 and 5; the claim is about every size and every length, and in particular about long streams and repeated items.",
  "pysad/utils/window.py", [("Window.update drops the oldest item when the size is exceeded", "pysad/utils/window.py")],
  [("window", "retained items, oldest first", "pysad/utils/window.py")], ["Window.get", "UnlimitedWindow.get"])

p("C02", "Statistic meters equal the statistic of the values currently held",
  "After any sequence of updates and removals of values currently held, each univariate statistic (count, sum, sum of squares, average, variance, minimum, maximum, median, and the absolute-value wrapper) reports the value of that statistic over exactly the multiset of values updated and not removed. Reading the statistic never changes later results, the variance is never negative or NaN for finite values, and with no values held the count, sum and sum of squares are 0, the minimum is +infinity and the maximum -infinity.",
  "histories inputs", "all interleavings of update / remove / get over all finite values, including duplicates, ties with the current extremum and removal in any order",
  "The tests feed one array once and compare to numpy; no test removes a value in a different order, removes a duplicate of the extremum, or reads between updates.",
  "pysad/statistics/abs_statistic.py pysad/statistics/average_meter.py pysad/statistics/count_meter.py pysad/statistics/max_meter.py pysad/statistics/median_meter.py pysad/statistics/min_meter.py pysad/statistics/sum_meter.py pysad/statistics/sum_squares_meter.py pysad/statistics/variance_meter.py",
  [("incremental update/remove of each meter", "pysad/statistics/*.py")], [("lst", "multiset kept for extrema and median", "pysad/statistics/median_meter.py")], ["get()"])

p("C03", "Running statistics describe exactly the last window_size values",
  "A running statistic with window size w, wrapped around any statistic that supports update, remove and get (built-in or user-defined, constructed with the keyword arguments given to the wrapper), reports after n updates the wrapped statistic of exactly the last min(n, w) values. Values older than the window have no influence.",
  "histories inputs configurations", "every stream, every window size >= 1, every wrapped statistic",
  "Tests use one window configuration on one random array through postprocessors and only compare shapes.",
  "pysad/statistics/running_statistic.py", [("update wrapped statistic, then remove the value leaving the window", "pysad/statistics/running_statistic.py")],
  [("window", "values inside the window", "pysad/statistics/running_statistic.py")], ["RunningStatistic.get"])

p("C04", "Score postprocessors report the statistic of the fitted scores",
  "After any sequence of fits and transforms, the average, maximum and median postprocessors output that statistic over all scores fitted so far (running variants: over the last window_size fitted scores), and the Z-score postprocessors output (score - mean) / population standard deviation of those scores whenever that deviation is not zero. Transforming a score never changes what later calls return; only fitting does.",
  "histories inputs configurations", "all interleavings of fit_partial, transform_partial and fit_transform_partial, all window sizes >= 1",
  "The one test only compares output shapes for window_size=30.",
  "pysad/transform/postprocessing/postprocessors.py pysad/transform/postprocessing/running_postprocessors.py",
  [("meters updated in fit_partial only", "pysad/transform/postprocessing")], [], ["transform_partial", "fit_transform_partial"])

p("C05", "Probability calibrators report the right tail of the fitted scores",
  "The conformal calibrator maps a score to the fraction of retained fitted scores strictly greater than it, where the retained scores are the last window_size fitted (all of them when not windowed). The Gaussian-tail calibrator maps a score to the standard normal CDF of (score - mean)/std, with mean and population std (std taken as 1 when the variance is 0) over the last window_size fitted scores when running statistics are on, and over all fitted scores, ignoring window_size, when off. Results always lie in [0, 1], and transforming never changes the calibrator.",
  "histories inputs configurations", "all interleavings of fit and transform, all window sizes, windowed/running on and off, ties between scores",
  "Tests fit 100 uniform scores into default windows of 300 and 6400 (which never fill) and check only shape and not-NaN.",
  "pysad/transform/probability_calibration/conformal_prediction.py pysad/transform/probability_calibration/gaussian_tail.py pysad/utils/window.py pysad/statistics/running_statistic.py",
  [("window/meters updated on fit only", "pysad/transform/probability_calibration")], [], ["transform_partial"])

p("C06", "Evaluation metrics are computed over the complete label/score history",
  "Precision, recall, area under the ROC curve and area under the precision-recall curve (average precision) each return the exact value of that metric over all (true label, prediction) pairs given so far, each pair counted once and correctly paired, whether or not the metric was read in between. AUROC raises ValueError while only one class has been seen; precision and recall are 0 when their denominator is 0.",
  "histories inputs", "all histories of labels in {0,1} and predictions (binary, or real with ties), with reads at any point",
  "Tests cover a few fixed histories (all right, all wrong, 2/3 recall) and only range-check AUROC and AUPR.",
  "pysad/evaluation/metrics.py pysad/core/base_metric.py", [("pairs appended to history, sklearn evaluated on get", "pysad/evaluation/metrics.py")], [], ["get()"])

p("C07", "Windowed metrics average the metric over consecutive full windows",
  "A windowed metric splits the stream of pairs into consecutive non-overlapping windows of window_size pairs, evaluates a fresh instance of the metric class (constructed with the given keyword arguments) on each window alone, and reports the plain average over completed windows. A partially filled last window counts as one more window only if ignore_nonempty_last is False, an empty last window never counts, and while no window is complete the score of the partial window is reported; reading never changes the result.",
  "histories configurations inputs", "every stream, every window_size >= 1, both settings of ignore_nonempty_last, reads at every position, every metric class",
  "Tests use streams in which every window has the same score, so any weighting or window assignment gives the same answer.",
  "pysad/evaluation/windowed_metric.py", [("step counter modulo window_size closes a window", "pysad/evaluation/windowed_metric.py")],
  [("score_meter", "average of closed windows", "pysad/evaluation/windowed_metric.py")], ["get()"])

p("C08", "Batch methods are exactly the one-at-a-time methods applied in order",
  "For every model, fit, score and fit_score over an array behave exactly like calling fit_partial, score_partial or fit_score_partial once per instance in order, with each label delivered together with its own instance, and fit_score_partial behaves like fit_partial followed by score_partial (the seasonal components, whose combined call has its own definition, excepted); the same holds for fit, transform and fit_transform of postprocessors and transformers. Batch results are float64 arrays with entry i belonging to instance i, fit returns the object itself, and each fit_partial receives the instance itself.",
  "inputs histories configurations", "every array (any number of instances including 0 and 1), every subclass (built-in or user-defined, scores returned as float, 0-d or 1-element array), and every mixture of batch and partial calls",
  "Tests check shapes; transformers' fit is never checked for what it passes on, and no test mixes batch and partial calls.",
  "pysad/core/base_model.py pysad/core/base_postprocessor.py pysad/core/base_transformer.py pysad/utils/__init__.py",
  [("loops over _iterate", "pysad/core")], [], ["calls received by a subclass", "returned arrays"])

p("C09", "Reference-window models retrain on exactly the right window",
  "Without an initial window, a reference-window model retrains on all instances seen so far after each instance until window_size instances have been seen, and from then on retrains at every multiple-of-sliding_size boundary on exactly the most recent window_size instances (the first such boundary being the first multiple of sliding_size at or after window_size); with an initial window it trains on that window at once and thereafter retrains every sliding_size instances on the most recent window_size of initial plus streamed instances. Every retraining uses a fresh detector built with the given keyword arguments, labels (when supplied for every instance) stay aligned with their instances, and scores always come from the most recently trained detector. Isolation-forest ASD is the same with sliding_size equal to window_size.",
  "histories configurations inputs", "all window_size >= 1, sliding_size >= 1 (smaller, larger, not dividing), initial window absent, shorter, equal or longer, labelled and unlabelled streams, scoring at any point",
  "Tests check window lengths and two past bugs for window 4 / slide 2; contents, labels and schedules for other sizes are never compared.",
  "pysad/models/integrations/reference_window_model.py pysad/models/integrations/pyod_model.py pysad/models/iforest_asd.py",
  [("fit_partial window bookkeeping", "pysad/models/integrations/reference_window_model.py")],
  [("reference window", "training set of the current detector", "pysad/models/integrations/reference_window_model.py"), ("current window", "instances since the last slide", "pysad/models/integrations/reference_window_model.py")],
  ["arguments received by the wrapped detector's fit and decision_function"])

p("C10", "One-fit models train once on the initial data and never change",
  "A one-fit model trains its detector exactly once, at construction, on exactly the initial instances (with the initial labels if given) and with the given keyword arguments. No later fit or score changes any future score, and every score is that detector's decision for exactly the instance given.",
  "histories inputs configurations", "all sequences of fit and score calls, supervised and unsupervised detectors",
  "Tests only check that scores are numbers.",
  "pysad/models/integrations/one_fit_model.py pysad/models/integrations/pyod_model.py", [("_fit_model in constructor, no-op fit_partial", "pysad/models/integrations/one_fit_model.py")], [], ["wrapped detector calls", "score_partial"])

p("C11", "Exact-STORM scores are neighbour fractions in the recent window",
  "The Exact-STORM score of an instance is the fraction of the instances in its window, leaving out the most recently fitted one, whose Euclidean distance to it is strictly below max_radius, and 0 when there are none. The window is exactly the last window_size fitted instances.",
  "histories inputs configurations", "every stream, window size, radius and dimension, scoring with or without a preceding fit of the same instance",
  "The only test checks the output shape on 150 points with a window of 10000 that never fills.",
  "pysad/models/exact_storm.py pysad/utils/window.py", [("window update on fit, distance count on score", "pysad/models/exact_storm.py")], [], ["score_partial"])

p("C12", "Half-space trees score by the mass of the last completed window",
  "Each half-space tree recursively halves the given feature ranges down to max_depth (one randomly chosen feature per node, values above the midpoint going right), and the score of an instance is minus the sum, over trees and over the nodes on its path from root to leaf, of node mass times 2^depth. The mass of a node is the number of instances of the last completed window (of window_size consecutive fitted instances) that passed through it; during the first window it is the number of instances fitted so far. An initial window, if given, is fitted first.",
  "histories inputs configurations", "every stream, window size, depth, number of trees and features, and every random choice of split features",
  "The only test checks the output shape with one feature and a window of 100 crossed once.",
  "pysad/models/half_space_trees.py", [("reference/latest mass swap every window_size instances", "pysad/models/half_space_trees.py")],
  [("r_mass", "mass used for scoring", "pysad/models/half_space_trees.py"), ("l_mass", "mass of the current window", "pysad/models/half_space_trees.py")], ["score_partial"])

p("C13", "xStream scores by the half-space counts of the last completed window",
  "An xStream score is the average over chains of -min over levels d of (d + log2(1 + count_d)), where count_d is the number of instances, among those counted for the last completed window of window_size instances, that were recorded under the same level-d cell index of the projected space as the scored instance has; during the first window all instances fitted so far are counted. Cell indices use the cell widths in force when the instance is fitted or scored: one half of every projected feature at first, and from each window boundary on half the range of the feature in the window just completed (1 where that is not above 0.0001). Counting restarts from zero at every boundary.",
  "histories inputs configurations", "every stream, window size, depth, number of chains and components and every random chain",
  "Tests check the output shape for 150 one-dimensional points.",
  "pysad/models/xstream.py pysad/transform/projection/streamhash_projector.py", [("current/reference sketches swapped every window_size instances", "pysad/models/xstream.py")],
  [("cmsketches", "counts used for scoring", "pysad/models/xstream.py"), ("cmsketches_cur", "counts of the current window", "pysad/models/xstream.py")], ["score_partial"])

p("C14", "RS-Hash scores from exponentially decayed counts of earlier instances",
  "The RS-Hash score reported after fitting an instance is the mean, over components, of ln(1 + c), where c sums 2^(-decay * age) over all earlier fitted instances in the same hash cell, age being the number of fits between them; the instance itself is not counted in its own score. Cells only use features whose declared minimum and maximum differ, when there are any. Scoring returns the value for the most recently fitted instance whatever argument is given and leaves the model unchanged.",
  "histories inputs configurations", "every stream, decay, number of components, hash functions and features, and every random choice of subspaces and grids",
  "The only test checks the output shape.",
  "pysad/models/rs_hash.py", [("time-stamped decayed counters", "pysad/models/rs_hash.py")], [("cmsketches", "cell -> (timestamp, weight)", "pysad/models/rs_hash.py")], ["score_partial after fit_partial"])

p("C15", "Robust random cut forests hold exactly the most recent tree_size points",
  "At every time each tree of a robust random cut forest contains exactly the most recent min(n, tree_size) fitted instances, each with its multiplicity, so instances older than that have no influence on scores. Scoring an instance, whether or not it is already in the trees, leaves the forest as it was, and the score is the average over trees of the collusive displacement of that instance.",
  "histories inputs configurations", "every stream (including repeated instances), every tree size and number of trees, and every random cut",
  "The only test streams 150 points into trees of 256, so no point is ever forgotten.",
  "pysad/models/robust_random_cut_forest.py", [("forget the oldest index before inserting the next", "pysad/models/robust_random_cut_forest.py")], [("forest", "trees of indexed points", "pysad/models/robust_random_cut_forest.py")], ["score_partial"])

p("C16", "KNN-CAD follows its probation, ranking and refractory phases",
  "Once at least one instance has been fitted, KNN-CAD returns exactly 0.0 for every score requested before probationary_period instances have been fitted; afterwards a score is the fraction of the retained reference scores that are strictly smaller than the current shingle's score, hence a multiple of 1/(probationary_period - 19) in [0, 1]. After a score of at least 0.9965 the next floor(probationary_period / 5) requested scores are exactly 0.5, after which normal scoring resumes. Memory does not grow with the length of the stream.",
  "histories inputs configurations", "every univariate stream and probationary period long enough for the neighbour count, scores requested at any positions",
  "The only test checks the shape of 150 scores.",
  "pysad/models/knn_cad.py", [("record counter, training/calibration queues, refractory counter", "pysad/models/knn_cad.py")], [("pred", "remaining refractory scores", "pysad/models/knn_cad.py"), ("record_count", "fitted instances", "pysad/models/knn_cad.py")], ["score_partial"])

p("C17", "KitNet follows its grace periods and then stays frozen",
  "KitNet scores are exactly 0.0 until its feature map has been learned and its autoencoders have been trained on at least one instance, and finite and non-negative from then on. The map is learned when the (grace_feature_mapping + 1)-th instance is fitted, the next grace_anomaly_detector instances train the autoencoders, and after that fitting further instances no longer changes any score. This holds for any number of features, including one. Scores do not depend on the units of the features (multiplying a feature by a positive constant everywhere changes nothing), and every feature counts: moving any single feature far outside everything fitted raises the score. The learned feature map puts every feature into exactly one autoencoder, gives none more than max_size_ae features, never changes, and keeps features that are scaled copies of one another in one autoencoder whenever that many fit into one (and grace_feature_mapping is at least 3).",
  "histories inputs configurations", "all grace periods, feature counts and streams; scoring at any point",
  "The only test uses the default grace period of 50000 and 150 instances, so it never leaves the first phase.",
  "pysad/models/kitnet.py pysad/models/kitnet_model/KitNET.py pysad/models/kitnet_model/corClust.py pysad/models/kitnet_model/dA.py",
  [("n_trained compared with the grace periods", "pysad/models/kitnet_model/KitNET.py")], [("n_trained", "instances used for training", "pysad/models/kitnet_model/KitNET.py")], ["score_partial"])

p("C18", "Relative entropy compares the current window with the first full window",
  "The relative-entropy model scores 0 until window_size instances have been fitted. From then on it compares the histogram of the last window_size instances with the histogram of the first full window, and scores 0 when twice window_size times their relative entropy is below the 0.99 chi-squared threshold with num_bins - 1 degrees of freedom, and -1 otherwise. Scoring does not depend on its argument or change the model, and memory does not grow with the length of the stream.",
  "histories inputs configurations", "every univariate stream in range, window size and bin count, scores requested at any positions",
  "Tests check shape and warnings only.",
  "pysad/models/relative_entropy.py", [("window quantisation and goodness-of-fit test", "pysad/models/relative_entropy.py")], [("P", "null hypotheses", "pysad/models/relative_entropy.py")], ["score_partial"])

p("C19", "Deviation models score by distance from the running centre and spread",
  "The median-absolute-deviation model scores (x - median) / (b * MAD), where median is over all fitted values and MAD is the median of each value's absolute deviation from the median at the time it was fitted; the standard-deviation model scores (x - mean or median) / (population standard deviation), both over all fitted values. Scores are absolute unless absolute=False, are finite for every finite stream (a zero spread is replaced by 1e-10, never producing NaN), and do not change the model.",
  "histories inputs configurations", "every univariate stream, both centres, absolute on/off, scoring at any point, constant and repeated values",
  "Tests check shapes and constructor validation only.",
  "pysad/models/median_absolute_deviation.py pysad/models/standard_absolute_deviation.py pysad/statistics/median_meter.py pysad/statistics/variance_meter.py",
  [("meters updated on fit only", "pysad/models/median_absolute_deviation.py")], [], ["score_partial"])

p("C20", "Seasonal ESD models score the newest value of the exact recent window",
  "Seasonal ESD and Seasonal Hybrid ESD score 0 until a full window is available; scoring a value tests it as the newest member of the window (last window_size - 1 fitted values plus the candidate) without changing the model, while fit_score_partial adds the value exactly once and tests it in the resulting window. The score is the test statistic of the newest residual if generalized ESD with at most max_anomalies steps at level alpha (mean/std for S-ESD, median/1.4826*MAD for S-H-ESD; selection up to the last step whose statistic exceeds its critical value) selects it, and 0 otherwise.",
  "histories inputs configurations", "every univariate stream, period, window size, max_anomalies and alpha, all interleavings of fit, score and fit_score, ties and constant residuals",
  "Tests check that one obvious outlier gets a positive score and that windows have the right length in one case, with the decomposition replaced by a stub.",
  "pysad/models/seasonal_esd.py pysad/transform/preprocessing/modified_stl_residual.py pysad/utils/window.py",
  [("candidate window and generalized ESD loop", "pysad/models/seasonal_esd.py")], [("window", "last window_size fitted values", "pysad/models/seasonal_esd.py")], ["score_partial", "fit_score_partial"])

p("C21", "Seasonal preprocessors decompose using exactly the values fitted so far",
  "The streaming seasonal-trend decomposer returns x minus the mean of the last trend_window fitted values minus the average of the detrended values seen so far at that position of the season (a position counting only values fitted once the trend window was full), where transform predicts for the next position without changing state and fit_transform includes the value itself. The modified-STL residual transformer returns, for the newest value of its last-window_size window (candidate included once, never stored by transform), that value minus its STL seasonal component minus the window median, and 0 until 2*period values are available.",
  "histories inputs configurations", "every stream, season length, trend window, period and window size, all interleavings of fit, transform and fit_transform",
  "Tests follow one repeating pattern and single-window cases.",
  "pysad/transform/preprocessing/seasonal_trend_decomposer.py pysad/transform/preprocessing/modified_stl_residual.py",
  [("trend deque, per-phase sums", "pysad/transform/preprocessing/seasonal_trend_decomposer.py")], [("num_seen", "phase counter", "pysad/transform/preprocessing/seasonal_trend_decomposer.py")], ["transform_partial", "fit_transform_partial"])

p("C22", "Instance scalers normalise each instance on its own",
  "The instance standard scaler returns (x - mean(x)) / std(x) with the instance's own mean and population standard deviation, the unit-norm scaler returns x divided by its own p-norm, and the identity scaler returns x; for every instance with non-zero spread or norm, whatever was fitted or transformed before. The input array is left unmodified.",
  "inputs histories configurations", "every instance and dimension, every norm order, after every history",
  "Tests check one random array per scaler with a weak property (e.g. norms close to 1).",
  "pysad/transform/preprocessing/identity_scaler.py pysad/transform/preprocessing/instance_standard_scaler.py pysad/transform/preprocessing/instance_unit_norm_scaler.py",
  [("stateless transform_partial", "pysad/transform/preprocessing")], [], ["transform_partial"])

p("C23", "A projector applies one fixed linear map to every instance",
  "Every projector with a given number of components maps each instance to a vector of that length by one linear map that stays the same for the lifetime of the projector, regardless of what was fitted or transformed before. The entries of the sparse and the stream-hash map are +-sqrt(1/density)/sqrt(num_components) or 0, about a density fraction of them non-zero with both signs equally frequent; those of the Gaussian map have mean square 1/num_components; different components use different coefficients. For the stream-hash projector the map is moreover the same for every projector with the same parameters, and the coefficient of a feature does not depend on how many features there are.",
  "inputs histories configurations", "every instance, dimension, number of components and density; every order and mixture of fit/transform calls",
  "Tests check output shapes only.",
  "pysad/transform/projection/random_projector.py pysad/transform/projection/streamhash_projector.py", [("projection matrix fixed at first use; hash-derived coefficients", "pysad/transform/projection")], [], ["transform_partial", "fit_transform_partial", "transform"])

p("C24", "Streamers deliver every instance once, with its own label",
  "Iterating an array or dataframe yields every instance exactly once together with its own label (if labels are given), in the given order without shuffling and in some permutation with shuffling; arrays of different lengths are rejected with an error and the input data is not modified. Iterating data files with a seed yields an order determined by that seed and the data alone, whatever other random numbers are drawn or iterators created before it is consumed, and files are split into features and labels without loss.",
  "inputs histories schedules configurations", "every array / dataframe (any length, label dtype, dataframe index), shuffle on/off, every seed, every interleaving of several iterators and other users of the random generator",
  "Tests iterate tiny inputs once, in order, and compare lengths under shuffling.",
  "pysad/utils/array_streamer.py pysad/utils/pandas_streamer.py pysad/utils/data.py pysad/utils/__init__.py", [("index permutation drawn when iteration is requested", "pysad/utils/array_streamer.py"), ("seeding in get_iterator", "pysad/utils/data.py")], [], ["yielded pairs"])

p("C25", "Scoring, transforming and reading never change later results",
  "For every model, transformer, postprocessor, calibrator, ensembler, statistic and metric, inserting any number of extra score, transform or get calls anywhere in a history (random generator state restored after them) leaves the results of all other calls unchanged. The only exceptions are the documented ones: the perfect model's label queue and KNN-CAD's refractory counter.",
  "histories inputs configurations", "every component, every history of fits and reads, every position and number of extra reads, with arbitrary arguments",
  "Tests never compare two histories of the same component.",
  "pysad/core/base_model.py pysad/models pysad/transform pysad/statistics pysad/evaluation", [("state written in fit_partial/update only", "pysad")], [], ["score_partial", "transform_partial", "get"])

p("C26", "Objects are independent of each other and of their callers",
  "Operations on one object never affect another object, including objects of the same class and objects built from the same arguments: interleaving operations on several objects gives each the results it would give alone (with the random generator controlled). No call modifies the arrays, lists or dataframes passed to it or to the constructor.",
  "schedules histories inputs", "every interleaving of operations on two or more objects of every public class, and every call with every argument",
  "Tests use one object at a time and never compare arguments before and after.",
  "pysad/models pysad/transform pysad/statistics pysad/evaluation pysad/utils", [("all state held per instance; constructor arguments copied before being changed", "pysad")], [], ["results of interleaved objects", "argument contents after each call"])

p("C27", "Results are reproducible from the seed",
  "After fix_seed(s), constructing any component and running any sequence of operations on it gives the same results every time for the same s, parameters and inputs, in the same process or another. The random model always returns values in [0, 1).",
  "configurations histories inputs", "every seed, component, parameters and operation history, independent of what ran before in the process",
  "One test draws a single numpy random number after fix_seed; no component is run twice.",
  "pysad/utils/__init__.py pysad/models/random_model.py pysad/models", [("all randomness taken from the seeded generators", "pysad/utils/__init__.py")], [], ["results of repeated runs"])

p("C28", "Streaming components use bounded memory and forget old instances",
  "The memory held by every component meant for unbounded streams (windows, running statistics, running postprocessors, windowed calibrators, windowed metrics, and the models; components that by definition keep every value or every distinct cell grow only with those) stays bounded, independent of the number of instances processed. Purely windowed components give results that depend only on the instances inside their window.",
  "histories inputs configurations", "every stream length and content, every window size",
  "No test measures retained state or runs longer than 150 instances.",
  "pysad/utils/window.py pysad/statistics/running_statistic.py pysad/models pysad/evaluation/windowed_metric.py", [("windows trimmed, sketches swapped, points forgotten", "pysad")], [], ["size of the object graph after n and k*n instances", "results after streams with equal window suffix"])

p("C29", "Ensemblers combine exactly the scores of the current timestep",
  "Average (weighted or not), maximum and median ensemblers return that statistic of the given scores; average-of-maximum and maximum-of-average with static buckets return that combination for some partition of all the scores into n_buckets equal buckets. The result depends on no earlier scores, and transforming a sequence of score vectors gives one combined score per timestep in order.",
  "inputs histories configurations", "every number of detectors, every scores, weights and bucket count, every history",
  "Tests check output shapes on one random matrix.",
  "pysad/transform/ensemble/ensemblers.py", [("stateless combination through PyOD", "pysad/transform/ensemble/ensemblers.py")], [], ["transform_partial", "fit_transform_partial", "transform"])

p("C30", "The perfect model returns fitted labels in first-in first-out order",
  "The perfect model returns, one per score call, the labels given to fit in the order they were fitted, each exactly once, for any interleaving of fits and scores, so that fit_score returns exactly the labels; fitting without a label raises ValueError and changes nothing. The null model always returns 0.5.",
  "histories inputs", "all interleavings of fit, score and fit_score with any labels",
  "One test runs fit_score once.",
  "pysad/models/perfect_model.py pysad/models/null_model.py", [("label queue", "pysad/models/perfect_model.py")], [("labels", "pending labels", "pysad/models/perfect_model.py")], ["score_partial"])

p("C31", "Invalid arguments and instances are rejected and leave no trace",
  "The seasonal ESD models can be constructed exactly with period >= 2, window_size >= 2*period, 1 <= max_anomalies <= 0.49*window_size and a finite alpha strictly between 0 and 1; the modified-STL residual transformer exactly with period >= 2 and window_size None or >= 2*period; the seasonal-trend decomposer exactly with season_length >= 1 and trend_window None or >= 1; StandardAbsoluteDeviation exactly with 'mean' or 'median'. Anything else raises ValueError. Seasonal ESD calls given anything but a vector holding a single value, and STL-transformer calls given anything but a single value (or made without a window_size, or whole-window transforms of less than 2*period or multivariate values), raise ValueError and do not change any later result; everything valid is accepted.",
  "configurations inputs histories", "all constructor arguments on both sides of every limit; every shape of instance, at any point of any history",
  "Tests try a dozen invalid values each at construction, and never look at what a rejected call leaves behind.",
  "pysad/models/seasonal_esd.py pysad/models/standard_absolute_deviation.py pysad/transform/preprocessing/modified_stl_residual.py pysad/transform/preprocessing/seasonal_trend_decomposer.py",
  [("argument checks in constructors and before state changes", "pysad/models/seasonal_esd.py")], [("window", "accepted values", "pysad/models/seasonal_esd.py")], ["__init__", "fit_partial", "score_partial", "transform_partial", "transform_window"])

p("C32", "Every call returns what its interface promises",
  "At every point of every history with finite instances: fitting calls (fit_partial, fit, update, remove) of models, transformers, postprocessors, calibrators, ensemblers, statistics and windowed metrics return the component itself, so calls can be chained; a model score is one finite real number (integration models: what the wrapped detector returns) within the range of the model - [0, 1] for Exact-STORM, KNN-CAD and LoOP, [0, 1) for the random model, strictly between 0 and 1 for the null model, at most 0 for half-space trees, at least 0 for KitNet, RS-Hash, robust random cut forest, the seasonal ESD and the absolute deviation models, 0 or -1 for relative entropy; calibrated scores and metrics are in [0, 1], variances and sums of squares at least 0; a transformer returns as many values as the instance has, a projector num_components, an ensembler one, and a postprocessor or statistic one number. Batch calls return one result per instance.",
  "histories inputs configurations", "every component, every interleaving of partial, combined and batch calls, every finite stream (constant, huge, tiny, alternating, jumping)",
  "Tests call most components on one random data set and assert that nothing raises.",
  "pysad/core/base_model.py pysad/core/base_transformer.py pysad/core/base_postprocessor.py pysad/core/base_statistic.py pysad/models pysad/transform pysad/statistics pysad/evaluation",
  [("return values of the public calls", "pysad/core")], [], ["fit_partial", "score_partial", "transform_partial", "update", "get", "fit", "score", "transform"])

p("C33", "The LoOP model scores against its initial data alone",
  "The local outlier probability model reports, for every instance, the local outlier probability in [0, 1] of that instance with respect to exactly the initial instances, with the given number of neighbours and extent. The score depends on the distances to the num_neighbors nearest initial instances only and never decreases as these grow; fitting never changes any score.",
  "histories inputs configurations", "all initial data sets, neighbour counts and extents, all histories of fits and scores",
  "One test runs fit_score on random data and checks only the shape.",
  "pysad/models/loop.py", [("detector trained at construction", "pysad/models/loop.py")], [("model", "trained detector", "pysad/models/loop.py")], ["score_partial"])

p("C34", "Feature bounds are the exact minima and maxima of the given array",
  "get_minmax_array returns, for every feature, exactly the least and the greatest value it takes over all instances of the array, and get_minmax_scalar exactly the least and greatest value of the whole array, whatever the shape, size, element type or memory layout; the array is not modified.",
  "inputs", "every finite array",
  "One test compares one small random array.",
  "pysad/utils/__init__.py", [("reductions over the first axis / all axes", "pysad/utils/__init__.py")], [], ["get_minmax_array", "get_minmax_scalar"])

p("C35", "Instances are held by value",
  "Models and transformers learn the values an instance has when it is fitted: overwriting an array after the call that received it (a reused buffer, a row of a batch array, the initial instances given to a constructor, an array returned by an earlier call) never changes any later result, and presenting the same array object again with other contents is the same as presenting a new array.",
  "histories schedules inputs", "every interleaving of fits, batch fits, scores and transforms with overwrites of the arrays involved, for every public model and transformer",
  "No test writes to an array after passing it; all tests pass rows of one constant array.",
  "pysad/models pysad/transform pysad/core", [("what is kept of an instance is a copy or derived from it", "pysad/models"), ("batch methods pass rows (views) of the caller's array", "pysad/utils/array_streamer.py")],
  [("self.window", "instances kept", "pysad/models/exact_storm.py"), ("cur_window_X", "instances kept", "pysad/models/integrations/reference_window_model.py")], ["score_partial", "transform_partial", "fit_transform_partial"])

p("C36", "Parameters left out have their documented defaults",
  "For every component, leaving a constructor parameter out means its documented default (for example window_size=10000 and max_radius=0.1 for Exact-STORM, 25 trees of depth 15 over windows of 100 for half-space trees, 6400 retained scores for the Gaussian-tail calibrator; a trend window of one season, as many feature-mapping as training instances for KitNet), and passing parameters by position in the documented order is the same as passing them by keyword: components whose parameters come out the same give the same results after the same history. Calls that give a parameter twice or omit a required one raise an error.",
  "configurations histories", "every component, every way of giving, ordering or omitting its parameters, every history",
  "Tests construct each component in one or two ways and never let a stream grow to the size of a default window.",
  "pysad/models pysad/transform pysad/evaluation pysad/statistics pysad/utils", [("constructor signatures and what they store", "pysad/models"), ("constructor signatures and what they store", "pysad/transform")], [], ["constructors", "score_partial", "transform_partial"])

p("C37", "A copied component continues like the original, independently",
  "A component that is copied (copy.deepcopy, or pickled and unpickled) at any point of any history has a copy which continues exactly as the original would have from there: it gives the results of a component that took the same steps and was never copied. From then on neither influences the other: what is fitted into the copy (or copies of it) never changes a result of the original, and the other way round.",
  "histories schedules", "every component that can be copied, every point of copying, every interleaving of later steps of original and copies",
  "No test copies or pickles a component.",
  "pysad/models pysad/transform pysad/core", [("the state is held in plain attributes, none shared or derived by reference", "pysad/models")], [("W", "tied weights of the autoencoders", "pysad/models/kitnet_model/dA.py")], ["copy.deepcopy", "pickle", "score_partial", "transform_partial"])

p("C38", "Where and how instances are stored does not matter",
  "Results depend on the values of instances only, not on how the arrays that hold them are laid out in memory: float64 arrays that are contiguous, strided, reversed, transposed or Fortran ordered, parts of other arrays, overlapping views of the same memory or read-only give the same results when they hold the same values, as single instances, as batches and as arrays given to a constructor. No call needs to write to an instance, and none does.",
  "inputs histories", "every memory layout of every instance and batch, in every history, for every public model and transformer that looks at instances",
  "Tests pass rows of freshly made, contiguous, writeable arrays only.",
  "pysad/models pysad/transform pysad/core pysad/utils", [("instances are read through numpy indexing and reshaping", "pysad/models"), ("batch methods iterate over rows", "pysad/utils/array_streamer.py")], [], ["fit_partial", "score_partial", "transform_partial", "fit", "score", "transform"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
