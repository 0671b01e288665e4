SOUND = "Sound over the abstraction: every branch, loop and call chain of every scenario is followed to a fixpoint, so a silent run means no violating path exists under the stated library models and assumptions. Says nothing about the numbers computed."

prop("P01", "Inputs are never modified",
     "Calling any exported operation never changes the matrices or sample arrays passed to it as inputs: the training data, the targets, the data to transform, predict or score, and the arguments of metrics, splitters and interpolators keep every element and their shape, at every moment of the call and whatever the configuration. Only arguments whose declared role is to receive output may be written.",
     ["inputs", "configurations"], "all inputs of all exported functions and methods, all receiver configurations, all paths, including while goroutines are still running",
     "A test compares a few inputs before and after; it does not see writes that restore the value, writes on rare branches (warm start, no intercept, already dense input), or writes visible only to a concurrent reader.",
     ["base/matrix.go", "preprocessing/data.go", "preprocessing/label.go", "linear_model/Base.go", "linear_model/bayes.go", "neural_network/basemlp64.go", "metrics/regression.go", "metrics/classification.go", "model_selection/split.go", "interpolate/interpolate.go"],
     [("views instead of copies", "base/matrix.go ToDense"), ("centering and scaling of a copy", "linear_model/Base.go PreprocessData"), ("shuffling of a private copy", "neural_network/basemlp64.go fit")],
     "whole-program abstract interpretation: points-to and effect analysis of every store against memory reachable from input parameters", SOUND)

prop("P02", "Inference leaves the fitted model untouched",
     "Predicting, scoring, transforming, inverse transforming, querying neighbours, evaluating kernels, metrics and interpolating functions, cloning and reading properties never change the object or function they are called on, nor any state shared by the whole program. Repeating such a call, or making it from several goroutines at once, therefore finds the same model.",
     ["inputs", "histories", "schedules", "configurations"], "all inference, scoring, cloning and accessor methods of all exported types, all exported functions that compute a result, all functions they return, all arguments and configurations",
     "Tests call Predict once on a fresh model; lazily initialised fields, cached work space and refitting inside Score only show after a particular history or under concurrency.",
     ["linear_model/Base.go", "neural_network/multilayer_perceptron.go", "neighbors/base.go", "neighbors/kdtree.go", "svm/svm.go", "cluster/kmeans.go", "gaussian_process/gpr.go", "preprocessing/data.go", "pipeline/pipeline.go", "naive_bayes/naivebayes.go"],
     [("forward pass into caller's matrix", "neural_network/basemlp64.go predict"), ("neighbour search over a shared tree", "neighbors/kdtree.go"), ("clone copies", "PredicterClone/TransformerClone methods")],
     "whole-program abstract interpretation: effect analysis of every store against memory reachable from the receiver and package variables", SOUND)

prop("P03", "Clones and originals are independent",
     "After an estimator, transformer, splitter, random source or kernel has been cloned, fitting, partially fitting, splitting with, drawing from, reseeding or setting the parameters of either of the two never changes the other, even when the original was already fitted. This is what lets cross-validation and grid search fit clones in parallel.",
     ["histories", "schedules", "configurations"], "every cloneable type, every mutating method, called on either side after cloning, any prior history of the original",
     "Sharing shows only when an already fitted or seeded object is cloned and one side is then changed in place; tests clone fresh objects.",
     ["linear_model/Base.go", "linear_model/coordinatedescent.go", "naive_bayes/naivebayes.go", "neural_network/multilayer_perceptron.go", "preprocessing/data.go", "preprocessing/label.go", "preprocessing/pca.go", "svm/svm.go", "gaussian_process/gpr.go", "base/source.go", "model_selection/split.go", "pipeline/pipeline.go"],
     [("shallow struct copy plus deep copies of what fit writes in place", "PredicterClone/TransformerClone"), ("fit replaces learned storage", "Fit methods"), ("random sources are cloned", "base/source.go SourceClone")],
     "abstract interpretation of clone-then-mutate scenarios: alias and effect analysis across the two objects", SOUND)

prop("P04", "Clones keep the type and configuration",
     "A clone has the same concrete type as its original and carries every setting of it: each field that fitting does not itself recompute has the original's value in the clone. A kernel cloned with new parameters has these parameters and otherwise the original's settings. Every estimator answers the whole estimator interface itself, never through an unset embedded interface.",
     ["configurations", "histories"], "every cloneable type, every field, every value of the configuration",
     "A test that clones one configuration does not notice a dropped or defaulted field; the set of fields is open-ended.",
     ["linear_model/Base.go", "linear_model/logistic.go", "neighbors/classification.go", "neighbors/regression.go", "neighbors/nearest_centroid.go", "svm/svm.go", "cluster/kmeans.go", "cluster/dbscan.go", "preprocessing/data.go", "preprocessing/label.go", "model_selection/split.go", "pipeline/pipeline.go", "gaussian_process/kernels/kernels.go"],
     [("struct copy", "PredicterClone/TransformerClone/SplitterClone methods"), ("estimator interfaces", "base/interfaces.go")],
     "abstract interpretation of clone methods: per-field value-flow from original to clone; type-checked method-set query for interface completeness", SOUND)

prop("P05", "Fitted models own their data",
     "After fitting, a model keeps no reference to the caller's training matrices, so changing them later cannot change the model or its predictions. What prediction, transformation and neighbour queries return shares no storage with the model.",
     ["inputs", "histories", "configurations"], "all estimators and transformers, all inputs, all later modifications by the caller",
     "Aliasing is invisible until the caller reuses its buffers after Fit; tests do not.",
     ["neighbors/classification.go", "neighbors/regression.go", "neighbors/base.go", "naive_bayes/naivebayes.go", "gaussian_process/gpr.go", "svm/svm.go", "preprocessing/data.go", "linear_model/Base.go", "base/matrix.go"],
     [("copy of the training set", "Fit of neighbours models and Gaussian processes"), ("dense views", "base/matrix.go ToDense")],
     "abstract interpretation: points-to reachability from the model to the arguments after Fit, and from results to the model", SOUND)

prop("P06", "Refitting forgets the previous fit",
     "Fitting an already fitted model on new data, with warm start off, gives what a fresh model of the same configuration gives: nothing learned in an earlier fit (coefficients, statistics, counters, histories, classes, sizes, derived settings) influences or survives in the refitted model or in what FitTransform returns, except the state of its random source.",
     ["histories", "configurations", "inputs"], "every estimator and transformer, every pair of successive training sets, every configuration with warm start off",
     "Needs two fits on data of different shape or labels in one history; tests fit once.",
     ["cluster/dbscan.go", "cluster/kmeans.go", "linear_model/logistic.go", "naive_bayes/naivebayes.go", "neural_network/basemlp64.go", "neural_network/basemlp32.go", "preprocessing/data.go", "preprocessing/pca.go", "preprocessing/label.go", "svm/svm.go"],
     [("reset before partial fit", "preprocessing/data.go Reset"), ("initialisation of weights and histories", "neural_network/basemlp64.go initialize")],
     "abstract interpretation with taint of the model's previous state: flow from earlier learned values into what Fit leaves behind", SOUND)

prop("P07", "Concurrent work is free of data races",
     "While the library works in parallel (parallel loops over samples, features or outputs, the goroutines of splitters, cross-validation, grid search and neighbour queries), no two of its goroutines access the same memory at the same time with one of them writing, unless they hold a common lock or touch elements that belong to them alone. This includes work buffers, accumulators, result slices, models being fitted and the state of random sources. Types that carry their own lock (the locked random source) can be used from several goroutines at once.",
     ["schedules", "inputs", "configurations"], "every goroutine started by any exported operation, every interleaving, every number of processors, every configuration",
     "A race shows only under a particular interleaving and with enough processors and outputs; tests run few workers once and usually see the right numbers.",
     ["base/parallel.go", "base/source.go", "model_selection/validation.go", "model_selection/search.go", "model_selection/split.go", "neighbors/base.go", "neighbors/kdtree.go", "neighbors/unsupervised.go", "linear_model/Base.go", "linear_model/coordinatedescent.go", "cluster/kmeans.go", "svm/svm.go", "preprocessing/data.go", "preprocessing/imputation.go", "preprocessing/discretization.go", "naive_bayes/naivebayes.go", "datasets/samples_generator.go"],
     [("disjoint index ranges per worker", "base/parallel.go Parallelize"), ("per-fold clones and result slots", "model_selection/validation.go CrossValidate"), ("locked random source", "base/source.go LockedSource")],
     "whole-program abstract interpretation: happens-before regions, locksets and ownership (per-instance index labels, recency of allocations) over all accesses made while goroutines run", SOUND + " User-supplied random sources are assumed to implement SourceCloner, as the library's own do.")

prop("P08", "Parallel work is joined and never hangs",
     "Every operation that starts goroutines waits for all of them before it returns, so nothing goes on running or writing results after the call; no history of calls can hang or crash on the library's own synchronisation: wait-group counters return to exactly zero, every lock is released on every path and never taken again by its holder, locks are taken in one order, channels are closed exactly once, never sent on after closing, closed when their sender is done if someone ranges over them, and every value sent is received. Generators that hand out a channel deliver all values and then close it.",
     ["schedules", "inputs", "configurations", "histories"], "every goroutine, wait group, mutex and channel of every exported operation, every path (early exits, empty ranges, more processors than samples), every interleaving",
     "A missing Done, an early return with a lock held or a break out of a receiving loop only hangs for particular sizes, processor counts or data; tests run the usual path.",
     ["base/parallel.go", "base/source.go", "model_selection/validation.go", "model_selection/search.go", "model_selection/split.go", "preprocessing/itertools.go", "linear_model/coordinatedescent.go", "linear_model/Base.go", "metrics/ranking.go"],
     [("wait group per parallel loop", "base/parallel.go Parallelize"), ("lock around a random source", "base/source.go LockedSource"), ("splits delivered over a channel", "model_selection/split.go Split"), ("fold results over a channel", "model_selection/validation.go CrossValidate")],
     "whole-program abstract interpretation: typestate of locks and channels, symbolic wait-group counters, must-join of pending goroutine regions at every return", SOUND + " A generator's channel is assumed to be drained by its consumer, as the library's own consumers do.")

prop("P09", "Seeded results are reproducible",
     "Once the random sources an object or call accepts (RandomState, random_state and the like) are set, what it computes depends only on its inputs, its configuration and the seed: fitting, splitting, generating data sets, searching, predicting and transforming never draw from a global or self-made generator instead, never depend on the clock, on the iteration order of a map, or on the order in which goroutines happen to run or finish (for instance through shared draws or through floating-point sums in completion order).",
     ["schedules", "configurations", "inputs", "histories"], "every exported operation with its random sources set, every configuration, every interleaving, every map iteration order",
     "Two runs of a test rarely differ: map order, ties, scheduling and a forgotten fallback to the global generator show only for particular data and configurations, and then only sometimes.",
     ["base/source.go", "neighbors/classification.go", "naive_bayes/naivebayes.go", "model_selection/search.go", "model_selection/split.go", "datasets/samples_generator.go", "linear_model/coordinatedescent.go", "linear_model/Base.go", "cluster/kmeans.go", "svm/svm.go", "neural_network/basemlp64.go", "preprocessing/label.go", "preprocessing/data.go"],
     [("seeded sources threaded to every draw", "RandomState fields"), ("classes and categories sorted after collecting them in a map", "naive_bayes/naivebayes.go, neighbors/classification.go, preprocessing/label.go"), ("per-worker results combined in index order", "cluster/kmeans.go, linear_model/Base.go")],
     "whole-program abstract interpretation with taint of the sources of nondeterminism (global generators, clock, map iteration, goroutine completion order) and of order-insensitive reductions that remove it", SOUND + " Early stopping on a user-set time limit is outside the property.")

prop("P10", "Views of larger matrices are treated like copies",
     "What an operation computes, and where it stores results, does not depend on how the caller's matrices are laid out in memory: for a matrix that is a view of a larger one (rows further apart than it has columns) or a vector taken from a column, every element is read and written at its own place, elements of the storage between the rows are neither read as data nor overwritten, and offsets into one matrix are never computed with the stride of another.",
     ["inputs", "configurations"], "all matrix arguments of all exported functions and methods, dense or not, with any stride or increment",
     "Nearly every test uses freshly made contiguous matrices, for which the stride equals the number of columns; a wrong stride, a loop over the whole storage or a header with another stride is invisible there.",
     ["preprocessing/data.go", "preprocessing/label.go", "preprocessing/imputation.go", "metrics/base.go", "metrics/classification.go", "neural_network/basemlp64.go", "neural_network/general.go", "base/matrix.go", "cluster/distance.go", "svm/svr.go", "naive_bayes/naivebayes.go", "linear_model/logistic.go"],
     [("row offsets advanced by each matrix's own stride", "preprocessing/data.go Transform methods"), ("sub-matrix headers", "base/matrix.go MatGeneralSlice"), ("raw storage in perceptrons", "neural_network/general.go, basemlp64.go")],
     "whole-program abstract interpretation: provenance of every index, slice bound and header over matrix storage (which matrix's stride, increment, column or row count it was built from)", SOUND + " Row and column counters are told apart by what bounds them; an index whose bounds say nothing about rows or columns is not judged.")

prop("P11", "Predictions arrive in the caller's matrix",
     "Every prediction method delivers its result in the output matrix it is given, on every path and in every configuration, whether that is a dense matrix of the right size, an empty dense matrix or any other mutable matrix: no branch leaves the matrix, or the elements of it that it decides about, with what they held before; nothing delivered or returned is added to, or computed from, what the matrix held before; and the matrix returned is not changed any more once it has been copied to the caller's. Without an output matrix the result is returned in a new one, and an empty output matrix is filled instead of being rejected.",
     ["inputs", "configurations", "histories"], "all Predict*, PredictProba*, PredictLogProba* and DecisionFunction methods of all exported types, all kinds of output matrices with any previous content, all paths",
     "Tests predict into nil or into a freshly zeroed matrix of the right size, for which a skipped store, an addition instead of an assignment or a result left in a private copy cannot be told from the right result.",
     ["base/matrix.go", "linear_model/Base.go", "linear_model/bayes.go", "linear_model/logistic.go", "neighbors/classification.go", "neighbors/regression.go", "neighbors/nearest_centroid.go", "svm/svm.go", "svm/svr.go", "cluster/kmeans.go", "cluster/dbscan.go", "naive_bayes/naivebayes.go", "neural_network/multilayer_perceptron.go", "gaussian_process/gpr.go", "pipeline/pipeline.go"],
     [("results copied to outputs that are not dense", "base/matrix.go FromDense"), ("empty outputs sized in place", "Predict methods, `if Y.IsEmpty()`"), ("forward pass into the caller's storage", "neural_network/basemlp64.go predict")],
     "whole-program abstract interpretation: taint of the previous content of the output matrix through every path to its content and to the result at return, and order of writes to returned and delivered storage", "Sound over the abstraction for what is left on some path; a store to an element is taken to be repeated for all elements its loop is meant for (coverage of index ranges is not judged), and loops are taken to run at least once (an empty matrix has no content).")

prop("P12", "Scores are honest",
     "Evaluation compares a model's own predictions with targets it had no access to: scoring predicts from the X it is given with the model it is called on, the targets reach neither the data predicted from nor the predictions, and whatever compares the two gets the true targets as true and the predictions as predicted. The X a transformer returns never depends on the Y passed along to its Fit or Transform, and pipelines hand their steps (transformed) X as data and Y as targets. Cross-validation and grid search set the parameters of and fit only clones of the estimator, on rows of X and Y picked by the fold's training indices only, and judge what they fitted on rows picked by its test indices only.",
     ["inputs", "configurations", "histories"], "all scoring, transforming, cross-validating and searching operations, all estimators, splitters, scorers and configurations",
     "A leak makes scores better, not wrong-looking: a test that asks for a score above a threshold passes all the more, and metrics that are symmetric for the tested data hide swapped arguments.",
     ["model_selection/validation.go", "model_selection/search.go", "pipeline/pipeline.go", "linear_model/Base.go", "linear_model/logistic.go", "neighbors/classification.go", "neighbors/regression.go", "neighbors/nearest_centroid.go", "svm/svm.go", "neural_network/multilayer_perceptron.go", "gaussian_process/gpr.go", "naive_bayes/naivebayes.go", "preprocessing/data.go", "preprocessing/label.go", "preprocessing/imputation.go"],
     [("training and test rows copied per fold", "model_selection/validation.go CrossValidate"), ("candidates scored by cross-validation", "model_selection/search.go Fit"), ("prediction, then comparison", "Score methods"), ("chained steps", "pipeline/pipeline.go")],
     "whole-program abstract interpretation: information flow from the targets, the test rows and the predictions to the arguments of predictions, fits and comparisons", "Sound over the abstraction for flows of values; which indices a splitter puts into a fold is its own business (training and test indices are told apart by the field they are delivered in), and a user's own function that is handed the targets may use them.")

prop("P13", "Folds partition the samples",
     "For every number of samples and folds, the test sets of a splitter are disjoint and together contain every sample exactly once, and each training set is the complement of its test set.",
     ["inputs", "configurations"], "all sample counts, fold counts, shuffles and seeds", "Tests try a few sizes.",
     ["model_selection/split.go"], [("fold boundaries", "model_selection/split.go KFold.Split")], "", "")
NA["P13"] = "a statement about integer index ranges that depend on run-time sizes and a permutation; deciding it needs arithmetic reasoning about array contents (a solver), not dataflow"

prop("P14", "Parallel loops visit every item",
     "For every number of items and workers, a parallel loop hands every item to exactly one worker, so results do not depend on the number of processors.",
     ["inputs", "configurations", "schedules"], "all item and worker counts", "Tests run with the machine's own number of processors.",
     ["base/parallel.go"], [("ranges per worker", "base/parallel.go Parallelize")], "", "")
NA["P14"] = "that no two workers get the same item is part of P07; that the ranges leave no gap is integer arithmetic with rounding over run-time quantities, which the abstraction does not bound"

prop("P15", "Metrics equal their definitions",
     "Every metric returns the value its definition gives for all targets, predictions, weights and averaging options, including ties, absent classes and multiple outputs.",
     ["inputs", "configurations"], "all targets, predictions, weights and options", "Tests compare a few examples with published values.",
     ["metrics/classification.go", "metrics/regression.go", "metrics/ranking.go"], [("weighted sums", "metrics/regression.go")], "", "")
NA["P15"] = "the numbers computed are run-time quantities; a static argument would need the definitions as a second implementation and a proof of floating-point equivalence"

prop("P16", "Tree queries equal brute force",
     "For every data set, metric and query, searching neighbours through the tree returns the same neighbours and distances as comparing with every sample.",
     ["inputs", "configurations"], "all samples, queries, metrics, leaf sizes and radii", "Tests compare a few random data sets.",
     ["neighbors/kdtree.go"], [("pruning by distance to the bounding rectangle", "neighbors/kdtree.go")], "", "")
NA["P16"] = "correctness of pruning is an inequality between computed distances, out of reach of dataflow, effect or type analyses"

prop("P17", "Inverse transforms undo transforms",
     "For every invertible transformer, InverseTransform of what Transform returned gives the original data up to rounding.",
     ["inputs", "configurations"], "all invertible transformers and all data", "Tests use a few matrices.",
     ["preprocessing/data.go", "preprocessing/label.go"], [("scaling and shifting", "preprocessing/data.go")], "", "")
NA["P17"] = "an equality between computed numbers; whether two arithmetic expressions are inverse for all run-time values is an algebraic question, not a static one"

prop("P18", "Optimisers reach the optimum",
     "Fitting by gradient descent, coordinate descent, the libsvm-like solver or expectation steps ends, and ends within the tolerance of the minimum of the stated loss when the loss is convex.",
     ["inputs", "configurations"], "all data and settings", "Tests check scores on a few data sets.",
     ["linear_model/Base.go", "linear_model/coordinatedescent.go", "svm/svm.go", "neural_network/basemlp64.go"], [("stopping criteria", "fit loops")], "", "")
NA["P18"] = "convergence and termination depend on floating-point run-time values that no static abstraction in reach bounds"

prop("P19", "The 32-bit and 64-bit networks agree",
     "The single- and double-precision networks implement the same algorithm: for the same configuration, seed and data they differ only by rounding.",
     ["inputs", "configurations"], "all configurations and data", "Tests compare a few trainings.",
     ["neural_network/basemlp32.go", "neural_network/basemlp64.go"], [("one file generated from the other", "neural_network/basemlp64.go")], "", "")
NA["P19"] = "equivalence of two programs; a comparison of the two texts would be static but would raise an alarm on every refactoring of only one of them that changes nothing"
