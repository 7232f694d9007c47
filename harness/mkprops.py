"""Source of properties.jsonl (run: python3 harness/mkprops.py)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, symbols, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=s, where=files[0]) for s in symbols]), **kw))


G = "gama/"
p("C01", "Every submitted evaluation comes back exactly once, to its own handle",
  "For every sequence of submitting functions to the evaluation pool and waiting for results, with any number of worker processes and any execution times, each submitted call is returned exactly once by waiting, on the very handle that submitting it returned, carrying that call's own return value or its own exception. No call is lost, duplicated or given another call's outcome, whatever (picklable) value it returns or exception it raises, and the shared default keyword arguments reach every call. Waiting while nothing is outstanding raises an error instead of blocking, and the advertised queue size always equals the outstanding calls minus the number of workers.",
  ["schedules", "histories", "inputs"],
  "All interleavings of submit and wait with up to 3 workers; all result kinds (falsy, truthy, tuple, object with and without error, exceptions, MemoryError).",
  "No unit test exercises the pool directly; system tests only submit pipeline evaluations and never check which handle a result lands on.",
  [G + "utilities/generic/async_evaluator.py"], ["AsyncEvaluator.submit", "AsyncEvaluator.wait_next", "evaluator_daemon", "AsyncFuture.execute"])
p("C02", "Worker processes: exact count, replaced when dead, gone after the context",
  "Inside its context an evaluation pool runs exactly the configured number of worker processes, replaces a worker that died, and none of them is alive or a zombie once the context is left, whether it is left normally, by an exception (also one raised while a result is being read), or while workers are busy with calls that do not finish. With a memory limit, a worker is stopped exactly when total usage exceeds it while waiting, it is the one using the most memory, and at least one worker always remains. A pool can be entered only once.",
  ["schedules", "fault_sequences", "histories"],
  "All sequences of memory levels, worker deaths, waits and ways of leaving, for 1 to 3 workers.",
  "Needs worker crashes, memory pressure and interruption at chosen moments; existing tests contain none of these.",
  [G + "utilities/generic/async_evaluator.py"], ["AsyncEvaluator.__enter__", "AsyncEvaluator.__exit__", "AsyncEvaluator._control_memory_usage", "AsyncEvaluator._get_memory_usage"])
p("C03", "Evolutionary search keeps a bounded population of the best evaluated",
  "During asynchronous evolutionary search, for every order in which evaluations complete and every pattern of failures, the population never exceeds the population size, contains only individuals whose evaluation in this search succeeded, gains every success, and loses one only when it would grow too large: one that is not at least as good in every objective as, and different from, another member. Start candidates are evaluated first and in order, there is always an evaluation outstanding while the search goes on, and exactly the given maximum number of evaluations is processed. A restart discards the population and continues with a full set of new random candidates.",
  ["schedules", "fault_sequences", "configurations"],
  "All completion orders and outcome patterns of small searches (exhaustive from the model), random larger ones, up to 3 workers.",
  "The tests run whole searches with a single, uncontrolled completion order and only look at the final accuracy.",
  [G + "search_methods/async_ea.py", G + "genetic_programming/selection.py"], ["async_ea", "AsyncEA.search", "eliminate_from_pareto"])
p("C04", "Random search reports everything it evaluated and never idles",
  "Random search evaluates the start candidates first and in order, then new random individuals, submitting exactly one new individual for every completed evaluation so the number of outstanding evaluations never changes. Its result contains exactly the individuals whose evaluation returned a result, once each and in completion order, at every moment (also when interrupted), and it stops exactly when the requested number is reached. A second search does not retain the first one's individuals.",
  ["schedules", "fault_sequences", "histories"],
  "All completion orders and failure patterns in small searches, random larger ones, interruption after any completion.",
  "Tests run one uncontrolled schedule to a timeout and check accuracy only.",
  [G + "search_methods/random_search.py"], ["random_search", "RandomSearch.search"])
p("C05", "Successive halving promotes only the best fraction of each rung, once",
  "In asynchronous successive halving, for every completion order, an individual is evaluated on the next rung only if it is the best individual of its rung not yet promoted, while promotions from a rung never exceed the rung's completed evaluations divided by the reduction factor (rounded down), and no individual is promoted twice from the same rung; a promotion that is due is made before a new candidate is started. Each rung's resource is the minimum times the reduction factor to the power of the rung, capped at the maximum, the first evaluations of start candidates and new individuals are on the lowest used rung, and only evaluations on the top rung count as full evaluations. The result is the individuals of the highest rung on which an evaluation completed, also on timeout or interruption at any moment.",
  ["schedules", "fault_sequences", "configurations"],
  "All completion orders with small rungs, random larger configurations of factor, resources and early stopping rate, interruption at any completion.",
  "Promotion order under asynchronous completion is never asserted; tests run one schedule.",
  [G + "search_methods/asha.py"], ["asha", "evaluate_on_rung", "AsynchronousSuccessiveHalving.search"])
p("C06", "Variation operators only produce valid pipelines of the search space",
  "Every individual that creation, mutation or crossover produces is a well-formed pipeline of the search space: one predictor preceded only by preprocessors, each with exactly one allowed value for each of its hyperparameters, and no longer than the maximum pipeline length. A mutated individual differs from its parent by exactly one edit of the kind recorded as its origin (removed steps at the data end, one inserted preprocessor, one replaced step of the same type, or one changed hyperparameter), and a crossover child combines its two parents by exchanging one hyperparameter value or their preprocessing. The parents are never modified, the child has a new identity, no fitness yet, and names its parents, and random creation can produce every pipeline of the space up to the length limit.",
  ["inputs", "histories"],
  "All individuals and all random choices over small search spaces (every outcome admitted by the model is attempted), chains of operators over the shipped search spaces.",
  "Unit tests apply each operator to three fixed individuals and never through the layer which the search uses.",
  [G + "genetic_programming/mutation.py", G + "genetic_programming/crossover.py", G + "genetic_programming/operations.py", G + "genetic_programming/operator_set.py", G + "genetic_programming/components/individual.py"],
  ["OperatorSet.mutate", "OperatorSet.mate", "OperatorSet.individual", "random_valid_mutation_in_place", "random_crossover", "create_random_expression"])
p("C07", "Offspring are new: an already evaluated pipeline is not proposed again",
  "When an offspring is created, it is a pipeline that has not been evaluated before in this run if any of the allowed number of attempts yields one: the first such attempt is used and no further attempts are made. Every attempt starts from the unchanged parents. Only after the whole number of attempts yielded evaluated pipelines is an already evaluated one returned. Whether an individual counts as evaluated depends on its pipeline and hyperparameters, not on its identity, and covers failed as well as successful evaluations.",
  ["histories", "inputs"],
  "All histories of evaluated pipelines and attempt outcomes up to the bound.",
  "No test covers repeated offspring.",
  [G + "genetic_programming/operator_set.py", G + "utilities/evaluation_library.py"], ["OperatorSet.try_until_new", "EvaluationLibrary.lookup"])
p("C08", "Pareto front and parent selection respect dominance",
  "For every sequence of updates, a Pareto front holds exactly the items that no other item so far equals or exceeds in every objective (the first of equal items), and each update reports whether the front changed. Non-dominated sorting selection of any n items never leaves out an item that is better in every objective than a selected one, and within the last front prefers less crowded items. Selected parent pairs consist of two different members, and a member ranked behind all others is never a parent.",
  ["inputs", "histories"],
  "All populations of up to 4 items with values in a small grid (exhaustive from the model), and random larger ones with 1 to 3 objectives.",
  "Tests use one fixed set of points and do not test pair selection.",
  [G + "utilities/generic/paretofront.py", G + "genetic_programming/nsga2.py", G + "genetic_programming/selection.py"],
  ["ParetoFront.update", "nsga2", "nsga2_select", "fast_non_dominated_sort", "crowding_distance_assignment", "create_from_population"])
p("C09", "The evaluation library keeps models of exactly the m best evaluations",
  "After any sequence of saved evaluations the library offers predictions and estimators of exactly the m best successful evaluations (any choice among equal scores) and of no others, with one cache file for each of these and no other file, and every evaluation, failed or not, stays recorded once with its score and error. Querying the n best returns the n best of them in descending order of score. The predictions offered are those of the evaluation restricted to the same sampled rows for every evaluation, at most n rows, all of them when no limit applies; rows can be sampled whatever the sizes of the classes.",
  ["histories", "inputs"],
  "All save sequences up to length 5 over 3 scores and failures for m in {0,1,2,none} (exhaustive from the model), random longer ones with sampling.",
  "Tests save a few evaluations in increasing order; ties, evictions after failures and files on disk are not covered.",
  [G + "utilities/evaluation_library.py"], ["EvaluationLibrary.save_evaluation", "EvaluationLibrary.n_best", "EvaluationLibrary.determine_sample_indices", "Evaluation.to_disk"])
p("C10", "An interrupted save never leaves an unusable model in the library",
  "If saving an evaluation is interrupted at any point (the search's timeout is raised inside running code), every evaluation the library subsequently offers among its best still has its complete predictions and estimators available, and scores are unchanged. At most the evaluation being saved and the one it displaces may be missing. Later saves and queries keep working.",
  ["crash_points", "histories"],
  "Interruption at every executed line of the save, after every kind of history prefix.",
  "Tests never interrupt a save.",
  [G + "utilities/evaluation_library.py", G + "gama.py"], ["EvaluationLibrary.save_evaluation", "Evaluation.to_disk", "Gama._safe_outside_call"])
p("C11", "Ensembles are built greedily and predict the weighted mean of their models",
  "The ensemble starts from the best models of the library and every further addition is a model that, added to the current weighted average, scores best on the held-out predictions, compared row by row with the matching labels (also when only a sample of rows is stored); the total weight equals the requested ensemble size. Its prediction is the mean over the selected models' estimators weighted by how often each model was chosen, for classification the class with the largest weighted vote or probability. Pickling leaves the ensemble unchanged and the copy predicts the same; both can be printed.",
  ["inputs", "histories", "configurations"],
  "Random libraries of models, metrics (regression error, accuracy, log loss), sizes and samples; greedy choice recomputed in exact arithmetic by the specification.",
  "Tests check one export and fit_and_weight; nothing checks which models are chosen, or the weights.",
  [G + "postprocessing/ensemble.py"], ["Ensemble.expand_ensemble", "Ensemble.build_initial_ensemble", "Ensemble.fit", "build_fit_ensemble", "EnsembleClassifier.predict", "EnsembleRegressor.predict"])
p("C12", "A pipeline is scored on rows it was not trained on, or reported as failed",
  "In every successful evaluation each row's prediction comes from an estimator that was not trained on that row, the folds cover every row exactly once, and the scores are the means over folds of each metric on exactly those predictions; when a subsample is requested only the training folds shrink, to the requested size. If anything fails or times out at any point of the evaluation, the result has no predictions, no estimators, minus infinity for every metric and an error. The recorded score has the (negated) number of steps appended exactly when length regularization is on, and equals the individual's fitness.",
  ["inputs", "fault_sequences", "configurations"],
  "All fault points (each fit/predict call), classification and regression, non-default indices, subsample sizes as fraction and count, 1-2 metrics.",
  "Tests check score values for three pipelines; leakage, fault points and subsampling are not checked.",
  [G + "genetic_programming/compilers/scikitlearn.py"], ["evaluate_pipeline", "evaluate_individual", "compile_individual"])
p("C13", "Time budgets: phases and evaluations never get more than what is left",
  "Search gets the remaining time minus the fraction reserved for post-processing, post-processing gets what is then left of the total, and each evaluation may take at most the maximum evaluation time and never past the end of the search; the maximum evaluation time defaults to a tenth of the total and never exceeds the total. Elapsed and remaining time reported for activities account for all time of all activities exactly, with none running after an activity ended, also if it ended by an error, and the recorded duration of an evaluation is the time it took. Every fit starts with the full budget.",
  ["schedules", "configurations", "histories"],
  "All sequences of clock advances, activities, errors and queries within bounds, under a virtual clock; all combinations of total time, evaluation time and time fraction in the grid.",
  "Tests use a wall clock, few durations and tolerances.",
  [G + "utilities/generic/timekeeper.py", G + "utilities/generic/stopwatch.py", G + "gama.py", G + "genetic_programming/compilers/scikitlearn.py"],
  ["TimeKeeper.start_activity", "TimeKeeper.total_time_remaining", "Gama.fit", "evaluate_individual"])
p("C14", "Output directory: never overwrites, keeps exactly what was asked for",
  "Constructing never uses an existing non-empty output directory (it is rejected and left untouched) and creates the directory otherwise; rejected settings for times and number of jobs leave no directory behind. After fitting, the output directory holds exactly what the storage setting says: nothing (no directory), only logs, only cached models, or both, and cleaning up removes exactly the kind of files it names. Nothing outside the output directory is created, changed or removed, also over repeated fits of one object.",
  ["configurations", "histories"],
  "All sequences of construct, fit, refit and cleanup over all storage settings and directory states up to the bound.",
  "Tests always clean up at once and never inspect files.",
  [G + "gama.py"], ["Gama.__init__", "Gama.cleanup", "Gama.fit"])
p("C15", "Callbacks see every evaluation once, in order, and cannot harm the search",
  "Every completed evaluation that has a result is passed exactly once to every registered callback, in registration order, before the search continues; evaluations that raised are not. An error raised by one callback is not propagated and does not keep the other callbacks or the search from proceeding, while the search's timeout raised in a callback does end the search, and is raised if a callback has swallowed it well past the limit. Built-in recording (library and log) therefore contains every evaluation passed.",
  ["histories", "fault_sequences"],
  "All patterns of callback behaviours (ok, error, timeout) and evaluation outcomes up to the bound.",
  "No test registers a callback that fails.",
  [G + "gama.py", G + "genetic_programming/operator_set.py"], ["Gama._on_evaluation_completed", "Gama._safe_outside_call", "Gama.evaluation_completed", "OperatorSet.wait_next"])
p("C16", "fit ends with the best found pipeline trained on all data",
  "Whenever the search ends (completed, timed out or interrupted by the user) with at least one individual, fit continues and its model is the individual with the lexicographically highest fitness among the search's result, trained on all labelled rows; fit returns the fitted object itself. The search starts from the given warm-start individuals, otherwise from the previous fit's result if there is one, otherwise from fifty new random individuals, and the caller's list is left unchanged. Before a model exists, exporting raises an error; warm-start lists holding anything but individuals are rejected.",
  ["histories", "fault_sequences"],
  "All sequences of fits with/without warm start, with each way of ending the search at any point.",
  "Tests fit once, to completion.",
  [G + "gama.py", G + "postprocessing/best_fit.py", G + "search_methods/"], ["Gama.fit", "Gama._search_phase", "BestFitPostProcessing.post_process", "Gama.export_script"])
p("C17", "Predictions use the original labels, one per row, with calibrated columns",
  "For every supported form of target (strings, numbers, booleans, categories, one-column frames, indicator matrices, rows in any index order) predictions of a fitted classifier are an array with one entry per input row, each one of the labels seen in fit with its original type and value. Probabilities have one column per label in sorted label order, rows summing to one. Rows without label are ignored: the result equals fitting on the labelled rows only, whatever the indices of features and target.",
  ["inputs"],
  "Label types x missing-label positions x index shapes x single model and ensemble.",
  "Tests use a few datasets, without unlabelled rows or mismatched indices.",
  [G + "GamaClassifier.py", G + "data_formatting.py", G + "gama.py"], ["GamaClassifier.fit", "GamaClassifier.predict_proba", "GamaClassifier._predict", "format_x_y", "remove_unlabeled_rows", "format_y"])
p("C18", "Loading a file yields its rows, columns, types and target unchanged",
  "Loading a csv or ARFF file yields every data row in order with every value, splitting off exactly the named target column (or the last one if none is named) and rejecting an unknown one or another file type. Columns declared nominal (ARFF), or textual, or integer-valued with at most ten distinct values (csv and arrays) become categorical and all others keep their numeric values; separator and header given by the caller are honoured, otherwise they are those recognised by Python's csv module. Column names and declared types reported for a file match it.",
  ["inputs"],
  "Random tables over all column kinds, separators, header presence, missing values, target position.",
  "Tests load two fixed datasets.",
  [G + "data_loading.py", G + "data_formatting.py"], ["X_y_from_file", "csv_to_pandas", "arff_to_pandas", "file_to_pandas", "series_looks_categorical", "load_feature_metadata_from_file"])
p("C19", "Search-space parsing offers exactly the configured choices; merging is a union",
  "The parsed search space offers exactly one operator per configured class (of distinct names), of the kind its type implies, and for each of its hyperparameters exactly the configured values, taking shared ones from the shared list whatever the order of entries; anything else as key is rejected. Merging two configurations gives the union of operators, hyperparameters and values (given in the same kind of collection), and leaves both unmodified. Classifiers that cannot give probabilities are excluded exactly when a metric needs probabilities.",
  ["inputs", "configurations"],
  "Random configurations over a set of operators, parameter kinds (lists, ranges, arrays, dictionaries, shared), all pairs for merging.",
  "Tests parse two fixed configurations.",
  [G + "configuration/parser.py", G + "GamaClassifier.py"], ["pset_from_config", "merge_configurations", "GamaClassifier.__init__"])
p("C20", "Individuals and evaluation logs can be read back without loss",
  "The text form of any individual of the search space (with hyperparameter values of distinct texts free of brackets, commas and equals signs, as in the shipped spaces) parses back to an individual with the same steps and hyperparameter values (and hence the same text), and distinct pipelines have distinct texts; incomplete or unknown text is rejected. The evaluation log has one record per evaluation, in order, from which every logged field is recovered, whatever text the error contains. A report on the logs of a run lists each evaluation exactly once with its scores, also when it is updated while the log grows.",
  ["inputs", "histories"],
  "All individuals of small spaces, random ones of the shipped spaces, error texts with separators, quotes and newlines, all ways to split a log into appended chunks.",
  "Tests read three stored logs.",
  [G + "genetic_programming/components/individual.py", G + "genetic_programming/components/primitive_node.py", G + "logging/evaluation_logger.py", G + "logging/GamaReport.py"],
  ["Individual.from_string", "Individual.pipeline_str", "EvaluationLogger.log_evaluation", "GamaReport.update"])
p("C21", "Exported code rebuilds the model",
  "Executing the exported script defines an unfitted pipeline with the same preprocessing (same columns), the same steps in the same order with the same hyperparameter values as the selected model (for features with textual names), or for an ensemble every selected model with its weight and the voting implied by the metric. Fitted on the same data a deterministic exported pipeline gives the same predictions as the model. An existing file is only overwritten when allowed, and exporting does not change what the fitted object predicts.",
  ["inputs", "configurations"],
  "Random individuals of the shipped spaces, column layouts incl. many categorical columns, single models and ensembles.",
  "Tests export two fixed pipelines.",
  [G + "utilities/export.py", G + "postprocessing/best_fit.py", G + "postprocessing/ensemble.py", G + "gama.py"],
  ["imports_and_steps_for_individual", "transformers_to_str", "BestFitPostProcessing.to_code", "EnsemblePostProcessing.to_code", "Gama.export_script"])
p("C22", "Same seed and one job: same search",
  "Two fresh processes that run the same search method on the same data with the same random state, one job and the same number of evaluations evaluate the same pipelines in the same order with the same scores, and end with the same model and predictions. This holds for every search method.",
  ["schedules", "configurations"],
  "Pairs of runs in separate processes (different hash seeds) for each search method and several seeds.",
  "The one test compares the initial population only.",
  [G + "gama.py", G + "search_methods/"], ["Gama.__init__", "async_ea", "asha", "random_search"])
p("C23", "Several AutoML objects in one process do not influence each other",
  "For every interleaving of constructing, fitting (one at a time, any number of times) and predicting with several objects, each fit uses its own number of jobs, memory limit, time limits, data, metrics and output directory, and its model and recorded evaluations are only its own. Importing or using one part of the package leaves the default search spaces and the caller's data and search-space dictionary unchanged.",
  ["histories", "schedules"],
  "All interleavings of construct/fit/predict of up to three objects with different settings.",
  "Tests use one object at a time.",
  [G + "gama.py", G + "utilities/generic/async_evaluator.py", G + "configuration/"], ["Gama.__init__", "Gama._search_phase", "merge_configurations"])
p("C24", "Categorical features are encoded by their number of values, losing no row",
  "A categorical feature with at most two values is encoded to one ordinal column, with three to ten values to one indicator column per value (missing values may have one as well), and with more to one ordinal column in classification or left for target encoding inside the pipeline in regression; constant categorical features are dropped and numeric features are passed through unchanged. Encoding keeps every row in order, and missing or unseen values never make prediction fail. The same encoding fitted on the training data is applied for prediction.",
  ["inputs"],
  "Random tables over numbers of categories 1..14, missing values, classification and regression.",
  "Tests do not cover encoding decisions.",
  [G + "utilities/preprocessing.py", G + "gama.py"], ["basic_encoding", "basic_pipeline_extension", "select_categorical_columns", "Gama._prepare_for_prediction"])
p("C25", "Metrics: higher is better, known type, right input",
  "For every supported metric name the maximizable score increases with the quality of predictions (it is the negated loss for losses), is the value by which evaluations and ensembles are compared, and the plain score equals the metric's own value. A metric is classified as classification or regression, and as needing probabilities exactly if it is computed from them; names, metric objects and collections of these convert to the same metrics in order, and anything else is rejected. Scoring a fitted model equals applying the metric to its predictions.",
  ["inputs", "configurations"],
  "All supported metrics, random predictions of graded quality.",
  "Tests check construction of a few metrics.",
  [G + "utilities/metrics.py", G + "gama.py"], ["Metric.maximizable_score", "scoring_to_metric", "Gama.score"])
p("C26", "Command line options take effect as documented",
  "Every combination of command-line options results in the documented configuration: minutes become seconds, the mode is inferred from the target's type unless given, long pipelines are only discouraged by default, and target, separator, metric, jobs, output directory and verbosity are passed on. A dry run fits nothing and leaves no files, otherwise the model is pickled to the requested file and code exported only if asked for. A missing file, unknown file type or mode is an error.",
  ["configurations", "inputs"],
  "All pairs of option values (exhaustive over the option grid of the model).",
  "Tests run four fixed command lines, all dry.",
  [G + "utilities/cli.py"], ["main", "make_parser"])
p("C27", "The pipeline evaluated is exactly the one the individual describes",
  "For every individual, the pipeline that is built from it, evaluated, and becomes the model is the fixed preprocessing of this fit (the same in every pipeline) followed by the individual's steps from the data to the predictor, each with exactly the individual's hyperparameter values and its default for the others. Every pipeline is built anew: fitting one changes no other pipeline, and building changes neither the individual, the search space nor the preprocessing steps given.",
  ["inputs", "histories"],
  "All small individuals over generated search spaces, every preprocessing prefix, sequences of build/fit/change.",
  "Tests compile a few fixed individuals.",
  [G + "genetic_programming/compilers/scikitlearn.py", G + "genetic_programming/components/individual.py", G + "postprocessing/best_fit.py"],
  ["compile_individual", "primitive_node_to_sklearn", "Individual.pipeline", "BestFitPostProcessing.post_process"])
p("C28", "A row's prediction depends on that row only, however the data is given",
  "A fitted object gives the same prediction (and probabilities) for a row whatever other rows are predicted with it, in whatever order, with whatever index, in one call or several, and given as a data frame, an array, or a csv or ARFF file whose columns read as the same types as in training. In files the target column is split off wherever it is and its values do not influence the predictions; the score from a file equals the score on the same data. Repeated calls give the same answer, and predicting modifies neither the data nor the files.",
  ["inputs", "histories"],
  "All sequences of up to three prediction calls over subsets and permutations of rows and all forms of the data.",
  "Tests predict once on one table.",
  [G + "gama.py", G + "GamaClassifier.py", G + "data_loading.py"],
  ["Gama.predict", "Gama.predict_from_file", "Gama._prepare_for_prediction", "Gama._np_to_matching_dataframe", "GamaClassifier.predict_proba", "GamaClassifier.predict_proba_from_file"])
p("C29", "Settings take effect, and what is not set has its documented default",
  "For every combination of settings: with n_jobs unset half the cores (at least one) are used and with -1 all; the preset or given search method and post processing is the one used, with its set hyperparameters over its defaults; discouraging long pipelines adds one objective; no pipeline is longer than the maximum, and initial pipelines have at most three steps if no maximum is set (one without preprocessing). Models are stored only for ensembles and at most as many as asked for. When models are stored, nearest neighbours are left out for data of more than 6,000,000 cells and polynomial features for more than 50 features, judged by the data of the current fit and unless nothing else is left. Unknown presets and impossible lengths are errors.",
  ["configurations", "histories"],
  "All pairs of setting values, sequences of fits on data of different shapes.",
  "Tests use a handful of configurations.",
  [G + "gama.py", G + "search_methods/base_search.py", G + "search_methods/asha.py"],
  ["Gama.__init__", "Gama.fit", "BaseSearch.hyperparameters", "AsynchronousSuccessiveHalving.dynamic_defaults"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as fh:
        for x in P:
            fh.write(json.dumps(x) + "\n")
    print(len(P), max(len(x["title"]) for x in P))
