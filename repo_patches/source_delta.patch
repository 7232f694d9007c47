From 29c58e99f94e69f2ebad2730eeb93e6270339e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:55 +0000
Subject: [PATCH 01/54] fix: do not hand the search its own output (or the
 caller's list) as start candidates

A second `fit` passed `_final_pop`, which is the search method's output list;
async_ea clears that list in place, after which no candidate is left and the
search fails with 'No Futures queued'. ASHA also popped from the caller's
warm_start list.
---
 gama/gama.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index c06cbcb..19f7353 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -626,9 +626,9 @@ class Gama(ABC):
         if warm_start:
             if not all(isinstance(i, Individual) for i in warm_start):
                 raise TypeError("`warm_start` must be a list of Individual.")
-            pop = warm_start
+            pop = list(warm_start)
         elif warm_start is None and len(self._final_pop) > 0:
-            pop = self._final_pop
+            pop = list(self._final_pop)
         else:
             pop = [self._operator_set.individual() for _ in range(50)]
 
-- 
2.43.0


From f4fc615fc30dda57fb3a4d2d03ed0ce25479a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:55 +0000
Subject: [PATCH 02/54] fix: parent selection considers every optimized metric

`fitness.values[1]` does not exist for a single metric with
regularize_length=False, so that documented configuration failed; with three
or more objectives the later ones were ignored.
---
 gama/genetic_programming/selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/selection.py b/gama/genetic_programming/selection.py
index dd403de..735b5e9 100644
--- a/gama/genetic_programming/selection.py
+++ b/gama/genetic_programming/selection.py
@@ -18,7 +18,8 @@ def create_from_population(
 ) -> List[Individual]:
     """Creates n new individuals based on the population."""
     offspring = []
-    metrics = [lambda ind: ind.fitness.values[0], lambda ind: ind.fitness.values[1]]
+    n_metrics = len(pop[0].fitness.values)
+    metrics = [lambda ind, i=i: ind.fitness.values[i] for i in range(n_metrics)]
     parent_pairs = nsga2_select(pop, n, metrics)
     for ind1, ind2 in parent_pairs:
         if random.random() < cxpb and len(_valid_crossover_functions(ind1, ind2)) > 0:
-- 
2.43.0


From 846ab9e1f2e0541c0731c65547be344cb8f06706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:55 +0000
Subject: [PATCH 03/54] fix: create random individuals while the population is
 too small for selection

With fewer than three successful evaluations (a short warm_start list, many
failing pipelines) the search was aborted by the ValueError of nsga2_select.
---
 gama/genetic_programming/selection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gama/genetic_programming/selection.py b/gama/genetic_programming/selection.py
index 735b5e9..1c52cbf 100644
--- a/gama/genetic_programming/selection.py
+++ b/gama/genetic_programming/selection.py
@@ -17,6 +17,10 @@ def create_from_population(
     mutpb: float,
 ) -> List[Individual]:
     """Creates n new individuals based on the population."""
+    if len(pop) < 3:
+        # Not enough individuals to select a pair of parents from.
+        return [operator_shell.individual() for _ in range(n)]
+
     offspring = []
     n_metrics = len(pop[0].fitness.values)
     metrics = [lambda ind, i=i: ind.fitness.values[i] for i in range(n_metrics)]
-- 
2.43.0


From 9bca5922892b1a59a17051c72c2b07d44af49c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:55 +0000
Subject: [PATCH 04/54] fix: crossover keeps the offspring that respects
 max_pipeline_length

random_crossover returns the individual within `max_length` first, but mate
ignored its return value and could keep one which exceeds it.
---
 gama/genetic_programming/operator_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/operator_set.py b/gama/genetic_programming/operator_set.py
index 995f7c1..00cd4b6 100644
--- a/gama/genetic_programming/operator_set.py
+++ b/gama/genetic_programming/operator_set.py
@@ -62,7 +62,9 @@ class OperatorSet:
     def mate(self, ind1: Individual, ind2: Individual, *args, **kwargs) -> Individual:
         def mate_with_log():
             new_individual1, new_individual2 = ind1.copy_as_new(), ind2.copy_as_new()
-            self._mate(new_individual1, new_individual2, *args, **kwargs)
+            new_individual1, new_individual2 = self._mate(
+                new_individual1, new_individual2, *args, **kwargs
+            )
             new_individual1.meta = dict(parents=[ind1._id, ind2._id], origin="cx")
             return new_individual1
 
-- 
2.43.0


From db6704a534f4c26af6bd6ff75ecb4f698e4ac1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:19 +0000
Subject: [PATCH 05/54] fix: offer replacement mutations when exactly one
 primitive or terminal is replaceable

A length-1 pipeline with max_length=1 and at most one hyperparameter had no
available mutation at all: random.choice([]) raised an IndexError and ended
the search. The docstring promises replacement with 'at least one'.
---
 gama/genetic_programming/mutation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/genetic_programming/mutation.py b/gama/genetic_programming/mutation.py
index ad0457c..0c6bcea 100644
--- a/gama/genetic_programming/mutation.py
+++ b/gama/genetic_programming/mutation.py
@@ -153,7 +153,7 @@ def random_valid_mutation_in_place(
         replaceable_primitives = filter(
             lambda p: len(primitive_set[p._primitive.output]) > 1, individual.primitives
         )
-        if len(list(replaceable_primitives)) > 1:
+        if len(list(replaceable_primitives)) > 0:
             available_mutations.append(mut_replace_primitive)
 
         if max_length is None or n_primitives < max_length:
@@ -164,7 +164,7 @@ def random_valid_mutation_in_place(
         replaceable_terminals = filter(
             lambda t: len(primitive_set[t.identifier]) > 1, individual.terminals
         )
-        if len(list(replaceable_terminals)) > 1:
+        if len(list(replaceable_terminals)) > 0:
             available_mutations.append(mut_replace_terminal)
 
     mut_fn = random.choice(available_mutations)
-- 
2.43.0


From c132405c32fea95851da21c26d86d61519a3ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:19 +0000
Subject: [PATCH 06/54] fix: record the origin of individuals shrunk to
 max_pipeline_length

random_valid_mutation_in_place returns a functools.partial in that case, which
has no __name__, so mutating an individual that exceeds the limit (e.g. from
warm_start) raised an AttributeError.
---
 gama/genetic_programming/operator_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/genetic_programming/operator_set.py b/gama/genetic_programming/operator_set.py
index 00cd4b6..c3ff2f7 100644
--- a/gama/genetic_programming/operator_set.py
+++ b/gama/genetic_programming/operator_set.py
@@ -74,7 +74,9 @@ class OperatorSet:
         def mutate_with_log():
             new_individual = ind.copy_as_new()
             mutator = self._mutate(new_individual, *args, **kwargs)
-            new_individual.meta = dict(parents=[ind._id], origin=mutator.__name__)
+            # `mutator` may be a partial, which has no `__name__` of its own.
+            origin = getattr(mutator, "func", mutator).__name__
+            new_individual.meta = dict(parents=[ind._id], origin=origin)
             return new_individual
 
         return self.try_until_new(mutate_with_log)
-- 
2.43.0


From 62fd105d5b7abb59afd39017d46d6f248a414abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:19 +0000
Subject: [PATCH 07/54] fix: rank individuals of the second Pareto front below
 the first

fronts[0] has rank 1, but members of fronts[i + 1] were given rank i + 1, so
the first two fronts were indistinguishable to the crowded comparison.
---
 gama/genetic_programming/nsga2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/nsga2.py b/gama/genetic_programming/nsga2.py
index 4def237..a00085c 100644
--- a/gama/genetic_programming/nsga2.py
+++ b/gama/genetic_programming/nsga2.py
@@ -139,7 +139,7 @@ def fast_non_dominated_sort(P: List[NSGAMeta]) -> List[List[NSGAMeta]]:
             for q in p.dominating:
                 q.domination_counter -= 1
                 if q.domination_counter == 0:
-                    q.rank = i + 1
+                    q.rank = i + 2
                     fronts[i + 1].append(q)
         i += 1
     return fronts
-- 
2.43.0


From 09cff7c368c6ca003e1dc2dbb850b9a11a3105aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:19 +0000
Subject: [PATCH 08/54] fix: subsample the training fold, not the first rows of
 the dataset

The sampler's indices are positions within `train`. Used as row numbers of x
they select rows of the test fold, which leaks test data into training.
Also select y by position, as its index need not be a RangeIndex (e.g. after
unlabeled rows are removed).
---
 gama/genetic_programming/compilers/scikitlearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 312ee2e..af66708 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -105,9 +105,9 @@ def evaluate_pipeline(
                         sampler = ShuffleSplit(
                             n_splits=1, train_size=subsample, random_state=0
                         )
-                    full_train_x, full_train_y = x.iloc[train, :], y_train[train]
+                    full_train_x, full_train_y = x.iloc[train, :], y_train.iloc[train]
                     subsample_idx, _ = next(sampler.split(full_train_x, full_train_y))
-                    new_splits.append((subsample_idx, test))
+                    new_splits.append((train[subsample_idx], test))
                 splitter = new_splits
 
             result = cross_validate(
-- 
2.43.0


From a821654e6d17bf741eb620801666735a541a3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:19 +0000
Subject: [PATCH 09/54] fix: failed evaluations never report scores,
 predictions or estimators

If the failure or timeout happened after cross validation (while collecting
predictions) evaluate_pipeline returned the real scores and half-filled
predictions together with the error, contrary to its documentation.
---
 gama/genetic_programming/compilers/scikitlearn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index af66708..82b02e7 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -80,7 +80,8 @@ def evaluate_pipeline(
 
     prediction, estimators = None, None
     # default score for e.g. timeout or failure
-    scores = tuple([float("-inf")] * len(metrics))
+    failed_scores = tuple([float("-inf")] * len(metrics))
+    scores = failed_scores
     is_classification = is_classifier(pipeline)
 
     with stopit.ThreadingTimeout(timeout) as c_mgr:
@@ -144,7 +145,7 @@ def evaluate_pipeline(
         except KeyboardInterrupt:
             raise
         except Exception as e:
-            return prediction, scores, estimators, e
+            return None, failed_scores, None, e
 
     if c_mgr.state == c_mgr.INTERRUPTED:
         # A TimeoutException was raised, but not by the context manager.
@@ -154,7 +155,7 @@ def evaluate_pipeline(
     return (
         (prediction, tuple(scores), estimators, None)
         if c_mgr
-        else (prediction, scores, estimators, stopit.TimeoutException())
+        else (None, failed_scores, None, stopit.TimeoutException())
     )
 
 
-- 
2.43.0


From 514478e8cc38792f5bc68fe002a3ce0116fe1254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:19 +0000
Subject: [PATCH 10/54] fix: replace_terminal rejects a position just past the
 last terminal

For position == len(terminals) the call silently did nothing.
---
 gama/genetic_programming/components/individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/genetic_programming/components/individual.py b/gama/genetic_programming/components/individual.py
index 83f161f..1ebd5fe 100644
--- a/gama/genetic_programming/components/individual.py
+++ b/gama/genetic_programming/components/individual.py
@@ -99,7 +99,7 @@ class Individual:
                 return
             else:
                 scan_position += len(primitive._terminals)
-        if scan_position < position:
+        if scan_position <= position:
             raise ValueError(
                 f"Position {position} is out of range with {scan_position} terminals."
             )
-- 
2.43.0


From 242a4bea21b72f192322a2e8dd8bf4c8949ada0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:32 +0000
Subject: [PATCH 11/54] fix: sample the ensemble's labels only once

Ensemble.__init__ already restricts `_y` to the prediction sample; indexing
the sampled labels with the sample again raises an IndexError or pairs labels
with predictions of other rows.
---
 gama/postprocessing/ensemble.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index ef18e58..aca1f5a 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -423,8 +423,6 @@ class EnsembleClassifier(Ensemble):
             self._y = self._one_hot_encoder.transform(
                 self._y.to_numpy().reshape(-1, 1)
             ).toarray()
-            if self._prediction_sample is not None:
-                self._y = self._y[self._prediction_sample]
         else:
 
             def one_hot_encode_predictions(predictions):
-- 
2.43.0


From b541deb92289a8a65ecdbd143b172795690c08ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:32 +0000
Subject: [PATCH 12/54] fix: honour max_models and hillclimb_size of
 EnsemblePostProcessing

`None` means 'use all' but was replaced by the default, and values over 200
models or 10 000 predictions were cut off at those numbers.
---
 gama/postprocessing/ensemble.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index aca1f5a..1944efe 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -57,8 +57,8 @@ class EnsemblePostProcessing(BasePostProcessing):
             ensemble_size=(ensemble_size, 25),
             metric=(None, None),
             evaluation_library=(None, None),
-            hillclimb_size=(hillclimb_size, 10_000),
-            max_models=(max_models, 200),
+            hillclimb_size=(hillclimb_size, None),
+            max_models=(max_models, None),
         )
         self._ensemble: Optional[Ensemble] = None
 
@@ -495,10 +495,16 @@ def build_fit_ensemble(
     start_build = time.time()
 
     log.debug("Building ensemble.")
+    # The library already only keeps `max_models` models and `hillclimb_size` samples.
+    limits = dict(
+        downsample_to=None, use_top_n_only=len(evaluation_library.top_evaluations)
+    )
     if metric.task_type == MetricType.REGRESSION:
-        ensemble = EnsembleRegressor(metric, y, evaluation_library)  # type: Ensemble
+        ensemble: Ensemble = EnsembleRegressor(metric, y, evaluation_library, **limits)
     elif metric.task_type == MetricType.CLASSIFICATION:
-        ensemble = EnsembleClassifier(metric, y, evaluation_library=evaluation_library)
+        ensemble = EnsembleClassifier(
+            metric, y, evaluation_library=evaluation_library, **limits
+        )
         ensemble._label_encoder = encoder
     else:
         raise ValueError(f"Unknown metric task type {metric.task_type}")
-- 
2.43.0


From ad537ca7343e1d7c2d2c83dcab0f1c3bc28c1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:32 +0000
Subject: [PATCH 13/54] fix: ensembles can be pickled, and pickling leaves them
 intact

Local functions made every fitted ensemble unpicklable, and __getstate__
dropped the models of the live object, which then could no longer be exported.
---
 gama/postprocessing/ensemble.py      | 15 ++++++++-------
 gama/utilities/evaluation_library.py | 10 +++++-----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index 1944efe..9f95965 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -367,19 +367,21 @@ class Ensemble(object):
         return _str_
 
     def __getstate__(self):
+        state = self.__dict__.copy()
         if self._shrink_on_pickle:
             log.info(
                 "Shrinking before pickle because shrink_on_pickle is True."
                 "Removing anything that is not needed for predict-functionality."
                 "Functionality to expand ensemble after unpickle is not available."
             )
-            self._models = None
-            self._model_library = None
+            state["_models"] = None
+            state["_model_library"] = None
+            state["evaluation_library"] = None
             # self._y_true can not be removed as it is needed to ensure proper
             # dimensionality of predictions.
             # Alternatively, one could just save the number of classes instead.
 
-        return self.__dict__.copy()
+        return state
 
 
 def fit_and_weight(args):
@@ -424,11 +426,10 @@ class EnsembleClassifier(Ensemble):
                 self._y.to_numpy().reshape(-1, 1)
             ).toarray()
         else:
+            self._prediction_transformation = self._one_hot_encode_predictions
 
-            def one_hot_encode_predictions(predictions):
-                return self._one_hot_encoder.transform(predictions.reshape(-1, 1))
-
-            self._prediction_transformation = one_hot_encode_predictions
+    def _one_hot_encode_predictions(self, predictions):
+        return self._one_hot_encoder.transform(predictions.reshape(-1, 1))
 
     def _ensemble_validation_score(self, prediction_to_validate=None):
         if prediction_to_validate is None:
diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index ad9ce85..b200ad0 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -91,6 +91,10 @@ class Evaluation:
         return self.score.__ge__(other.score)
 
 
+def _main_node_str(e: Evaluation) -> str:
+    return str(e.individual.main_node)
+
+
 class EvaluationLibrary:
     """Maintains an in-memory record of evaluations.
 
@@ -148,11 +152,7 @@ class EvaluationLibrary:
         self._cache = os.path.expandvars(cache)
         if not os.path.exists(self._cache):
             os.mkdir(self._cache)
-
-        def main_node_str(e: Evaluation):
-            return str(e.individual.main_node)
-
-        self._lookup_key = main_node_str
+        self._lookup_key = _main_node_str
 
         if sample is not None:
             self._sample = sample
-- 
2.43.0


From ceb062424e6a3bf386191b95329b8729e8269e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:59 +0000
Subject: [PATCH 14/54] fix: remove unlabeled rows by position instead of index
 label

x and y correspond row by row. If their indices differ, aligning the mask on
x's index raised an IndexingError or removed rows of labeled samples.
---
 gama/data_formatting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/data_formatting.py b/gama/data_formatting.py
index 62628d4..65644e9 100644
--- a/gama/data_formatting.py
+++ b/gama/data_formatting.py
@@ -70,7 +70,9 @@ def remove_unlabeled_rows(
             f"Target vector has been found to contain {sum(unlabeled)} NaN-labels, "
             f"these rows will be ignored."
         )
-        x, y = x.loc[~unlabeled], y.loc[~unlabeled]
+        # x and y correspond by position, their indices need not be equal (or unique).
+        labeled = (~unlabeled).to_numpy()
+        x, y = x.loc[labeled], y.loc[labeled]
     return x, y
 
 
-- 
2.43.0


From 48a3854f4641f554d256acd50d3dbb1c4e369598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:59 +0000
Subject: [PATCH 15/54] fix: GamaClassifier.fit returns self, as Gama.fit does

---
 gama/GamaClassifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 5ae2749..d29a20d 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -139,7 +139,7 @@ class GamaClassifier(Gama):
             if "labels" in inspect.signature(m.scorer._score_func).parameters:
                 m.scorer._kwargs.update({"labels": y})
 
-        super().fit(x, y, *args, **kwargs)
+        return super().fit(x, y, *args, **kwargs)
 
     def _encode_labels(self, y):
         self._label_encoder = LabelEncoder().fit(y)
-- 
2.43.0


From fa1e452e08daf5f3aab5d9eb78bdd61c430e056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:04 +0000
Subject: [PATCH 16/54] fix: GamaClassifier.fit ignores unlabeled rows

The label encoder, the prediction sample and the scorer's labels were set up
with the rows that have no label: NaN became a class of its own (or an invalid
label for the metric, failing every evaluation) although those rows are
documented to be ignored. Indicator matrices, which format_y supports, were
rejected for the same reason.
---
 gama/GamaClassifier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index d29a20d..0bd8016 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -8,6 +8,7 @@ from sklearn.preprocessing import LabelEncoder
 
 from .gama import Gama
 from gama.data_loading import X_y_from_file
+from gama.data_formatting import format_x_y
 from gama.configuration.classification import clf_config
 from gama.utilities.metrics import scoring_to_metric
 
@@ -125,11 +126,11 @@ class GamaClassifier(Gama):
 
     def fit(self, x, y, *args, **kwargs):
         """Should use base class documentation."""
-        y_ = y.squeeze() if isinstance(y, pd.DataFrame) else y
-        self._label_encoder = LabelEncoder().fit(y_)
-        if any(isinstance(yi, str) for yi in y_):
+        x, y = format_x_y(x, y)  # also removes rows without label
+        self._label_encoder = LabelEncoder().fit(y)
+        if any(isinstance(yi, str) for yi in y):
             # If target values are `str` we encode them or scikit-learn will complain.
-            y = self._label_encoder.transform(y_)
+            y = self._label_encoder.transform(y)
         self._evaluation_library.determine_sample_indices(stratify=y)
 
         # Add label information for classification to the scorer such that
-- 
2.43.0


From 3b2928aa0fbfcae8ff39de74673c5c657bf18e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:04 +0000
Subject: [PATCH 17/54] fix: a repeated fit starts with an empty evaluation
 library and existing directories

With store='nothing' the second fit failed on the removed output directory; with
an ensemble (store='logs') it could not save any evaluation, still referred to
deleted files of the first fit, and ended without a model. Evaluations on
other data could also be used in the ensemble.
---
 gama/gama.py                         | 7 +++++++
 gama/utilities/evaluation_library.py | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index 19f7353..4a0e43c 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -531,6 +531,9 @@ class Gama(ABC):
             If None is given, random start candidates are generated.
         """
         self._time_manager = TimeKeeper(self._time_manager.total_time)
+        # Output of a previous `fit` may be cleaned up, and its evaluations are void.
+        os.makedirs(os.path.join(self.output_directory, "cache"), exist_ok=True)
+        self._evaluation_library.clear()
 
         with self._time_manager.start_activity(
             "preprocessing", activity_meta=["default"]
@@ -538,6 +541,10 @@ class Gama(ABC):
             x, self._y = format_x_y(x, y)
             self._inferred_dtypes = x.dtypes
             is_classification = hasattr(self, "_label_encoder")
+            if not is_classification:
+                self._evaluation_library.determine_sample_indices(
+                    prediction_size=len(self._y)
+                )
             self._x, self._basic_encoding_pipeline = basic_encoding(
                 x, is_classification
             )
diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index b200ad0..871310f 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -248,6 +248,12 @@ class EvaluationLibrary:
 
         self.lookup[self._lookup_key(evaluation)] = evaluation
 
+    def clear(self) -> None:
+        """Forget all evaluations."""
+        self.top_evaluations.clear()
+        self.other_evaluations.clear()
+        self.lookup.clear()
+
     def clear_cache(self) -> None:
         for file in os.listdir(self._cache):
             os.remove(os.path.join(self._cache, file))
-- 
2.43.0


From 5fe60b78e071225da7beed4c88f4778c7e1959d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:04 +0000
Subject: [PATCH 18/54] fix: RandomSearch does not carry results of an earlier
 search into the next

The output list was only ever appended to, so after a second fit (possibly on
other data) the model could be selected by a score from the first.
---
 gama/search_methods/random_search.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gama/search_methods/random_search.py b/gama/search_methods/random_search.py
index ddf5ff6..f3fe051 100644
--- a/gama/search_methods/random_search.py
+++ b/gama/search_methods/random_search.py
@@ -25,6 +25,7 @@ class RandomSearch(BaseSearch):
     def search(
         self, operations: OperatorSet, start_candidates: List[Individual]
     ) -> None:
+        self.output = []  # do not retain individuals of an earlier search
         random_search(operations, self.output, start_candidates)
 
 
-- 
2.43.0


From 37beb3daaf5ee3858472d73cca2d78d62bb489a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:37 +0000
Subject: [PATCH 19/54] fix: each Gama object uses its own n_jobs, memory limit
 and memory log

The settings are stored on the AsyncEvaluator class. They were set on
construction, so the search of one object used the settings of whichever
object was constructed last. Set them when the search starts instead.
---
 gama/gama.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 4a0e43c..ee3e7f7 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -246,16 +246,8 @@ class Gama(ABC):
             self.cleanup("all")
             raise ValueError(err)
 
-        setattr(
-            AsyncEvaluator,
-            "__init__",
-            partialmethod(
-                AsyncEvaluator.__init__,
-                n_workers=n_jobs,
-                memory_limit_mb=max_memory_mb,
-                logfile=os.path.join(self.output_directory, "memory.log"),
-            ),
-        )
+        self._n_jobs = n_jobs
+        self._max_memory_mb = max_memory_mb
 
         if max_eval_time is None:
             max_eval_time = round(0.1 * max_total_time)
@@ -648,6 +640,16 @@ class Gama(ABC):
             metrics=self._metrics,
         )
         AsyncEvaluator.defaults = dict(evaluate_pipeline=evaluate_pipeline)
+        setattr(
+            AsyncEvaluator,
+            "__init__",
+            partialmethod(
+                AsyncEvaluator.__init__,
+                n_workers=self._n_jobs,
+                memory_limit_mb=self._max_memory_mb,
+                logfile=os.path.join(self.output_directory, "memory.log"),
+            ),
+        )
 
         self._operator_set.evaluate = partial(
             gama.genetic_programming.compilers.scikitlearn.evaluate_individual,
-- 
2.43.0


From c823e4c6ffce8a294b5674b52aa2a63786cdca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:37 +0000
Subject: [PATCH 20/54] fix: default max_eval_time and n_jobs are never zero

With max_total_time <= 5 the default evaluation time was rounded to 0, which
fails every evaluation; on a single core the default n_jobs was rejected.
---
 gama/gama.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index ee3e7f7..dbd5dfa 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -229,7 +229,7 @@ class Gama(ABC):
         log.info(f"INIT:{self.__class__.__name__}({arguments})")
 
         if n_jobs is None:
-            n_jobs = multiprocessing.cpu_count() // 2
+            n_jobs = max(1, multiprocessing.cpu_count() // 2)
             log.debug("n_jobs defaulted to %d.", n_jobs)
         elif n_jobs == -1:
             n_jobs = multiprocessing.cpu_count()
@@ -250,7 +250,7 @@ class Gama(ABC):
         self._max_memory_mb = max_memory_mb
 
         if max_eval_time is None:
-            max_eval_time = round(0.1 * max_total_time)
+            max_eval_time = max(1, round(0.1 * max_total_time))
         if max_eval_time > max_total_time:
             log.warning(
                 f"max_eval_time ({max_eval_time}) > max_total_time ({max_total_time}) "
-- 
2.43.0


From eb1c3428d9556e59013970c8476648017bb24a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:37 +0000
Subject: [PATCH 21/54] fix: workers accept any function result

A truthy result without `error` attribute raised an AttributeError which ended
the worker: the job was never completed and wait_next blocked indefinitely.
---
 gama/utilities/generic/async_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 5470f0d..13e7a3f 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -359,7 +359,7 @@ def evaluator_daemon(
                         result = future.result[0]
                     else:
                         result = future.result
-                    if isinstance(result.error, MemoryError):
+                    if isinstance(getattr(result, "error", None), MemoryError):
                         # Can't pickle MemoryErrors. Should work around this later.
                         result.error = "MemoryError"
                         gc.collect()
-- 
2.43.0


From 6785a771a5322300d7b3d33a38e2c156ad184d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:37 +0000
Subject: [PATCH 22/54] fix: merge_configurations leaves its inputs unmodified

Merging wrote hyperparameter values of the second configuration into the
nested dictionaries of the first: importing GamaReport changed the default
classification search space (e.g. added f_regression to its selectors).
---
 gama/configuration/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/configuration/parser.py b/gama/configuration/parser.py
index 705ec26..e0ba890 100644
--- a/gama/configuration/parser.py
+++ b/gama/configuration/parser.py
@@ -1,4 +1,5 @@
 from collections import defaultdict
+import copy
 from typing import Dict, Any, Union, List, Callable, Tuple
 
 import sklearn
@@ -115,7 +116,8 @@ def merge_configurations(c1: Dict, c2: Dict) -> Dict:
             merged[algorithm] = hparams2
             continue
 
-        hparams = merged[algorithm]
+        # Copy, because merging must not modify the configurations that are merged.
+        hparams = merged[algorithm] = copy.copy(merged[algorithm])
         if isinstance(hparams, list) and isinstance(hparams2, list):
             merged[algorithm] = list(set(hparams + hparams2))
             continue  # Here the algorithm is actually a shared hyperparameter.
-- 
2.43.0


From 20616eef7be7dfee818203abd2e16a6e7da51a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:37 +0000
Subject: [PATCH 23/54] fix: command line accepts -sep and paths with uppercase
 characters

The misspelled attribute made -sep fail for every csv file, and file paths
were converted to lowercase before use.
---
 gama/data_loading.py  | 4 ++--
 gama/utilities/cli.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index 246e867..3833d1f 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -117,9 +117,9 @@ def file_to_pandas(
     -------
     pd.DataFrame
     """
-    if file_path.endswith(".arff"):
+    if file_path.lower().endswith(".arff"):
         data = arff_to_pandas(file_path, encoding, **kwargs)
-    elif file_path.endswith(".csv"):
+    elif file_path.lower().endswith(".csv"):
         data = csv_to_pandas(file_path, **kwargs)
     else:
         raise ValueError("Only csv and arff files supported.")
diff --git a/gama/utilities/cli.py b/gama/utilities/cli.py
index 9612a62..36ec606 100644
--- a/gama/utilities/cli.py
+++ b/gama/utilities/cli.py
@@ -138,17 +138,17 @@ def main(command: Union[str, List[str]] = ""):
     args = parser.parse_args(command) if command else parser.parse_args()
 
     print("CLI: Processing input")
-    if not os.path.exists(args.input_file.lower()):
+    if not os.path.exists(args.input_file):
         raise FileNotFoundError(args.input_file)
     if args.input_file.lower().split(".")[-1] not in ["csv", "arff"]:
         raise ValueError("Unknown file extension. Please use csv or arff.")
 
     kwargs = {}
     if args.input_file.lower().endswith(".csv") and args.separator is not None:
-        kwargs["sep"] = args.seperator
+        kwargs["sep"] = args.separator
 
     x, y = X_y_from_file(
-        file_path=args.input_file.lower(),
+        file_path=args.input_file,
         split_column=args.target,
         **kwargs,
     )
-- 
2.43.0


From 2333a2ab31e967b94584234378ad494ecdb04853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:29 +0000
Subject: [PATCH 24/54] fix: replace worker processes that died

A worker that crashed stays a zombie until it is waited for, for which psutil
still reports (zero) memory usage. The intended replacement never happened, so
with n_jobs=1 a single crash blocked wait_next for the rest of the search.
The job it was working on is lost, so it no longer counts as queued; and do not
look for a worker to terminate if all of them were just replaced.
---
 gama/utilities/generic/async_evaluator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 13e7a3f..4151825 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -276,7 +276,8 @@ class AsyncEvaluator:
         # in particular there is a risk that terminating the process might leave
         # the multiprocess queue broken.
         mem_proc = list(self._get_memory_usage())
-        if sum(map(lambda x: x[1], mem_proc)) > self._memory_limit_mb:
+        total_memory_mb = sum(map(lambda x: x[1], mem_proc))
+        if total_memory_mb > self._memory_limit_mb and len(mem_proc) > 1:
             log.info(
                 f"GAMA exceeded memory usage "
                 f"({self._mem_violations}, {self._mem_behaved})."
@@ -316,10 +317,14 @@ class AsyncEvaluator:
         processes = [self._main_process] + self._processes
         for process in processes:
             try:
+                if process.status() == psutil.STATUS_ZOMBIE:
+                    # Died, e.g. a segmentation fault, but not yet waited for.
+                    raise NoSuchProcess(process.pid)
                 yield process, process.memory_info()[0] / (2**20)
             except NoSuchProcess:
                 # can never be the main process anyway
                 self._processes = [p for p in self._processes if p.pid != process.pid]
+                self.job_queue_size -= 1  # its job is lost
                 self._start_worker_process()
 
 
-- 
2.43.0


From 3c3ee61e6cd66453319166d8db36d830ae152b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:48 +0000
Subject: [PATCH 25/54] fix: GamaReport reads logs written by the current
 version

The INIT line included the search space, which init_to_hps can not parse, so no
log could be loaded. The text 'False' for regularize_length was taken as true,
which made the number of scores and metric names differ. Also remove a
left-over print.
---
 gama/gama.py               | 10 +++++++++-
 gama/logging/GamaReport.py |  3 +--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index dbd5dfa..459acec 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -222,7 +222,15 @@ class Gama(ABC):
             [
                 f"{k}={v}"
                 for (k, v) in locals().items()
-                if k not in ["self", "config", "log_file", "log_handler", "log_format"]
+                if k
+                not in [
+                    "self",
+                    "config",
+                    "search_space",
+                    "log_file",
+                    "log_handler",
+                    "log_format",
+                ]
             ]
         )
         log.info(f"Using GAMA version {__version__}.")
diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index 56e6af4..3518b9b 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -51,14 +51,13 @@ class GamaReport:
                 time_and_place, activity = line.split(" STOP: ")
                 timestamp, place = time_and_place[1:-1].split(" - ")
                 end_time = datetime.strptime(timestamp, "%Y-%m-%d %H:%M:%S,%f")
-                print(activity)
                 phase, algorithm, _, duration = activity.split(" ")
                 d = float(duration[:-3])  # e.g. "0.1300s.\n"
                 start_time = end_time - timedelta(seconds=d)
                 self.phases.append((phase, algorithm, start_time, d))
 
         self.metrics = self.hyperparameters["scoring"].split(",")
-        if self.hyperparameters["regularize_length"]:
+        if self.hyperparameters["regularize_length"] == "True":
             self.metrics += ["length"]
 
         self.incomplete = len(self.phases) < 3
-- 
2.43.0


From b29fca43031d1e4a2980470c98952e968ae429ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:49 +0000
Subject: [PATCH 26/54] fix: quote values in evaluations.log where required

Error messages with a newline or the separator produced rows which could not
be read back (also not by GamaReport).
---
 gama/logging/evaluation_logger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gama/logging/evaluation_logger.py b/gama/logging/evaluation_logger.py
index 19df488..e35bb8d 100644
--- a/gama/logging/evaluation_logger.py
+++ b/gama/logging/evaluation_logger.py
@@ -1,3 +1,4 @@
+import csv
 from datetime import datetime
 from functools import partial
 import operator
@@ -67,8 +68,10 @@ class EvaluationLogger:
 
     def log_line(self, values: Iterable[str]) -> None:
         """Appends `values` as a row of separated values to the file."""
-        with open(self._file_path, "a") as evaluations:
-            evaluations.write(self._sep.join(values) + "\n")
+        with open(self._file_path, "a", newline="") as evaluations:
+            csv.writer(evaluations, delimiter=self._sep, lineterminator="\n").writerow(
+                values
+            )
 
     def log_evaluation(self, evaluation) -> None:
         values = [getter(evaluation) for getter in self.fields.values()]
-- 
2.43.0


From ebd6ab40c729ef1e6bc63d946206d2fe7f842d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:49 +0000
Subject: [PATCH 27/54] fix: exported code lists every column of the encoders

scikit-learn abbreviates str(estimator), e.g. lists of over 30 elements, so the
exported script for datasets with many categorical columns did not work.
---
 gama/utilities/export.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/export.py b/gama/utilities/export.py
index 8c92e03..365d9a5 100644
--- a/gama/utilities/export.py
+++ b/gama/utilities/export.py
@@ -11,7 +11,14 @@ def transformers_to_str(transformers: List[TransformerMixin]) -> List[str]:
     for transformer in copies:
         if hasattr(transformer, "mapping"):
             transformer.mapping = None
-    return list(map(str, copies))
+
+    def to_str(transformer: TransformerMixin) -> str:
+        # `str(transformer)` may be abbreviated (e.g. for a long list of columns).
+        parameters = transformer.get_params(deep=False).items()
+        arguments = ", ".join(f"{name}={value!r}" for name, value in parameters)
+        return f"{transformer.__class__.__name__}({arguments})"
+
+    return list(map(to_str, copies))
 
 
 def format_import(o: object) -> str:
-- 
2.43.0


From f683058a326beb6a60cf4167b08e21297cd83116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:49 +0000
Subject: [PATCH 28/54] fix: score works for roc_auc on binary problems

roc_auc_score requires the probabilities of the positive class.
---
 gama/gama.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index 459acec..9f2a906 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -442,6 +442,8 @@ class Gama(ABC):
             if self._metrics[0].requires_probabilities
             else self.predict(x)
         )
+        if self._metrics[0].name == "roc_auc" and predictions.shape[1] == 2:
+            predictions = predictions[:, 1]  # roc_auc_score expects the positive class
         return self._metrics[0].score(y, predictions)
 
     def score_from_file(
-- 
2.43.0


From 081566e63e0a6ae6f63882ec5288b982ae2afa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:49 +0000
Subject: [PATCH 29/54] fix: ASHA returns what it has on any interruption

On KeyboardInterrupt (or a timeout before the first evaluation completed)
`highest_rung_reached` was never assigned, so the finally block raised an
UnboundLocalError and fit failed instead of continuing with post processing.
---
 gama/search_methods/asha.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 66ceb83..659f1e4 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -193,17 +193,13 @@ def asha(
                     individual = future.result.individual
                     rung_individuals[rung].append((loss, individual))
                 start_new_job()
-
-            highest_rung_reached = max(rungs)
     except stopit.TimeoutException:
         log.info("ASHA ended due to timeout.")
-        reached_rungs = (rung for rung, inds in rung_individuals.items() if inds != [])
-        highest_rung_reached = max(reached_rungs)
-        if highest_rung_reached != max(rungs):
-            raise RuntimeWarning("Highest rung not reached.")
     finally:
         for rung, individuals in rung_individuals.items():
             log.info(f"[{len(individuals)}] {rung}")
+        reached_rungs = [rung for rung, inds in rung_individuals.items() if inds != []]
+        highest_rung_reached = max(reached_rungs, default=min(rungs))
         return list(map(lambda p: p[1], rung_individuals[highest_rung_reached]))
 
 
-- 
2.43.0


From fbbff713cdcb860aa43636d18182699ca2e18b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:40 +0000
Subject: [PATCH 30/54] fix: ASHA breaks ties by order of evaluation

Iterating a set of individuals, which hash by a random id, made the choice
between equally good individuals differ between runs with equal random_state.
---
 gama/search_methods/asha.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 659f1e4..9522280 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -154,8 +154,8 @@ def asha(
             # This is not in the paper code but is derived from fig 2b
             n_to_promote = math.floor(len(individuals) / reduction_factor)
             if n_to_promote - len(promoted_individuals[rung]) > 0:
-                # Problem: equal loss falls back on comparison of individual
-                not_promoted = set(individuals) - set(promoted_individuals[rung])
+                promoted = set(promoted_individuals[rung])
+                not_promoted = [i for i in individuals if i not in promoted]
                 if len(not_promoted) > 0:
                     to_promote = max(not_promoted, key=lambda i: i[0])
                     promoted_individuals[rung].append(to_promote)
-- 
2.43.0


From 99ee0b44f38f44e876cb6ab3708ea827536c0a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:40 +0000
Subject: [PATCH 31/54] fix: an activity that raises is no longer reported as
 in progress

---
 gama/utilities/generic/timekeeper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gama/utilities/generic/timekeeper.py b/gama/utilities/generic/timekeeper.py
index 7253c8b..f1abbc4 100644
--- a/gama/utilities/generic/timekeeper.py
+++ b/gama/utilities/generic/timekeeper.py
@@ -117,6 +117,8 @@ class TimeKeeper:
         with Stopwatch() as sw:
             self.current_activity = Activity(activity, sw, time_limit)
             self.activities.append(self.current_activity)
-            yield sw
-        self.current_activity = None
+            try:
+                yield sw
+            finally:
+                self.current_activity = None
         log.info(f"STOP: {act} after {sw.elapsed_time:.4f}s.")
-- 
2.43.0


From 587f592c6c24600fc4bdbeb57a5182d6781a4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:53 +0000
Subject: [PATCH 32/54] fix: ASHA respects the maximum evaluation time

---
 gama/search_methods/asha.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gama/search_methods/asha.py b/gama/search_methods/asha.py
index 9522280..76c0423 100644
--- a/gama/search_methods/asha.py
+++ b/gama/search_methods/asha.py
@@ -139,6 +139,9 @@ def asha(
     evaluate = partial(
         evaluate_on_rung, evaluate_individual=operations.evaluate, max_rung=max_rung
     )
+    # The maximum evaluation time also holds for the rungs with most resources.
+    evaluate_arguments = getattr(operations.evaluate, "keywords", {})
+    max_eval_time = evaluate_arguments.get("timeout", math.inf)
 
     # Highest rungs first is how we typically iterate them
     # Should we just use lists of lists/heaps instead?
@@ -177,7 +180,7 @@ def asha(
                     individual,
                     rung,
                     subsample=rung_resources[rung],
-                    timeout=(10 + (time_penalty * 600)),
+                    timeout=min(10 + (time_penalty * 600), max_eval_time),
                 )
 
             for _ in range(8):
-- 
2.43.0


From 4bab75047118e491157ab528bf080252590aa841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:29 +0000
Subject: [PATCH 33/54] fix: evaluations whose save was interrupted can be
 displaced

---
 gama/utilities/evaluation_library.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index 871310f..6e38e02 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -50,8 +50,10 @@ class Evaluation:
         self._estimators, self._predictions = [], None
 
     def remove_from_disk(self) -> None:
-        """Remove the related file from disk."""
-        os.remove(os.path.join(self._cache_file))
+        """Remove the related file from disk, if it was saved."""
+        # Saving may have been interrupted, e.g. because of a time limit.
+        if os.path.exists(self._cache_file):
+            os.remove(self._cache_file)
         self._cache_file = ""
 
     @property
-- 
2.43.0


From a4774d6b0445f3ca888f7b0cbbd8a99ea9471bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:16 +0000
Subject: [PATCH 34/54] fix: workers accept results without a truth value, e.g.
 arrays

---
 gama/utilities/generic/async_evaluator.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 4151825..84bc41e 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -359,15 +359,13 @@ def evaluator_daemon(
             try:
                 future = input_queue.get(block=False)
                 future.execute(default_parameters)
-                if future.result:
-                    if isinstance(future.result, tuple):
-                        result = future.result[0]
-                    else:
-                        result = future.result
-                    if isinstance(getattr(result, "error", None), MemoryError):
-                        # Can't pickle MemoryErrors. Should work around this later.
-                        result.error = "MemoryError"
-                        gc.collect()
+                result = future.result
+                if isinstance(result, tuple) and len(result) > 0:
+                    result = result[0]
+                if isinstance(getattr(result, "error", None), MemoryError):
+                    # Can't pickle MemoryErrors. Should work around this later.
+                    result.error = "MemoryError"
+                    gc.collect()
                 output_queue.put(future)
             except (MemoryError, struct.error) as e:
                 future.result = None
-- 
2.43.0


From c42ba7ad2a79d806d06ccd7eee3410b93ad7c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:29 +0000
Subject: [PATCH 35/54] fix: dead workers are replaced also without memory
 limit or log

---
 gama/utilities/generic/async_evaluator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 84bc41e..6332b7e 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -215,6 +215,7 @@ class AsyncEvaluator:
         if len(self.futures) == 0:
             raise RuntimeError("No Futures queued, must call `submit` first.")
         while True:
+            self._replace_dead_workers()
             self._control_memory_usage()
             self._log_memory_usage()
 
@@ -317,12 +318,16 @@ class AsyncEvaluator:
         processes = [self._main_process] + self._processes
         for process in processes:
             try:
-                if process.status() == psutil.STATUS_ZOMBIE:
-                    # Died, e.g. a segmentation fault, but not yet waited for.
-                    raise NoSuchProcess(process.pid)
                 yield process, process.memory_info()[0] / (2**20)
             except NoSuchProcess:
                 # can never be the main process anyway
+                self._replace_dead_workers()
+
+    def _replace_dead_workers(self):
+        """Start a new worker process for each that died, e.g. by segmentation fault."""
+        alive = {process.pid for process in multiprocessing.active_children()}
+        for process in self._processes:
+            if process.pid not in alive:
                 self._processes = [p for p in self._processes if p.pid != process.pid]
                 self.job_queue_size -= 1  # its job is lost
                 self._start_worker_process()
-- 
2.43.0


From d1db71c1f106f9b4f284cb9b94f3685f46ed895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:41 +0000
Subject: [PATCH 36/54] fix: use the whole training fold if it has fewer rows
 than the subsample

---
 gama/genetic_programming/compilers/scikitlearn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 82b02e7..877b165 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -98,6 +98,9 @@ def evaluate_pipeline(
                 # This allows for performance comparisons across subsample levels.
                 new_splits = []
                 for train, test in splitter.split(x, y_train):
+                    if isinstance(subsample, int) and subsample >= len(train):
+                        new_splits.append((train, test))
+                        continue
                     if is_classification:
                         sampler = StratifiedShuffleSplit(
                             n_splits=1, train_size=subsample, random_state=0
-- 
2.43.0


From ccf0ebe92c3b70d220deaf6450da64b76a31b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 37/54] fix: fit and predict with numbered columns that are
 one-hot encoded

---
 gama/gama.py                    |  3 ++-
 gama/utilities/preprocessing.py | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index 9f2a906..fb22872 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -44,6 +44,7 @@ from gama.logging.utility_functions import register_stream_log
 from gama.utilities.preprocessing import (
     basic_encoding,
     basic_pipeline_extension,
+    uniform_column_names,
 )
 from gama.genetic_programming.mutation import random_valid_mutation_in_place
 from gama.genetic_programming.crossover import random_crossover
@@ -365,7 +366,7 @@ class Gama(ABC):
         if isinstance(x, np.ndarray):
             x = self._np_to_matching_dataframe(x)
         if self._basic_encoding_pipeline:
-            x = self._basic_encoding_pipeline.transform(x)
+            x = uniform_column_names(self._basic_encoding_pipeline.transform(x))
         return x
 
     def _predict(self, x: pd.DataFrame) -> np.ndarray:
diff --git a/gama/utilities/preprocessing.py b/gama/utilities/preprocessing.py
index b2b6631..5d4cf3a 100644
--- a/gama/utilities/preprocessing.py
+++ b/gama/utilities/preprocessing.py
@@ -63,7 +63,16 @@ def basic_encoding(
     ]
     encoding_pipeline = Pipeline(encoding_steps)
     x_enc = encoding_pipeline.fit_transform(x, y=None)  # Is this dangerous?
-    return x_enc, encoding_pipeline
+    return uniform_column_names(x_enc), encoding_pipeline
+
+
+def uniform_column_names(x: pd.DataFrame) -> pd.DataFrame:
+    """Make all column names `str` if some are, scikit-learn rejects mixed types.
+
+    Encoding adds columns with `str` names, also to data that has `int` names.
+    """
+    n_str = sum(isinstance(column, str) for column in x.columns)
+    return x if n_str in (0, len(x.columns)) else x.rename(columns=str)
 
 
 def basic_pipeline_extension(
-- 
2.43.0


From dc2f4efb2a99db4cf7d3aab61c5e8ad432ee090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 38/54] fix: reject incomplete pipeline text in
 PrimitiveNode.from_string

---
 gama/genetic_programming/components/primitive_node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gama/genetic_programming/components/primitive_node.py b/gama/genetic_programming/components/primitive_node.py
index 0a6671c..340986c 100644
--- a/gama/genetic_programming/components/primitive_node.py
+++ b/gama/genetic_programming/components/primitive_node.py
@@ -89,6 +89,8 @@ class PrimitiveNode:
         terminal_start_index = string.index(DATA_TERMINAL)
         terminals_string = string[terminal_start_index + len(DATA_TERMINAL) :]
         terminal_sets = terminals_string.split(")")[:-1]
+        if not primitives or len(primitives) != len(terminal_sets):
+            raise ValueError(f"Incomplete pipeline description: '{string}'.")
 
         last_node: Union[PrimitiveNode, str] = DATA_TERMINAL
         for primitive_string, terminal_set in zip(reversed(primitives), terminal_sets):
-- 
2.43.0


From fd9cf25050dc9700a6677f189c1a1093aafe871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 39/54] fix: read single-metric scores in GamaReport

---
 gama/logging/GamaReport.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/logging/GamaReport.py b/gama/logging/GamaReport.py
index 3518b9b..44ecea6 100644
--- a/gama/logging/GamaReport.py
+++ b/gama/logging/GamaReport.py
@@ -85,7 +85,9 @@ class GamaReport:
             df = df.rename(columns=dict(t_start="start", t_wallclock="duration"))
 
             def tuple_to_metrics(tuple_str):
-                return pd.Series([float(value) for value in tuple_str[1:-1].split(",")])
+                # A trailing comma is present when there is only one value, e.g. "(0.5,)"
+                values = tuple_str[1:-1].rstrip(",").split(",")
+                return pd.Series([float(value) for value in values])
 
             df[self.metrics] = df.score.apply(tuple_to_metrics)
             df.start = pd.to_datetime(
-- 
2.43.0


From 8f48fc4aed0d5a3ef0bc9caf22a2752123c26c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 40/54] fix: pass each class label once to scorers, duplicates
 weighted macro metrics

---
 gama/GamaClassifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/GamaClassifier.py b/gama/GamaClassifier.py
index 0bd8016..4b91a6d 100644
--- a/gama/GamaClassifier.py
+++ b/gama/GamaClassifier.py
@@ -138,7 +138,8 @@ class GamaClassifier(Gama):
         # data sets during pipeline evaluation.
         for m in self._metrics:
             if "labels" in inspect.signature(m.scorer._score_func).parameters:
-                m.scorer._kwargs.update({"labels": y})
+                # each label once, duplicates count multiple times in e.g. f1_macro.
+                m.scorer._kwargs.update({"labels": np.unique(y)})
 
         return super().fit(x, y, *args, **kwargs)
 
-- 
2.43.0


From 5ae550249a947fe79db9982b59313500433dad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 41/54] fix: convert probabilities to labels for ensembles with
 a label-based metric

---
 gama/postprocessing/ensemble.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index 9f95965..e543948 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -429,6 +429,9 @@ class EnsembleClassifier(Ensemble):
             self._prediction_transformation = self._one_hot_encode_predictions
 
     def _one_hot_encode_predictions(self, predictions):
+        if predictions.ndim == 2:
+            # Class probabilities, as another metric of the search requires them.
+            predictions = self._one_hot_encoder.inverse_transform(predictions)
         return self._one_hot_encoder.transform(predictions.reshape(-1, 1))
 
     def _ensemble_validation_score(self, prediction_to_validate=None):
-- 
2.43.0


From a303b979178c0f95a3f08e1c92f2c5f82eca55f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 42/54] fix: keep the parameters of the scorer in Metric.score
 (e.g. average of f1_macro)

---
 gama/utilities/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/metrics.py b/gama/utilities/metrics.py
index 2c4e21d..9895c97 100644
--- a/gama/utilities/metrics.py
+++ b/gama/utilities/metrics.py
@@ -1,4 +1,5 @@
 from enum import Enum
+from functools import partial
 from typing import Iterable, Tuple, Union
 
 from sklearn.metrics import get_scorer
@@ -54,7 +55,8 @@ class Metric:
                 "Not sure which type of metric this is. Please raise an issue."
             )
 
-        self.score = self.scorer._score_func
+        # Some scorers share a function, e.g. f1_score, and differ in its parameters.
+        self.score = partial(self.scorer._score_func, **self.scorer._kwargs)
 
     def __call__(self, *args, **kwargs) -> float:
         return self.scorer(*args, **kwargs)
-- 
2.43.0


From a394f1013be616f0c872cae1ad8b48fe1d662b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 43/54] fix: average_precision is computed on probabilities of
 the positive class

---
 gama/gama.py              | 5 +++--
 gama/utilities/metrics.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index fb22872..ac3c1a3 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -443,8 +443,9 @@ class Gama(ABC):
             if self._metrics[0].requires_probabilities
             else self.predict(x)
         )
-        if self._metrics[0].name == "roc_auc" and predictions.shape[1] == 2:
-            predictions = predictions[:, 1]  # roc_auc_score expects the positive class
+        is_ranking_metric = self._metrics[0].name in ["roc_auc", "average_precision"]
+        if is_ranking_metric and predictions.shape[1] == 2:
+            predictions = predictions[:, 1]  # only the positive class is expected
         return self._metrics[0].score(y, predictions)
 
     def score_from_file(
diff --git a/gama/utilities/metrics.py b/gama/utilities/metrics.py
index 9895c97..f712251 100644
--- a/gama/utilities/metrics.py
+++ b/gama/utilities/metrics.py
@@ -42,8 +42,8 @@ class Metric:
             )
         self.scorer = scorer
         self.name = reversed_scorers[repr(scorer)]
-        self.requires_probabilities = (
-            isinstance(scorer, _ProbaScorer) or self.name == "roc_auc"
+        self.requires_probabilities = isinstance(scorer, _ProbaScorer) or (
+            self.name in ["roc_auc", "average_precision"]
         )
 
         if self.name in classification_metrics:
-- 
2.43.0


From b736f323847948be976cd166f736dc494bf18a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:54 +0000
Subject: [PATCH 44/54] fix: read quoted names, and files with .CSV extension,
 in load_csv_header

---
 gama/data_loading.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index 3833d1f..e4ec788 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -22,18 +22,18 @@ def sniff_csv_meta(file_path: str) -> Tuple[str, bool]:
 
 def load_csv_header(file_path: str, **kwargs) -> List[str]:
     """Return column names in the header, or 0...N if no header is present."""
-    if not file_path.endswith(".csv"):
+    if not file_path.lower().endswith(".csv"):
         raise ValueError(f"{file_path} is not a file with .csv extension.")
     sep, has_header = sniff_csv_meta(file_path)
     sep = kwargs.get("sep", sep)
 
-    with open(file_path, "r") as csv_file:
-        first_line = csv_file.readline()[:-1]
+    with open(file_path, "r", newline="") as csv_file:
+        first_row = next(csv.reader(csv_file, delimiter=sep))
 
     if has_header:
-        return first_line.split(sep)
+        return first_row
     else:
-        return [str(i) for i, _ in enumerate(first_line.split(sep))]
+        return [str(i) for i, _ in enumerate(first_row)]
 
 
 def csv_to_pandas(file_path: str, **kwargs) -> pd.DataFrame:
-- 
2.43.0


From 5c4c813fc680a850229cc687add7890b46866988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:54 +0000
Subject: [PATCH 45/54] fix: read ARFF attribute names in single quotes and
 with other whitespace

---
 gama/data_loading.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gama/data_loading.py b/gama/data_loading.py
index e4ec788..c641d92 100644
--- a/gama/data_loading.py
+++ b/gama/data_loading.py
@@ -1,6 +1,7 @@
 """ This module contains functions for loading data. """
 from collections import OrderedDict
 import csv
+import re
 from typing import Tuple, Optional, Dict, List
 
 import arff
@@ -9,6 +10,7 @@ import pandas as pd
 from gama.data_formatting import infer_categoricals_inplace
 
 CSV_SNIFF_SIZE = 2**12
+ATTRIBUTE_PATTERN = re.compile(r"@attribute\s+(\".*?\"|'.*?'|\S+)\s+(.*)", re.I)
 
 
 def sniff_csv_meta(file_path: str) -> Tuple[str, bool]:
@@ -185,14 +187,14 @@ def load_feature_metadata_from_arff(file_path: str) -> Dict[str, str]:
         line = fh.readline()
         while not line.lower().startswith(data_header):
             if line.lower().startswith(attribute_indicator):
-                # arff uses a space separator, but allows spaces in
+                # arff uses whitespace separators, but allows spaces in
                 # feature name (name must be quoted) and feature type (if nominal).
-                indicator, name_and_type = line.split(" ", 1)
-                if name_and_type.startswith('"'):
-                    name, data_type = name_and_type[1:].split('" ', 1)
-                    name = name
-                else:
-                    name, data_type = name_and_type.split(" ", 1)
+                match = ATTRIBUTE_PATTERN.match(line)
+                if match is None:
+                    raise ValueError(f"Bad attribute declaration: '{line.strip()}'.")
+                name, data_type = match.groups()
+                if name[0] in "\"'":
+                    name = name[1:-1]
                 attributes[name] = data_type
             line = fh.readline()[:-1]  # remove newline character
     return attributes
-- 
2.43.0


From 3ab250801725fe6fa0319b5055b1bedbb39184fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:43 +0000
Subject: [PATCH 46/54] fix: fitting many times in one process exceeds the
 recursion limit

---
 gama/gama.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gama/gama.py b/gama/gama.py
index ac3c1a3..d8084fc 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -68,6 +68,9 @@ from gama.utilities.metrics import Metric
 logging.getLogger("stopit").setLevel(logging.ERROR)
 log = logging.getLogger(__name__)
 
+# Each `fit` binds its settings to the original, not on top of those of earlier fits.
+_ASYNC_EVALUATOR_INIT = AsyncEvaluator.__init__
+
 
 STR_NO_OPTIMAL_PIPELINE = """Gama did not yet establish an optimal pipeline.
                           This can be because `fit` was not yet called, or
@@ -656,7 +659,7 @@ class Gama(ABC):
             AsyncEvaluator,
             "__init__",
             partialmethod(
-                AsyncEvaluator.__init__,
+                _ASYNC_EVALUATOR_INIT,
                 n_workers=self._n_jobs,
                 memory_limit_mb=self._max_memory_mb,
                 logfile=os.path.join(self.output_directory, "memory.log"),
-- 
2.43.0


From 5d3142a6334c4ef549b303e36252f3ea73fc103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:46 +0000
Subject: [PATCH 47/54] fix: do not share the fixed preprocessing steps between
 pipelines

compile_individual put the same imputer and target encoder objects in every
pipeline, so that fitting one pipeline changed the predictions of others.
---
 gama/genetic_programming/compilers/scikitlearn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gama/genetic_programming/compilers/scikitlearn.py b/gama/genetic_programming/compilers/scikitlearn.py
index 877b165..719269f 100644
--- a/gama/genetic_programming/compilers/scikitlearn.py
+++ b/gama/genetic_programming/compilers/scikitlearn.py
@@ -5,7 +5,7 @@ import time
 from typing import Callable, Tuple, Optional, Sequence
 
 import stopit
-from sklearn.base import TransformerMixin, is_classifier
+from sklearn.base import TransformerMixin, clone, is_classifier
 from sklearn.model_selection import (
     ShuffleSplit,
     cross_validate,
@@ -40,7 +40,8 @@ def compile_individual(
         for i, primitive in enumerate(individual.primitives)
     ]
     if preprocessing_steps:
-        steps += list(reversed(preprocessing_steps))
+        # Fitting one pipeline should not affect the others, so steps are not shared.
+        steps += [(name, clone(step)) for name, step in reversed(preprocessing_steps)]
     return Pipeline(list(reversed(steps)))
 
 
-- 
2.43.0


From 564ec2bb6498db1f5b7a7c405e8e788202439776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:10 +0000
Subject: [PATCH 48/54] fix: predict for arrays with values missing in a column
 of integers

A column without missing values in the training array may have some in an
array to predict, converting those to integers raised an error.
---
 gama/gama.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index d8084fc..e70d3e8 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -25,6 +25,7 @@ import warnings
 
 import pandas as pd
 import numpy as np
+from pandas.api.types import is_integer_dtype
 import stopit
 from sklearn.base import TransformerMixin
 from sklearn.pipeline import Pipeline
@@ -360,6 +361,8 @@ class Gama(ABC):
 
         x = pd.DataFrame(x)
         for i, dtype in enumerate(self._inferred_dtypes):
+            if is_integer_dtype(dtype) and x[i].isnull().any():
+                dtype = float  # integers can not be missing
             x[i] = x[i].astype(dtype)
         return x
 
-- 
2.43.0


From 8b21ef0292a279ce56d7f4d0e42363bacd4331c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:21 +0000
Subject: [PATCH 49/54] fix: judge which operators to exclude by the data of
 this fit only

---
 gama/gama.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gama/gama.py b/gama/gama.py
index e70d3e8..207e38d 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -307,6 +307,7 @@ class Gama(ABC):
         self.evaluation_completed(e.log_evaluation)
 
         self._pset, parameter_checks = pset_from_config(search_space)
+        self._full_pset = {key: list(values) for key, values in self._pset.items()}
 
         if DATA_TERMINAL not in self._pset:
             if max_pipeline_length is None:
@@ -565,6 +566,8 @@ class Gama(ABC):
                 self._operator_set._compile,
                 preprocessing_steps=self._fixed_pipeline_extension,
             )
+            # Which operators are excluded depends on the data of this `fit` only.
+            self._pset.update(self._full_pset)
             store_pipelines = (
                 self._evaluation_library._m is None or self._evaluation_library._m > 0
             )
@@ -580,7 +583,7 @@ class Gama(ABC):
                     p
                     for p in self._pset["prediction"]
                     if p.identifier not in [KNeighborsClassifier, KNeighborsRegressor]
-                ]
+                ] or self._pset["prediction"]
 
             if store_pipelines and self._x.shape[1] > 50:
                 log.info("Data has too many features to include PolynomialFeatures")
@@ -590,7 +593,7 @@ class Gama(ABC):
                     p
                     for p in self._pset["data"]
                     if p.identifier not in [PolynomialFeatures]
-                ]
+                ] or self._pset["data"]
 
         if self._time_manager.total_time_remaining < 0:
             pre_time = self._time_manager.activities[-1].stopwatch.elapsed_time
-- 
2.43.0


From 430b26cc902b437f50aaa912415bd0a1e69add5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:50 +0000
Subject: [PATCH 50/54] fix: print ensembles

---
 gama/postprocessing/ensemble.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gama/postprocessing/ensemble.py b/gama/postprocessing/ensemble.py
index e543948..b891c79 100644
--- a/gama/postprocessing/ensemble.py
+++ b/gama/postprocessing/ensemble.py
@@ -361,9 +361,10 @@ class Ensemble(object):
         if not self._models:
             return "Ensemble with no models."
         _str_ = f"Ensemble of {len(self._models)} pipelines.\nR\tW\tScore\tPipeline\n"
-        models = sorted(self._models.values(), key=lambda x: x[0].validation_score)
+        models = sorted(self._models.values(), key=lambda x: x[0].score)
         for i, (model, weight) in enumerate(models):
-            _str_ += f"{i}\t{weight}\t{model.validation_score[0]:.4f}\t{model.name}\n"
+            name = model.individual.short_name()
+            _str_ += f"{i}\t{weight}\t{model.score[0]:.4f}\t{name}\n"
         return _str_
 
     def __getstate__(self):
-- 
2.43.0


From 646bede5c1f03d90b5e130792327ac0aba62febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:50 +0000
Subject: [PATCH 51/54] fix: read back pipelines whose operator names or values
 contain marks of the text form

---
 gama/genetic_programming/components/primitive_node.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gama/genetic_programming/components/primitive_node.py b/gama/genetic_programming/components/primitive_node.py
index 340986c..a48ec28 100644
--- a/gama/genetic_programming/components/primitive_node.py
+++ b/gama/genetic_programming/components/primitive_node.py
@@ -1,3 +1,4 @@
+import re
 from typing import List, Union, cast
 from .terminal import DATA_TERMINAL, Terminal
 from .primitive import Primitive
@@ -86,7 +87,8 @@ class PrimitiveNode:
         # A(B(C(data[, C.param=value, ..])[, B.param=value, ..])[, A.param=value, ..])
         # below assumes that left parenthesis is never part of a parameter name or value
         primitives = string.split("(")[:-1]
-        terminal_start_index = string.index(DATA_TERMINAL)
+        # names of primitives may also contain the name of the data terminal
+        terminal_start_index = string.index(DATA_TERMINAL, string.rfind("(") + 1)
         terminals_string = string[terminal_start_index + len(DATA_TERMINAL) :]
         terminal_sets = terminals_string.split(")")[:-1]
         if not primitives or len(primitives) != len(terminal_sets):
@@ -101,7 +103,7 @@ class PrimitiveNode:
                 terminal_set = terminal_set[2:]  # 2 is because string starts with ', '
                 terminals = [
                     find_terminal(primitive_set, terminal_string)
-                    for terminal_string in terminal_set.split(", ")
+                    for terminal_string in re.split(r", (?=[\w.]+=)", terminal_set)
                 ]
             missing = set(primitive.input) - set(map(lambda t: t.identifier, terminals))
             if missing and strict:
@@ -122,7 +124,7 @@ def find_primitive(primitive_set: dict, primitive_string: str) -> Primitive:
 
 def find_terminal(primitive_set: dict, terminal_string: str) -> Terminal:
     """Find the Terminal that matches `terminal_string` in `primitive_set`."""
-    term_type, _ = terminal_string.split("=")
+    term_type, _ = terminal_string.split("=", maxsplit=1)
     for terminal in primitive_set[term_type]:
         if repr(terminal) == terminal_string:
             return terminal
-- 
2.43.0


From af3a7a73715ffa78a9d0cf873979e23a5251de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:39 +0000
Subject: [PATCH 52/54] fix: give start candidates of an earlier fit the
 preprocessing of this fit

---
 gama/gama.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gama/gama.py b/gama/gama.py
index 207e38d..e318ac8 100644
--- a/gama/gama.py
+++ b/gama/gama.py
@@ -652,6 +652,13 @@ class Gama(ABC):
         else:
             pop = [self._operator_set.individual() for _ in range(50)]
 
+        # Individuals from elsewhere, e.g. an earlier `fit`, may have been created with
+        # preprocessing for other data.
+        for individual in pop:
+            individual._to_pipeline = (
+                self._operator_set._safe_compile or self._operator_set._compile
+            )
+
         deadline = time.time() + timeout
 
         evaluate_pipeline = partial(
-- 
2.43.0


From 1968e9117f153e075acfbe5b92d6ae103cd25be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:46 +0000
Subject: [PATCH 53/54] fix: sample predictions also if the classes are too
 small for a stratified sample

---
 gama/utilities/evaluation_library.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/evaluation_library.py b/gama/utilities/evaluation_library.py
index 6e38e02..6b39b76 100644
--- a/gama/utilities/evaluation_library.py
+++ b/gama/utilities/evaluation_library.py
@@ -208,7 +208,14 @@ class EvaluationLibrary:
             )
         elif stratify is not None and n < len(stratify):
             splitter = StratifiedShuffleSplit(n_splits=1, train_size=n)
-            self._sample, _ = next(splitter.split(np.zeros(len(stratify)), stratify))
+            try:
+                splits = splitter.split(np.zeros(len(stratify)), stratify)
+                self._sample, _ = next(splits)
+            except ValueError:
+                # Too few rows (of a class, or left over) for a stratified sample.
+                self._sample = np.random.choice(
+                    range(len(stratify)), size=n, replace=False
+                )
         else:
             # Specified sample size exceeds size of predictions
             self._sample = None
-- 
2.43.0


From a65f405fa8d98fa45a277d1a0fe2252e4e6cd866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:42 +0000
Subject: [PATCH 54/54] fix: leave the evaluation pool cleanly when reading a
 result was interrupted

---
 gama/utilities/generic/async_evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gama/utilities/generic/async_evaluator.py b/gama/utilities/generic/async_evaluator.py
index 6332b7e..b066a19 100644
--- a/gama/utilities/generic/async_evaluator.py
+++ b/gama/utilities/generic/async_evaluator.py
@@ -149,7 +149,8 @@ class AsyncEvaluator:
             time.sleep(1)
 
         self.clear_queue(self._input)
-        self.clear_queue(self._output)
+        # Not read until empty: an interrupted read leaves an incomplete result.
+        self._output.close()
         self.clear_queue(self._command)
         self.job_queue_size = -self._n_jobs
 
-- 
2.43.0

