--------------------------- MODULE EnsembleTrace ---------------------------
(* Recorded ensembles.  run: metric, size, classes, y (label of every row),
   models[m] = [score, stored (predictions offered by the library), row (the row of
   each stored prediction, revealed by the first model or given), tables (one per
   estimator: answer for each row code)], kept: models the library offers.
   Events hold predictions of the built ensemble multiplied by size * folds. *)
EXTENDS Ensemble, TraceUtil
VARIABLES r, i, st
Start(run) == [q |-> run.idx]
Kept(run) == {m \in DOMAIN run.models : run.models[m].kept}
Scores(run) == [m \in Kept(run) |-> run.models[m].score]
Preds(run) == [m \in Kept(run) |-> run.models[m].stored]
Labels(run) == [k \in DOMAIN run.rows |-> run.y[run.rows[k]]]
F(run) == run.folds
(* the answers of all estimators of the ensemble to row code c, weighted: for class d, or the number *)
NumSum(run, w, c) == SumF([m \in DOMAIN w |-> w[m] * SumSeq([f \in 1..F(run) |-> run.models[m].tables[f][c]])], DOMAIN w)
ClassSum(run, w, c, d) == SumF([m \in DOMAIN w |-> w[m] * Cardinality({f \in 1..F(run) : run.models[m].tables[f][c] = d})], DOMAIN w)
MassSum(run, w, c, d) == SumF([m \in DOMAIN w |-> w[m] * SumSeq([f \in 1..F(run) |-> run.models[m].tables[f][c][d + 1]])], DOMAIN w)
ColumnOf(run, w, c, d) == IF run.metric = "accuracy" THEN ClassSum(run, w, c, d) ELSE MassSum(run, w, c, d)
Regression(run) == run.metric \in {"neg_mean_squared_error", "neg_mean_absolute_error"}
(* weights that explain every observed mean *)
Explains(run, e, w) ==
  IF Regression(run) THEN \A c \in DOMAIN e.mean : e.mean[c] = NumSum(run, w, c)
  ELSE \A c \in DOMAIN e.mean : \A d \in RangeOf(run.classes) : e.mean[c][d + 1] = ColumnOf(run, w, c, d)
VotesOK(run, e, w) ==
  Regression(run) \/ \A c \in DOMAIN e.label : \A d \in RangeOf(run.classes) : ColumnOf(run, w, c, d) <= ColumnOf(run, w, c, e.label[c])
ExactFails(e) == Clause("predictions are a weighted mean over whole weights adding up to the ensemble size", e.exact)
Fails(s, e) ==
  LET run == Runs[s.q] IN
  CASE e.op = "library" ->
         Clause("predictions offered are those of the rows with the matching labels", e.consistent)
         \cup Clause("at most the allowed number of rows is used", Len(run.rows) <= run.maxrows)
    [] e.op = "predict" ->
         ExactFails(e) \cup
         (IF ~e.exact THEN {} ELSE
          LET w == [m \in Kept(run) |-> e.weights[m]]
          IN Clause("the total weight equals the ensemble size", Total(w) = run.size)
             \cup Clause("weights result from the best models and best additions only",
                    IsPossible(run.metric, Preds(run), Scores(run), Labels(run), RangeOf(run.classes), run.size, w))
             \cup Clause("only models the library offers are selected",
                    \A m \in DOMAIN run.models \ Kept(run) : e.weights[m] = 0)
             \cup Clause("the prediction is the mean weighted by how often each model was chosen", Explains(run, e, w))
             \cup Clause("the predicted class is one with the largest weighted vote or probability", VotesOK(run, e, w)))
    [] e.op = "pickled" ->
         Clause("pickling leaves the ensemble unchanged", e.original_same)
         \cup Clause("the copy predicts the same", e.copy_same)
    [] e.op = "printed" -> Clause("the ensemble can be printed", e.works)
    [] OTHER -> {"the ensemble is built and predicts"}
Apply(s, e) == s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
