--------------------------- MODULE EvaluateTrace ---------------------------
(* Recorded evaluations. *)
EXTENDS Evaluate, TraceUtil
VARIABLES r, i, st
Start(run) == [q |-> run.idx]
Proba(run) == \E m \in RangeOf(run.metrics) : m = "neg_log_loss"
ScoreFails(run, e) ==
  Clause("one score per metric, with the negated length appended exactly when regularized",
     /\ Len(e.scores) = Len(run.metrics) + (IF run.addlen THEN 1 ELSE 0)
     /\ run.addlen => e.scores[Len(e.scores)] = [kind |-> "length", v |-> -run.length])
  \cup Clause("the individual's fitness equals the recorded score", e.fitness_same)
Fails(s, e) ==
  LET run == Runs[s.q] IN
  CASE e.op = "evaluated" ->
        ScoreFails(run, e) \cup
        (IF e.failed
         THEN Clause("only a failing evaluation is reported as failed", e.fault)
              \cup Clause("a failed evaluation has no predictions and no estimators", e.nopred /\ e.noest)
              \cup Clause("a failed evaluation has minus infinity for every metric",
                     \A k \in 1..Len(run.metrics) : k <= Len(e.scores) => e.scores[k].kind = "-inf")
              \cup Clause("a failed evaluation names its error", e.error_named)
         ELSE Clause("an evaluation in which something failed is reported as failed", ~e.fault)
              \cup Clause("a successful evaluation has predictions and estimators", ~e.nopred /\ ~e.noest)
              \cup (IF e.fault \/ e.nopred \/ e.noest THEN {} ELSE
               Clause("no estimator predicts rows it was trained on", HeldOut(e.est))
               \cup Clause("the folds cover every row exactly once", EachRowOnce(run.n, e.est))
               \cup Clause("there is one estimator per fold", Len(e.est) = run.k)
               \cup Clause("one prediction per row", Len(e.pred) = run.n)
               \cup (IF ~EachRowOnce(run.n, e.est) \/ Len(e.pred) # run.n THEN {} ELSE
                Clause("the predictions are those of the fold's estimator", PredictionsMatch(run.n, e.est, e.pred, Proba(run), run.cls))
                \cup Clause("training rows are the fold's, or a subsample of the requested size",
                       \A k \in DOMAIN e.est : SizeOK(run.n, e.est[k], run.sub))
                \cup Clause("labels stay with their rows", \A k \in DOMAIN e.est : LabelsKept(e.est[k], run.y))
                \cup Clause("scores are the means over folds of the metrics on these predictions",
                       \A k \in 1..Len(run.metrics) :
                          e.scores[k].kind = "num" /\ e.scores[k].v = SumFolds(run.metrics[k], run.y, e.est)))))
    [] e.op = "compiled" ->
         Clause("the compiled pipeline has the fixed steps followed by the individual's, with its hyperparameters",
            e.steps = e.fixed \o e.individual)
    [] OTHER -> {"an evaluation always gives a result"}
Apply(s, e) == s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
