----------------------------- MODULE LabelsTrace -----------------------------
(* Recorded fits and predictions.  run.fits are the targets.  Predictions are given
   as label numbers: -1 if a prediction is not exactly (type and value) a label. *)
EXTENDS Labels, TraceUtil
VARIABLES r, i, st
Start(run) == [y |-> <<>>]
Fails(s, e) ==
  CASE e.op = "fit" -> Clause("fit succeeds", e.raised = "")
    [] e.op = "predict" ->
         Clause("predicting succeeds", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
         Clause("predictions are an array with one entry per row", e.array /\ Len(e.got) = Len(e.rows))
         \cup Clause("every prediction is a label seen in fit, with its type and value", \A k \in DOMAIN e.got : e.got[k] \in Seen(s.y))
         (* rows of the training data, which the model remembers *)
         \cup Clause("labels and rows correspond by position",
                \A k \in DOMAIN e.rows : e.rows[k] > 0 /\ s.y[e.rows[k]] # 0 => e.got[k] = s.y[e.rows[k]]))
    [] e.op = "proba" ->
         Clause("predicting probabilities succeeds", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
         Clause("one row per input row and one column per label", Len(e.top) = Len(e.rows) /\ e.columns = Cardinality(Seen(s.y)))
         \cup Clause("probabilities of a row sum to one", e.sums)
         \cup Clause("columns are in sorted label order",
                \A k \in DOMAIN e.rows : e.rows[k] > 0 /\ s.y[e.rows[k]] # 0 => e.top[k] = Column(s.y, s.y[e.rows[k]])))
    [] e.op = "same" -> Clause("the result equals fitting on the labelled rows only", e.same)
    [] OTHER -> {"fit runs"}
Apply(s, e) == IF e.op = "fit" THEN [y |-> e.y] ELSE s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
