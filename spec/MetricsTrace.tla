---------------------------- MODULE MetricsTrace ----------------------------
EXTENDS Metrics, TraceUtil
VARIABLES r, i, st
Start(run) == [q |-> run.idx]
Val(v) == <<v[1], v[2]>>
Fails(s, e) ==
  CASE e.op = "metric" ->
         Clause("the metric can be made", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
           Clause("classified as classification or regression", e.type = TypeOf(e.name))
           \cup Clause("needs probabilities exactly if computed from them", e.needs = (e.name \in FromProbabilities))
           \cup Clause("known by its name", e.known = e.name))
    [] e.op = "score" ->
         Clause("scores can be computed", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
           LET pl == Plain(e.name, e.y, e.p, e.q, e.C)
               mx == Maximizable(e.name, e.y, e.p, e.q, e.C)
           IN Clause("the plain score is the metric's own value", Val(e.plain) = pl)
              \cup Clause("the maximizable score is the value, negated for losses", Val(e.maxi) = mx)
              \cup Clause("an estimator is scored by the maximizable score of its predictions", Val(e.scorer) = mx))
    [] e.op = "model" ->
         Clause("a fitted model can be scored", e.raised = "")
         \cup Clause("scoring a fitted model is applying the metric to its predictions", e.raised = "" => Val(e.plain) = Plain(e.name, e.y, e.p, e.q, e.C))
    [] e.op = "convert" ->
         Clause("names, metrics and collections of these convert, anything else is rejected", (e.raised = "") = e.valid)
         \cup Clause("to the same metrics in order", (e.raised = "" /\ e.valid) => e.got = e.names)
    [] OTHER -> {"unknown event"}
Apply(s, e) == s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
