--------------------------- MODULE FitModelTrace ---------------------------
(* Recorded fits.  Individuals are numbered in order of appearance.  *)
EXTENDS FitModel, TraceUtil
VARIABLES r, i, st
Start(run) == [prev |-> <<>>, fitted |-> FALSE, known |-> {}]
Fails(s, e) ==
  CASE e.op = "export" ->
         Clause("exporting raises an error exactly before a model exists", (e.raised = "RuntimeError") = ~s.fitted /\ (s.fitted => e.raised = ""))
    [] e.op = "badwarm" ->
         Clause("a warm start of anything but individuals is rejected before any search", e.raised = "TypeError" /\ ~e.searched)
    [] e.op = "fit" ->
         Clause("fit continues however the search ended", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
         Clause("fit returns the object itself", e.returned)
         \cup Clause("the search starts from the warm start, else the previous result, else fifty new individuals",
                     StartOK(e.start, e.warm, s.prev, s.known))
         \cup Clause("the caller's list is left unchanged", e.warmafter = e.warm)
         \cup Clause("the model is the individual with the highest fitness of the search's result",
                     \E k \in Best(e.scores) : e.output[k] = e.model)
         \cup Clause("the model has the steps of that individual", e.steps)
         \cup Clause("the model is trained on all labelled rows", e.trained = e.labelled)
         \cup Clause("predictions are made by that model", e.predicts))
    [] OTHER -> {"fit runs"}
Apply(s, e) ==
  CASE e.op = "fit" -> [prev |-> e.output, fitted |-> TRUE, known |-> s.known \cup RangeOf(e.output) \cup RangeOf(e.start)]
    [] OTHER -> s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
