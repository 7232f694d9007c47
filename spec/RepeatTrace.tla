----------------------------- MODULE RepeatTrace -----------------------------
(* Two recorded runs of the same search, event by event: the k-th evaluation of
   both, and what both end with. *)
EXTENDS Repeat, TraceUtil
VARIABLES r, i, st
Start(run) == [n |-> 0]
Fails(s, e) ==
  CASE e.op = "eval" ->
         Clause("the same pipelines in the same order", e.a.pipeline = e.b.pipeline)
         \cup Clause("the same scores", e.a.score = e.b.score)
    [] e.op = "end" ->
         Clause("the same number of evaluations", e.a.n = e.b.n)
         \cup Clause("both runs complete", e.a.raised = "" /\ e.b.raised = "")
         \cup Clause("the search's result is the same", e.a.output = e.b.output)
         \cup Clause("the same model", e.a.model = e.b.model)
         \cup Clause("the same predictions", e.a.predictions = e.b.predictions)
    [] OTHER -> {"unknown event"}
Apply(s, e) == [s EXCEPT !.n = @ + 1]
EndFails(s, run) == Clause("evaluations were compared", s.n > 1)
INSTANCE TraceCheck
===============================================================================
