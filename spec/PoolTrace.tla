----------------------------- MODULE PoolTrace -----------------------------
(* Recorded submits and waits. run: workers, shared. *)
EXTENDS Pool, TraceUtil
VARIABLES r, i, st
Start(run) == [w |-> run.workers, shared |-> run.shared, jobs |-> <<>>, open |-> {}]
SizeFails(s, e, nopen) == Clause("the advertised queue size is the outstanding calls minus the workers", e.size = nopen - s.w)
Fails(s, e) ==
  CASE e.op = "submit" ->
         Clause("submitting does not raise", e.raised = "")
         \cup Clause("every submit returns a new handle", e.handle = Len(s.jobs) + 1)
         \cup SizeFails(s, e, Cardinality(s.open) + 1)
    [] e.op = "wait" ->
         Clause("waiting does not raise", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
         Clause("waiting returns the handle of an outstanding call, once", e.handle \in s.open)
         \cup Clause("the outcome is the call's own", e.handle \in s.open => e.got = Outcome(s.jobs[e.handle], s.shared))
         \cup SizeFails(s, e, Cardinality(s.open) - 1))
    [] e.op = "waitnone" ->
         Clause("waiting with nothing outstanding raises", e.raised = "RuntimeError" /\ s.open = {})
    [] e.op = "reenter" -> Clause("a pool can be entered only once", e.raised = "RuntimeError")
    [] e.op = "end" -> Clause("every submitted call came back", s.open = {})
    [] OTHER -> {"the pool answers"}
Apply(s, e) ==
  CASE e.op = "submit" -> [s EXCEPT !.jobs = Append(@, [kind |-> e.kind, tok |-> e.tok]), !.open = @ \cup {Len(s.jobs) + 1}]
    [] e.op = "wait" -> [s EXCEPT !.open = @ \ {e.handle}]
    [] OTHER -> s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
