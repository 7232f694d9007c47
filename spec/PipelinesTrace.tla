--------------------------- MODULE PipelinesTrace ---------------------------
(* Recorded creation, mutation and crossover. run: space, max, complete (0/1). *)
EXTENDS Pipelines, TraceUtil
VARIABLES r, i, st
Start(run) == [q |-> run.idx, ids |-> {}, made |-> {}]
Fails(s, e) ==
  CASE e.op = "made" ->
         Clause("variation does not raise", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
         Clause("the result is a well-formed pipeline of the search space", WellFormed(Runs[s.q].space, e.child))
         \cup Clause("the result respects the maximum pipeline length", Fits(e.child, Runs[s.q].max))
         \cup Clause("the kind of edit recorded is of the operation requested", e.origin \in RangeOf(e.allowed))
         \cup Clause("the result is its parents changed by exactly the recorded edit", EditOK(e.origin, e.pre, e.child))
         \cup Clause("parents are not modified", e.pre = e.post /\ e.prefit = e.postfit)
         \cup Clause("the result has a new identity", e.cid \notin s.ids /\ e.cid \notin RangeOf(e.pids))
         \cup Clause("the result has no fitness yet", e.fit = "none")
         \cup Clause("the result names its parents", e.named = e.pids))
    [] e.op = "unchanged" -> Clause("individuals made earlier are not modified by later variation", e.before = e.after)
    [] OTHER -> {"variation terminates normally"}
Apply(s, e) == IF e.op = "made" /\ e.raised = ""
               THEN [s EXCEPT !.ids = @ \cup {e.cid},
                              !.made = IF e.origin = "new" THEN @ \cup {e.child} ELSE @]
               ELSE s
EndFails(s, run) == Clause("random creation can produce every pipeline up to the length limit",
                           run.complete = 1 => s.made = AllPipelines(run.space, run.max))
INSTANCE TraceCheck
=============================================================================
