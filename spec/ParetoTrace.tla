---------------------------- MODULE ParetoTrace ----------------------------
(* Recorded behaviour of ParetoFront, nsga2, parent selection, elimination. *)
EXTENDS Pareto, TraceUtil
VARIABLES r, i, st
Start(run) == [P |-> <<>>]
Fails(s, e) ==
  CASE e.op = "update" ->
         LET P2 == Append(s.P, e.v) IN
         Clause("update does not raise", e.raised = "")
         \cup Clause("the front holds exactly the non-dominated items (first of equals)",
                IF e.mode = "objects"
                THEN IsPermutation(e.front, e.front) /\ RangeOf(e.front) = FrontOf(P2)
                     /\ Len(e.front) = Cardinality(FrontOf(P2))
                ELSE Len(e.vals) = Cardinality(FrontOf(P2))
                     /\ RangeOf(e.vals) = {P2[k] : k \in FrontOf(P2)})
         \cup Clause("update reports whether the front changed", e.ret = (FrontOf(P2) # FrontOf(s.P)))
    [] e.op = "start" ->
         Clause("a front started from a list equals updating with each item",
                RangeOf(e.front) = FrontOf(e.pop) /\ Len(e.front) = Cardinality(FrontOf(e.pop)))
    [] e.op = "clear" -> Clause("a cleared front is empty", e.len = 0)
    [] e.op = "nsga2" -> Clause("selection does not raise", e.raised = "")
                         \cup (IF e.raised = "" THEN SelectFails(e.pop, e.n, e.sel) ELSE {})
    [] e.op = "pairs" -> Clause("parent selection does not raise", e.raised = "")
                         \cup (IF e.raised = "" THEN PairFails(e.pop, e.pairs, e.n) ELSE {})
    [] e.op = "reject" -> Clause("an invalid request is rejected: " \o e.what, e.raised = "ValueError")
    [] e.op = "eliminate" ->
         Clause("elimination does not raise", e.raised = "")
         \cup Clause("exactly one member is eliminated", Len(e.out) = 1)
         \cup Clause("a member is not eliminated if it is at least as good everywhere as a different member",
                \A q \in DOMAIN e.out : e.out[q] \in DOMAIN e.pop /\ Removable(e.pop, e.out[q]))
    [] OTHER -> {"unknown event"}
Apply(s, e) == CASE e.op = "update" -> [s EXCEPT !.P = Append(@, e.v)]
                 [] e.op = "clear" -> [s EXCEPT !.P = <<>>]
                 [] OTHER -> s
EndFails(s, run) == Clause("events recorded", Len(run.ev) > 0)
INSTANCE TraceCheck
=============================================================================
