---------------------------- MODULE RowWiseTrace ----------------------------
(* Calls of a fitted object.  same[k]: the first row with the same values as row k.
   call: rows (their numbers, in the order given), way (label, proba, score), out, raised,
   kept: the given data (frame, array or file) is as it was before the call. *)
EXTENDS RowWise, TraceUtil
VARIABLES r, i, st
Start(run) == [known |-> {}, same |-> run.same]
Facts(s, e) == {[row |-> s.same[e.rows[k]], way |-> e.way, v |-> e.out[k]] : k \in DOMAIN e.rows}
Fails(s, e) ==
  CASE e.op = "call" ->
         Clause("the rows can be predicted", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
         Clause("one answer for each row", Len(e.out) = Len(e.rows))
         \cup (IF Len(e.out) # Len(e.rows) THEN {} ELSE
         Clause("a row is answered the same whatever the other rows, their order and the form of the data",
                \A a, b \in Facts(s, e) \cup s.known : (a.row = b.row /\ a.way = b.way) => a.v = b.v))
         \cup Clause("the data is not modified", e.kept))
    [] e.op = "score" ->
         Clause("the rows can be scored", e.raised = "")
         \cup Clause("the score of a file is the score of its rows and target", e.file = e.direct)
         \cup Clause("the data is not modified", e.kept)
    [] OTHER -> {"outcome: " \o e.op}
Apply(s, e) == IF e.op = "call" /\ e.raised = "" THEN [s EXCEPT !.known = @ \cup Facts(s, e)] ELSE s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
