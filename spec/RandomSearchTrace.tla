------------------------- MODULE RandomSearchTrace -------------------------
(* Recorded random searches; several searches by one object per run. *)
EXTENDS RandomSearch, TraceUtil
VARIABLES r, i, st
Fresh(e) == [todo |-> e.start, n0 |-> Len(e.start), max |-> e.max, out |-> {}, ever |-> {}, results |-> <<>>, over |-> FALSE]
Start(run) == [over |-> TRUE]
Fails(s, e) ==
  CASE e.op = "begin" -> {}
    [] e.op = "submit" ->
         Clause("start candidates are evaluated first and in order", s.todo # <<>> => e.id = Head(s.todo))
         \cup Clause("after the start candidates come new random individuals",
                s.todo = <<>> => e.id \notin s.ever /\ e.origin = "new")
    [] e.op = "wait" ->
         Clause("the number of outstanding evaluations never changes", Cardinality(s.out) = s.n0 /\ s.todo = <<>>)
         \cup Clause("the result has exactly the individuals whose evaluation returned a result, in completion order",
                e.output = s.results)
         \cup Clause("it stops when the requested number is reached", ~Finished(s.results, s.max))
    [] e.op = "complete" -> Clause("a completed evaluation is an outstanding one", e.id \in s.out)
    [] e.op = "end" ->
         Clause("the search ends as expected: " \o e.expect, e.how = e.expect)
         \cup Clause("the final result has exactly the individuals whose evaluation returned a result, in completion order",
                e.output = s.results)
         \cup Clause("it stops exactly when the requested number is reached", e.how = "returned" => Len(s.results) = s.max)
         \cup Clause("the list handed back is the result", e.how = "returned" => e.ret = s.results)
    [] OTHER -> {"search terminates normally"}
Apply(s, e) ==
  CASE e.op = "begin" -> Fresh(e)
    [] e.op = "submit" -> [s EXCEPT !.out = @ \cup {e.id}, !.ever = @ \cup {e.id}, !.todo = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] e.op = "complete" -> [s EXCEPT !.out = @ \ {e.id},
                                      !.results = IF HasResult(e.out) THEN Append(@, e.id) ELSE @]
    [] e.op = "end" -> [s EXCEPT !.over = TRUE]
    [] OTHER -> s
EndFails(s, run) == Clause("the search ends", s.over)
INSTANCE TraceCheck
=============================================================================
