------------------------------ MODULE EATrace ------------------------------
(* Recorded evolutionary searches. run: size, start (ids), maxn (0: none). *)
EXTENDS EA, TraceUtil
VARIABLES r, i, st
Start(run) == [size |-> run.size, todo |-> run.start, out |-> {}, pop |-> <<>>, last |-> [ok |-> FALSE, id |-> 0, v |-> <<>>],
               seen |-> FALSE, n |-> 0, maxn |-> run.maxn, fresh |-> 0, ever |-> {}, over |-> FALSE]
Fails(s, e) ==
  CASE e.op = "submit" ->
         Clause("start candidates are evaluated first and in order", s.todo # <<>> => e.id = Head(s.todo))
         \cup Clause("a restart continues with new random individuals", s.fresh > 0 => e.origin = "new")
         \cup Clause("no individual is evaluated twice", e.id \notin s.ever)
    [] e.op = "complete" ->
         Clause("all start candidates are submitted before results are awaited", s.todo = <<>>)
         \cup Clause("a restart continues with a full set of new candidates", s.fresh = 0)
         \cup Clause("a completed evaluation is an outstanding one", e.id \in s.out)
         \cup Clause("no more evaluations are processed than the maximum", s.maxn = 0 \/ s.n < s.maxn)
    [] e.op = "pop" ->
         AfterFails(s.pop, s.last.ok, [id |-> s.last.id, v |-> s.last.v], s.size, e.pop)
    [] e.op = "end" ->
         Clause("the search ends as expected: " \o e.expect, e.how = e.expect)
         \cup (IF e.how = "returned"
               THEN Clause("exactly the maximum number of evaluations is processed", s.n = s.maxn)
                    \cup Clause("the result is the population", Ids(e.pop) = Ids(s.pop))
               ELSE Clause("the result is the population at the moment of interruption",
                    (Ids(e.pop) = Ids(s.pop) \/ ~s.seen) /\ Ids(e.pop) \subseteq Ids(s.pop) \cup {s.last.id}))
    [] OTHER -> {"search terminates normally"}
Apply(s, e) ==
  CASE e.op = "submit" -> [s EXCEPT !.out = @ \cup {e.id}, !.ever = @ \cup {e.id},
                                    !.todo = IF @ = <<>> THEN @ ELSE Tail(@),
                                    !.fresh = IF @ > 0 THEN @ - 1 ELSE 0]
    [] e.op = "complete" -> [s EXCEPT !.out = @ \ {e.id}, !.n = @ + 1, !.seen = FALSE,
                                      !.last = [ok |-> e.out = "ok", id |-> e.id, v |-> e.v]]
    [] e.op = "pop" -> [s EXCEPT !.pop = IF e.again THEN <<>> ELSE e.pop, !.seen = TRUE,
                                 !.fresh = IF e.again THEN s.size ELSE 0]
    [] e.op = "end" -> [s EXCEPT !.over = TRUE]
    [] OTHER -> s
EndFails(s, run) == Clause("the search ends", s.over)
INSTANCE TraceCheck
=============================================================================
