---------------------------- MODULE HalvingTrace ----------------------------
(* Recorded successive halving searches. run: c, start, maxfull (0: none). *)
EXTENDS Halving, TraceUtil
VARIABLES r, i, st
Start(run) == LET c == Cfg(run.c) IN [c |-> c, todo |-> RangeOf(run.start), maxfull |-> run.maxfull, out |-> {}, at |-> <<>>,
               done |-> NoResults(c), promoted |-> NoneDone(c), over |-> FALSE]
Known(s, id) == id \in DOMAIN s.at
(* the rung on which a submitted individual is evaluated *)
RungOf(s, id) == IF Known(s, id) THEN s.at[id] + 1 ELSE s.c.skip
Fails(s, e) ==
  CASE e.op = "submit" ->
         IF ~Known(s, e.id)
         THEN Clause("a promotion that is due is made before a new candidate is started",
                     DueRungs(s.c, s.done, s.promoted) = {})
              \cup Clause("start candidates are considered before new individuals", s.todo # {} => e.id \in s.todo)
         ELSE LET k == s.at[e.id] IN
              Clause("only completed evaluations are promoted", e.id \notin s.out)
              \cup (IF e.id \in s.out THEN {} ELSE
              Clause("individuals of the top rung are not evaluated again", k < Top(s.c))
              \cup (IF k >= Top(s.c) THEN {} ELSE
              Clause("promotions never exceed the completed evaluations divided by the reduction factor",
                     Len(s.done[k]) \div s.c.eta > Cardinality(s.promoted[k]))
              \cup Clause("no individual is promoted twice from a rung", e.id \notin s.promoted[k])
              \cup Clause("the best individual of the rung not yet promoted is promoted",
                     e.id \in BestOf(s.done, s.promoted, k))))
    [] e.op = "complete" ->
         Clause("a completed evaluation is an outstanding one", e.id \in s.out)
         \cup (IF e.id \notin s.out THEN {} ELSE
         Clause("each rung is evaluated with its own resource", e.res = Resource(s.c, s.at[e.id]))
         \cup (IF ~e.result THEN {} ELSE
         Clause("the rung is recorded with the evaluation", e.rung = s.at[e.id])
         \cup Clause("only evaluations on the top rung count as full evaluations",
                e.full = (e.ok /\ s.at[e.id] = Top(s.c)))))
         \cup Clause("the search stops when enough individuals are evaluated on the top rung",
                s.maxfull = 0 \/ Len(s.done[Top(s.c)]) < s.maxfull)
    [] e.op = "end" ->
         Clause("the search ends as expected: " \o e.expect, e.how = e.expect)
         \cup Clause("the result is the individuals of the highest rung with a completed evaluation",
                e.how = "returned" => IsPermutation(e.output, Answer(s.c, s.done)))
         \cup Clause("the search stops only after enough individuals are evaluated on the top rung",
                ~e.interrupted => s.maxfull > 0 /\ Len(s.done[Top(s.c)]) = s.maxfull)
    [] OTHER -> {"search terminates normally"}
Apply(s, e) ==
  CASE e.op = "submit" -> [s EXCEPT !.out = @ \cup {e.id}, !.todo = @ \ {e.id},
                                    !.at = (e.id :> RungOf(s, e.id)) @@ @,
                                    !.promoted = IF Known(s, e.id) THEN [@ EXCEPT ![s.at[e.id]] = @ \cup {e.id}] ELSE @]
    [] e.op = "complete" -> [s EXCEPT !.out = @ \ {e.id},
                                      !.done = IF e.result THEN [@ EXCEPT ![s.at[e.id]] = Append(@, [id |-> e.id, v |-> e.v])] ELSE @]
    [] e.op = "end" -> [s EXCEPT !.over = TRUE]
    [] OTHER -> s
EndFails(s, run) == Clause("the search ends", s.over)
INSTANCE TraceCheck
=============================================================================
