--------------------------- MODULE OffspringTrace ---------------------------
(* Recorded evaluations and offspring requests.  "request": the attempts the
   scripted operator would yield are known; "natural": the real operators chose. *)
EXTENDS Offspring, TraceUtil
VARIABLES r, i, st
Start(run) == [done |-> {}]
Fails(s, e) ==
  CASE e.op = "eval" -> {}
    [] e.op = "run" -> {}
    [] e.op = "request" ->
         Clause("offspring creation does not raise", e.raised = "")
         \cup Clause("the first attempt that is new is used; an evaluated one only if all attempts are",
                e.raised = "" => e.got \in Allowed(s.done, e.atts, e.retry))
         \cup Clause("attempts stop at the first new one and number at most the allowed",
                e.raised = "" => e.made = Used(s.done, e.atts, e.retry))
         \cup Clause("every attempt starts from the parents, which stay as they are",
                /\ e.after = e.of
                /\ \A k \in DOMAIN e.given : e.given[k] = e.of)
    [] e.op = "natural" ->
         \* options: what one attempt may yield, each equally likely; at least half new and 50 attempts
         Clause("offspring creation does not raise", e.raised = "")
         \cup Clause("an evaluated pipeline is not proposed again while new ones are at hand",
                (e.raised = "" /\ 2 * Cardinality(RangeOf(e.options) \ s.done) >= Cardinality(RangeOf(e.options)))
                   => e.got \notin s.done)
    [] OTHER -> {"offspring creation terminates normally"}
Apply(s, e) == CASE e.op = "eval" -> [s EXCEPT !.done = @ \cup {e.p}]
                 [] e.op = "run" -> [s EXCEPT !.done = {}]
                 [] OTHER -> s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
