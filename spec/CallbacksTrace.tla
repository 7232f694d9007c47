---------------------------- MODULE CallbacksTrace ----------------------------
(* Completed evaluations of real fits and what callbacks saw.  Times in quarter
   seconds; run: limit (of the search), n (callbacks). *)
EXTENDS Callbacks, TraceUtil
VARIABLES r, i, st
Start(run) == [limit |-> run.limit, n |-> 0, now |-> 0, recorded |-> 0, slack |-> 0, ended |-> FALSE]
RECURSIVE Prefix(_, _)
Prefix(ts, k) == IF k = 0 THEN 0 ELSE ts[k] + Prefix(ts, k - 1)
Lates(s, e) == [k \in DOMAIN e.ts |-> s.now + Prefix(e.ts, k) - s.limit]
(* Well past the limit already: the timeout is raised after the first recording callback. *)
TooLate(s) == s.now - s.limit > Margin
Fails(s, e) ==
  CASE e.op = "register" -> Clause("registering does not raise", e.raised = "")
    [] e.op = "advance" -> {}
    [] e.op = "result" ->
         LET n == IF TooLate(s) THEN 0 ELSE CalledCount(e.bs, Lates(s, e)) IN
         Clause("the search continues until its timeout", ~s.ended)
         \cup Clause("every callback is called, in registration order, up to one that ends the search",
                     [k \in DOMAIN e.calls |-> e.calls[k].cb] = [k \in 1..n |-> k])
         \cup Clause("callbacks receive the completed evaluation", \A k \in DOMAIN e.calls : e.calls[k].same)
         \cup Clause("library and log are up to date when callbacks are called",
                     \A k \in DOMAIN e.calls : e.calls[k].logged = s.recorded + 1)
         \cup Clause("only the search's timeout is raised, in a callback or well past the limit",
                     e.raised = IF TooLate(s) \/ Raises(e.bs, Lates(s, e)) THEN "TimeoutException" ELSE "")
    [] e.op = "exception" ->
         Clause("evaluations that raised are not passed to callbacks", e.calls = <<>> /\ e.raised = "")
    [] e.op = "fitted" ->
         Clause("fit continues after the search ended", e.raised = "")
         \cup Clause("library and log contain every evaluation passed", e.logged \in s.recorded .. (s.recorded + s.slack) /\ e.library \in s.recorded .. (s.recorded + s.slack))
    (* a complete search: what the pool returned and what each callback saw *)
    [] e.op = "searched" ->
         Clause("every completed evaluation with a result is passed once to every callback, in order",
                \A c \in DOMAIN e.seen : e.seen[c] = e.results)
         \cup Clause("each is passed before the search continues", e.prompt)
         \cup Clause("the log has every evaluation once, in order", e.log = e.results)
    [] OTHER -> {"the search runs"}
Apply(s, e) ==
  CASE e.op = "register" -> [s EXCEPT !.n = @ + 1]
    [] e.op = "advance" -> [s EXCEPT !.now = @ + e.d]
    [] e.op = "result" -> [s EXCEPT !.now = @ + Prefix(e.ts, Len(e.calls)), !.recorded = IF TooLate(s) THEN @ ELSE @ + 1,
                                    !.slack = IF TooLate(s) THEN 1 ELSE 0, !.ended = e.raised # ""]
    [] OTHER -> s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
